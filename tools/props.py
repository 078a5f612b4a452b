"""The properties: text for properties.jsonl, technique and note for MANIFEST.json."""
D = 'pydarnio/dmap/dmap.py'
S = 'pydarnio/dmap/superdarn.py'
SF = 'pydarnio/dmap/superdarn_formats.py'
DS = 'pydarnio/dmap/datastructures.py'
U = 'pydarnio/utils/conversions.py'
DE = 'pydarnio/exceptions/dmap_exceptions.py'
SDE = 'pydarnio/exceptions/superdarn_exceptions.py'
BE = 'pydarnio/exceptions/borealis_exceptions.py'
BB = 'pydarnio/borealis/base_format.py'
BF = 'pydarnio/borealis/borealis_formats.py'
BR = 'pydarnio/borealis/borealis_restructure.py'
BC = 'pydarnio/borealis/borealis_convert.py'
BU = 'pydarnio/borealis/borealis_utilities.py'
BS = 'pydarnio/borealis/borealis_site.py'
BA = 'pydarnio/borealis/borealis_array.py'
BO = 'pydarnio/borealis/borealis.py'
PROPS = []
NA = []
NOTE = ('Decided from the terms, path conditions and effects an abstract interpreter computes for every path of the public entry points; '
        'constructs it cannot evaluate make an obligation undecided (reported, not failed). Python, NumPy, struct and h5py calls are modelled, not executed.')


def prop(id, title, statement, over, text, why, files, mech, technique, state=None, note='', na=None):
    p = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, 'technique': technique, 'note': (note + ' ' if note else '') + NOTE}
    if state:
        p['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if na:
        p['na'] = na
    PROPS.append(p)


prop('D01', 'DMAP bytes written are exactly the bytes the DMAP reader consumes',
     'Every DMAP record written is one block: a marker and size that match the bytes that follow, the counts of scalars and arrays, then all scalars and all arrays, each with name, type code and (for arrays) '
     'dimensions before its data in native byte order. The DMAP readers take the same block apart with the same widths, order, signedness and string encoding and end exactly where the next block begins. '
     'So writing records that hold at least one scalar and one array and reading them back gives the same records, for every field type, shape and number of records.',
     ['inputs'], 'all records with any mix of the supported scalar and array types, any names, shapes and values, any number of records, through every DMAP and SuperDARN reader and writer',
     'The tests round-trip a few sample files; most type codes, array ranks, empty strings, non-ASCII text and orders of fields never occur in them.',
     [D, S, DS], [('record to bytes', D + ': DmapWrite'), ('bytes to record', D + ': DmapRead')],
     'abstract interpretation to symbolic byte layouts of writer and reader, compared segment by segment')
prop('D02', 'DMAP type codes are mutually inverse and dictionary conversion loses nothing',
     'Each DMAP type code stands for one element type with the right width and signedness, and the tables that map codes to types and types to codes are inverse to each other. '
     'Converting dictionaries to DMAP records and back keeps every field, its name, order, value, element type and shape, and refuses values of types DMAP cannot hold.',
     ['inputs'], 'all dictionaries of scalars, strings and arrays of any supported type',
     'The tests convert one sample dictionary; they do not compare every type code or every field of every record.',
     [U, DS, D], [('dict2dmap, dmap2dict', U), ('type tables', D)],
     'abstract interpretation; table comparison and term comparison with the identity conversion')
prop('D03', 'Malformed DMAP data is refused with a documented error, never read out of bounds',
     'Every read of the buffer of a DMAP file or stream happens only after the position has been shown to lie inside the data, and negative, zero, oversized or mismatched sizes and counts and unknown type codes are refused with a documented error. '
     'The position only moves forward, so reading ends for every input.',
     ['inputs', 'fault_sequences'], 'all byte strings: truncated, corrupted, with any sizes, counts, type codes and names',
     'The tests corrupt a handful of offsets of sample files; they cannot enumerate the sizes and positions corruption can take.',
     [D, DE], [('checks before each read', D + ': DmapRead'), ('integrity test', D + ': test_initial_data_integrity')],
     'abstract interpretation; linear-arithmetic entailment of bounds from path conditions; exception-escape analysis')
prop('D04', 'Every SuperDARN record is checked on reading and on writing, none is skipped',
     'Reading or writing an iqdat, rawacf, fitacf, snd, grid or map file checks every record, and none is dropped, for fields outside the format, for groups of fields of which only part is present, and for fields of the wrong type. '
     'No record with such a fault is returned or written.',
     ['inputs', 'histories'], 'all six file types, both directions, any number of records, any position of the faulty record',
     'The tests put faults into one record of a few files; they do not cover every file type, position and fault.',
     [S, SF], [('record checks', S + ': SDarnUtilities, SDarnRead, SDarnWrite')],
     'abstract interpretation; propositional entailment from the facts each loop pass establishes')
prop('D05', 'A SuperDARN record is refused only for a real fault, and the error names it',
     'A record is refused as having extra, missing or wrongly typed fields only when it has some: a field outside the format, part but not all of a required group absent, or a type other than the published one. '
     'The error states the number of the offending record and exactly the offending fields.',
     ['inputs'], 'all records of the six file types, valid and invalid, at any position in the file',
     'The tests check that some bad files raise; they do not check that every valid record passes nor what the error lists.',
     [S, SDE], [('dict_key_diff, missing_field_check, extra_field_check, incorrect_types_check', S)],
     'abstract interpretation; equivalence of refusal conditions and reported fields with a reference model')
prop('D06', 'The six SuperDARN file types use the published fields and types',
     'For iqdat, rawacf, fitacf, snd, grid and map files the fields accepted, the groups of fields demanded together, the optional fields and the type of every field are the published ones, the same for reading and writing.',
     ['inputs', 'configurations'], 'every field of every file type in both directions',
     'The tests use sample files in which many optional groups and most wrong types never occur.',
     [SF, S], [('field tables', SF)],
     'tables extracted by abstract interpretation from the acceptance conditions, compared with pinned tables')
prop('D07', 'A refused write touches no file, and only the named output is written',
     'DMAP, SuperDARN and Borealis writers and the Borealis converter validate everything before they open the output, so a refused write neither creates nor changes a file. '
     'The only file ever opened for writing is the output the caller named, and reading opens nothing for writing.',
     ['inputs', 'fault_sequences'], 'all entry points, all versions and file types, any reason for refusal',
     'The tests look at the exception, not at the file system after each possible refusal.',
     [D, S, BS, BA, BB, BC], [('write methods', D), ('write methods', S), ('h5py output', BB)],
     'effect analysis: order of file-opening effects and explicit refusals over every path')
prop('D08', 'Writing and restructuring leave the caller\'s data alone and can be repeated',
     'Reading, writing, converting and restructuring never modify the records, arrays or dictionaries the caller passed in. '
     'Writing the same DMAP records again with the same writer gives the same bytes, whatever was written or refused before.',
     ['inputs', 'histories'], 'all records and all sequences of writes on one writer',
     'The tests write once and compare the file; they do not write twice or compare their inputs afterwards.',
     [D, S, BB, BF, BU], [('output buffer', D + ': DmapWrite'), ('deep copies', BB)],
     'effect analysis: ownership of every object changed in place; byte terms of repeated writes compared',
     note='Dictionary conversion and numeric array fields passed to += are judged by their declared type.')
prop('D09', 'Readers, writers and converters share no mutable state',
     'No reader, writer, converter or restructuring changes module-level tables, class attributes or default arguments. '
     'Instances used one after another or side by side do not influence each other.',
     ['histories', 'schedules'], 'all sequences and interleavings of uses of the public classes',
     'The tests run each class in isolation; leaks show only after another use.',
     [D, S, BB, BF, BU, BC], [('format tables', SF), ('format tables', BF)],
     'effect analysis: origin (module, class, default argument or local) of every object changed')

prop('B01', 'Every Borealis record and array set is checked against its format',
     'Reading, writing, restructuring and converting Borealis files of versions v0.4 to v0.7 and of every file type checks each record (or the whole set of arrays) for fields outside the format, absent fields and '
     'fields of the wrong type, and the per-record arrays for a common number of records. What is returned or written holds exactly the published fields of that version, file type and structure with the published types.',
     ['inputs', 'configurations'], '4 versions, 4 file types, 2 structures, reading and writing; any number of records, any position of the faulty one',
     'The tests cover few versions and faults of a few fields in one record each.',
     [BB, BF, BU, BS, BA], [('record checks', BU), ('field lists and types', BF)],
     'abstract interpretation; entailment of the per-record checks by the facts established on every accepting path; pinned tables')
prop('B02', 'Borealis records are refused only for a real fault, and the error names it',
     'A Borealis record or array set is refused for fields, types or record counts only when a field outside the format is present, a field is absent, a type differs or the counts disagree. '
     'The error is the one documented for that fault and lists the offending records and exactly the offending fields.',
     ['inputs', 'configurations'], '4 versions, 4 file types, 2 structures, reading and writing; valid and invalid records at any position',
     'The tests check that some invalid files raise, not that every valid one passes nor what the error lists.',
     [BU, BE, BB, BF], [('dict_key_diff, missing, extra and type checks', BU)],
     'abstract interpretation; equivalence of refusal conditions and reported fields with a reference model')
prop('B04', 'Restructuring records to arrays keeps every value of every record',
     'Turning site records into arrays gives exactly the fields of the array format. Row i of each per-record array holds the values of record i, all of them, from the start of every other dimension; every dimension that differs between records has '
     'room for the longest record and what a record leaves over is NaN, -1 or 0 by type, so records never mix or truncate each other. Fields common to the records appear once; beam and blanked-sample counts are those of each record.',
     ['inputs', 'configurations'], 'all valid site data of v0.4 to v0.7 antennas_iq, bfiq and rawacf, any number of records, each with its own number of sequences, beams and blanked samples',
     'The sample files hold records of nearly equal sizes; truncation and mixing show only when the longest record is not where the sample has it.',
     [BB, BF, BS], [('_site_to_array', BB), ('dimension tables', BF)],
     'abstract interpretation to the array of each field (shape, fill, index and value stored for an arbitrary record); comparison with the dimensions of the format',
     note='The room of pulse_phase_offset (v0.6 on) is undecided.')
prop('B05', 'Restructuring arrays to records gives each its own unpadded values',
     'Turning arrays into site records gives one record for each row, named by the milliseconds of its first sequence, with exactly the fields and types of the site format. '
     'Each per-record field is row i without its padding: cut to the sequences, beams and blanked samples of that record; the dimensions stated in the record are those of its samples, and samples are flat where the format has them flat.',
     ['inputs', 'configurations'], 'all valid array data of v0.4 to v0.7 antennas_iq, bfiq and rawacf, any number of rows and any padding',
     'The sample files hold rows with little padding; a wrong row or length shows only with particular sizes.',
     [BB, BF, BA], [('_array_to_site', BB), ('dimension tables', BF)],
     'abstract interpretation to the record of an arbitrary row; comparison of rows, slices and types with the format',
     note='The length of pulse_phase_offset (v0.6 on) is undecided.')
prop('B06', 'Restructuring a file gives what restructuring its data in memory gives',
     'BorealisRestructure, which works on the file record by record, writes the same data as reading the file whole and restructuring it in memory. '
     'From records to arrays: the same fields, one row per record in file order, room for the longest record of every dimension, each record in its own row from the start, padding marked as such, text as text. '
     'From arrays to records: one record for each row, named by the milliseconds of its first sequence, each field row i without its padding.',
     ['inputs', 'configurations'], 'all valid site and array files of v0.4 to v0.7 antennas_iq, bfiq and rawacf, any number of records and any padding',
     'The tests restructure sample files whose records have equal sizes; a dimension taken from the first record only, or a value kept from the previous one, shows only with records that differ.',
     [BR, BB, BF], [('BorealisRestructure', BR), ('site_get_max_dims', BB), ('format classes', BF)],
     'abstract interpretation of the file-to-file paths over a valid file; the terms over the HDF5 groups are turned into terms over the stored data and judged by the rules of the in-memory restructuring',
     note='pulse_phase_offset of v0.6 on is undecided.')
prop('B09', 'Borealis data written to a file and read back is the same',
     'Writing Borealis records or arrays stores every field of every record, none else, under its own name in the group of its record, with the compression asked for; '
     'reading the file back gives the same records under the same names, every field with the same value, shape and element type, text (also empty text and arrays of text of any width) included. '
     'Excepted are non-ASCII text in single-valued fields and the documented repair of malformed pulse_phase_offset.',
     ['inputs', 'configurations'], 'all valid records and arrays of v0.4 to v0.7 and all file types, any number of records, values, shapes and text widths, any compression',
     'The tests round-trip a few sample data sets; text widths, empty texts, element types and record names of other files do not occur.',
     [BB, BS, BA, BO], [('write_records, write_arrays, read_records, read_arrays', BB)],
     'abstract interpretation of writer and reader to storage terms; composition of both under a model of HDF5 attributes and data sets, per field')
prop('B10', 'Version, file type and structure of Borealis data select its format',
     'Every Borealis operation handles data as exactly the version its borealis_git_hash names (first two parts), the file type the caller names and the structure it names. '
     'Unknown versions, file types and structures are refused with the documented error, unknown file types before any file is opened. Without a structure the data are tried as arrays first and as records only after a refusal that says they are not arrays, '
     'with the same file type and compression. The object reports the structure, format, version, record names and data in use.',
     ['inputs', 'configurations'], 'all versions v0.2 to v0.7 and unknown ones, all file types and structures and any other text, read, written, restructured and converted',
     'The tests use a few versions and valid options; wrong and missing options, version texts with suffixes and unknown versions rarely occur.',
     [BO, BS, BA, BR, BU, BF], [('return_reader, return_writer', BO), ('get_borealis_version, get_borealis_structure', BU), ('borealis_version_dict', BF)],
     'abstract interpretation with free options; case analysis of path conditions on options; normal form of the version text; comparison with pinned tables')
prop('B11', 'A failed restructuring is always reported as a restructuring error',
     'Viewing the data of a site reader as arrays or of an array reader as records, and restructuring a file, turn every failure of the restructuring itself into BorealisRestructureError, with the file and the cause, whatever the cause was. '
     'File types without another structure are refused with the documented error, and no failure is swallowed: the caller gets either the restructured data or an error.',
     ['inputs', 'configurations'], 'all Borealis files of v0.4 to v0.7 and all file types, any inconsistency of the data at any point of the restructuring',
     'The tests restructure consistent files; failures inside the restructuring rarely occur.',
     [BS, BA, BR, BB, BE], [('arrays, records properties', BS), ('_restructure', BR)],
     'abstract interpretation of the data operations with the enclosing handlers: every raising operation is covered by a handler that raises the documented error')
prop('C01', 'Converted SDARN records are complete, correctly typed and all written',
     'Converting a Borealis bfiq or rawacf file produces iqdat or rawacf records with all the published fields of that SDARN file type, no others, each of the published DMAP type. '
     'The records written are the converted ones, written as that file type to the output the caller named.',
     ['inputs', 'configurations'], 'all valid bfiq and rawacf files of v0.4 to v0.7, any number of records and beams',
     'The tests convert a few sample files and check that the output can be read.',
     [BC, SF, U], [('record conversion', BC), ('_write_to_sdarn', BC)],
     'abstract interpretation to the record dictionary of an arbitrary record and beam; comparison with pinned SDARN field tables')
prop('C02', 'Each converted SDARN field holds the right Borealis quantity in the right unit',
     'Every field of a converted record other than the samples is computed from the Borealis field of the same meaning of the same record and beam, in the unit and rounding of the SDARN format: '
     'start time from the first sequence, integration time as seconds and microseconds, frequency in kHz, pulse and lag tables, beam number and azimuth of that beam, station id, noise, sequence times, '
     'status words, transmit power, software version, and the comment with origin file, record, scaling factor and number of beams.',
     ['inputs', 'configurations'], 'all valid bfiq and rawacf files of v0.4 to v0.7, every field, any record and beam, any scaling factor and slice id',
     'The tests do not compare values of converted fields with the source.',
     [BC], [('__convert_bfiq_record, __convert_rawacf_record', BC)],
     'abstract interpretation to value terms; comparison in a normal form of NumPy expressions with an independent specification')
prop('C03', 'Conversion yields one record per beam of each record, or refuses the file',
     'Conversion produces one SDARN record for each beam of each Borealis record, in the order of the records and of the beams, none skipped and none repeated. '
     'Files whose blanked samples are not those of the pulses, bfiq files with pulse phase offsets and file types without SDARN form are refused with the documented error before anything is written, and no other valid file is refused.',
     ['inputs', 'configurations'], 'all Borealis files of v0.4 to v0.7 and all file types, any number of records and beams, site and array structure',
     'The sample files hold few records and beams and are all convertible.',
     [BC, BE], [('_is_convertible_to_*', BC), ('_convert_*', BC)],
     'abstract interpretation; iteration structure of the result; equivalence of refusal conditions with a reference model')
prop('C04', 'Converted samples and correlations keep scale, order and range',
     'The samples of a converted record are those of its beam, normalised, scaled to 16 bits and by the scaling factor (1 unless given), ordered by sequence, then antenna array, then sample, real part before imaginary part, and clamped to '
     'the 16-bit range before they are narrowed; offsets and sizes match this layout. Correlations are those of its beam scaled by the square, without the alternate lag zero, ordered by range and lag; pwr0 is the modulus of lag zero.',
     ['inputs', 'configurations'], 'all valid bfiq and rawacf files of v0.4 to v0.7, any shapes, beams, sequences and scaling factors',
     'The tests do not compare converted samples with the source; overflow and multi-beam indexing do not occur in the sample files.',
     [BC], [('__convert_bfiq_record, __convert_rawacf_record', BC)],
     'abstract interpretation to value terms; comparison in a normal form of NumPy expressions with an independent specification',
     note='Equality up to floating-point rounding.')
prop('X01', 'The library never fails through its own mistakes: names, attributes, arguments',
     'On every path of every public operation on valid and on invalid input, each name, attribute and import used exists, each call passes arguments its target accepts, and each message can be formatted. '
     'So failing operations raise the intended error, with its message, and never AttributeError, NameError, TypeError or KeyError of a mistake in the library, and error reporting, printing and every public property work.',
     ['inputs', 'configurations'], 'all public readers, writers, restructuring, converters and utilities, all paths, all Borealis versions and file types; name resolution also of code no run reaches',
     'Error paths, rarely used properties and version-specific branches are not executed by the tests, and Python finds such mistakes only when it executes them.',
     [D, S, U, BO, BS, BA, BR, BB, BF, BC, BU, DE, SDE, BE], [('public operations', 'pydarnio'), ('exceptions and messages', 'pydarnio/exceptions')],
     'abstract interpretation of all paths: call binding, attribute and name resolution, format placeholders; symbol-table resolution of the whole package')
NA = []
