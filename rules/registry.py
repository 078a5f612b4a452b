"""property -> (module, function, least number of obligations, what was analysed)"""
RULES = {
    'D01': ('dmap_layout', 'd01', 300, 'Byte layout of the DMAP writers (every entry point, 11 scalar and 10 array formats) against the DMAP readers.'),
    'D02': ('dmap_convert', 'd02', 150, 'Type tables of the DMAP module against each other and the element types; dictionary conversion in both directions.'),
    'D03': ('dmap_guard', 'd03', 300, 'Every read of the buffer, every refusal and every record loop of the DMAP readers.'),
    'D04': ('dmap_records', 'd04', 80, 'The facts established about each record by the six SuperDARN readers and the six writers.'),
    'D05': ('dmap_records', 'd05', 100, 'Every refusal of a record by the six SuperDARN readers and writers: its condition, the fields and the record number it reports.'),
    'D06': ('dmap_records', 'd06', 500, 'The field tables in force in the acceptance conditions of the six SuperDARN readers and writers.'),
    'D07': ('effects', 'd07', 200, 'Every file-opening effect of every reader, writer, restructuring and converter (Borealis: 4 versions, 4 file types).'),
    'D08': ('effects', 'd08', 150, 'Every in-place change made by every reader, writer, restructuring and converter; three successive writes of each DMAP writer.'),
    'D09': ('effects', 'd09', 120, 'Every in-place change and rebinding made by every reader, writer, restructuring and converter.'),
    'B01': ('bor_checks', 'b01', 3000, 'Every way in and out of the Borealis records and arrays: facts established about fields, types and record counts (4 versions, 4 file types, 2 structures).'),
    'B02': ('bor_checks', 'b02', 3500, 'Every refusal of Borealis records and arrays by readers and writers: its condition and the fields and records it reports.'),
    'B04': ('bor_memory', 'b04', 900, 'Shape, fill, index and value of every field of the arrays made from an arbitrary record (4 versions, 3 file types), in memory and through the readers.'),
    'B05': ('bor_memory', 'b05', 600, 'Row, slices and type of every field of the record made from an arbitrary row (4 versions, 3 file types), in memory and through the readers.'),
    'B06': ('bor_stream', 'b06', 500, 'Every field the file restructuring writes, for an arbitrary record or row, in both directions (4 versions, 3 file types).'),
    'B09': ('bor_store', 'b09', 2500, 'What every writer stores for every field, with the record names and compression, composed with what every reader makes of it (4 versions, 4 file types, 2 structures).'),
    'B10': ('bor_select', 'b10', 600, 'Version text, version tables, file type and structure selection, fallback and refusals of every Borealis reader, writer, restructuring and converter (4 versions, 4 file types).'),
    'B11': ('bor_fail', 'b11', 500, 'Every operation on data in the restructuring views and file restructuring, with the handlers around it, and every error that leaves them (4 versions, 4 file types).'),
    'C01': ('convert', 'c01', 1200, 'The converted record of an arbitrary record and beam (4 versions, bfiq and rawacf): fields, types, DMAP form, what is written.'),
    'C02': ('convert', 'c02', 380, 'The value of every field of the converted record of an arbitrary record and beam (4 versions, bfiq and rawacf).'),
    'C03': ('convert', 'c03', 100, 'Iteration structure and refusals of the conversion (4 versions, 4 file types, site and array structure).'),
    'C04': ('convert', 'c04', 30, 'Offsets, sizes, samples and correlations of the converted record of an arbitrary record and beam (4 versions, bfiq and rawacf).'),
    'X01': ('errors', 'x01', 1500, 'Every call, attribute, name, raise and message on every path from every public entry point and member (4 versions, 4 file types); name and attribute resolution of the whole package.'),
}
