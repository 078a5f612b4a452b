"""What a converted SDARN record must hold, written down independently of the converter (docs: SuperDARN iqdat and rawacf formats,
Borealis bfiq and rawacf formats v0.4 to v0.7)."""
from datetime import datetime
import numpy as np

STATIONS = {'tst': 0, 'gbr': 1, 'sch': 2, 'kap': 3, 'hal': 4, 'sas': 5, 'pgr': 6, 'kod': 7, 'sto': 8, 'pyk': 9, 'han': 10, 'san': 11, 'sys': 12, 'sye': 13,
            'tig': 14, 'ker': 15, 'ksr': 16, 'unw': 18, 'zho': 19, 'mcm': 20, 'fir': 21, 'sps': 22, 'bpk': 24, 'wal': 32, 'bks': 33, 'hok': 40, 'hkw': 41,
            'inv': 64, 'rkn': 65, 'cly': 66, 'dce': 96, 'svb': 128, 'fhw': 204, 'fhe': 205, 'cvw': 206, 'cve': 207, 'adw': 208, 'ade': 209, 'ekb': 512}


def common(rec, name, i, beam, sid, fn, sf):
    """the fields iqdat and rawacf records share"""
    git = rec['borealis_git_hash']
    if git[0] == 'v':
        version = git.split('-')[0].split('.')
        major, minor = version[0][1:], version[1]
    else:
        major, minor = 255, 255
    t = datetime.utcfromtimestamp(rec['sqn_timestamps'][0])
    return {'radar.revision.major': np.int8(major),
            'radar.revision.minor': np.int8(minor),
            'origin.code': np.int8(100),
            'origin.time': t.strftime('%c'),
            'origin.command': 'Borealis ' + git + ' ' + rec['experiment_name'],
            'cp': np.int16(rec['experiment_id']),
            'stid': np.int16(STATIONS[rec['station']]),
            'time.yr': np.int16(t.year), 'time.mo': np.int16(t.month), 'time.dy': np.int16(t.day), 'time.hr': np.int16(t.hour),
            'time.mt': np.int16(t.minute), 'time.sc': np.int16(t.second), 'time.us': np.int32(t.microsecond),
            'nave': np.int16(rec['num_sequences']),
            'atten': np.int16(0),
            'lagfr': np.int16(rec['first_range_rtt']),                   # microseconds in both
            'smsep': np.int16(1e6 / rec['rx_sample_rate']),              # microseconds from Hz
            'ercod': np.int16(0),
            'noise.search': np.float32(rec['noise_at_freq'][0]),
            'noise.mean': np.float32(0),
            'channel': np.int16(sid),
            'bmnum': np.int16(beam),
            'bmazm': np.float32(rec['beam_azms'][i]),
            'scan': np.int16(rec['scan_start_marker']),
            'offset': np.int16(0),
            'rxrise': np.int16(0),
            'intt.sc': np.int16(np.floor(rec['int_time'])),              # seconds, and the rest in microseconds
            'intt.us': np.int32(np.fmod(rec['int_time'], 1.0) * 1e6),
            'txpl': np.int16(rec['tx_pulse_len']),
            'mpinc': np.int16(rec['tau_spacing']),
            'mppul': np.int16(len(rec['pulses'])),
            'mplgs': np.int16(rec['lags'].shape[0] - 1),                 # the alternate lag zero is not counted
            'frang': np.int16(round(rec['first_range'])),
            'rsep': np.int16(round(rec['range_sep'])),
            'tfreq': np.int16(rec['freq']),
            'mxpwr': np.int32(-1),
            'lvmax': np.int32(20000),
            'combf': 'Converted from Borealis file: ' + fn + ' record ' + str(name) + ' with scaling factor = ' + str(sf) + ' ; Number of beams in record: '
                     + str(len(rec['beam_nums'])) + ' ; ' + rec['experiment_comment'] + ' ; ' + rec['slice_comment'],
            'ptab': rec['pulses'].astype(np.int16),
            'ltab': rec['lags'].astype(np.int16)}


def status(rec):
    """fields of later formats"""
    return {'stat.agc': np.int16(rec['agc_status_word']), 'stat.lopwr': np.int16(rec['lp_status_word'])}


def no_status(rec):
    return {'stat.agc': np.int16(0), 'stat.lopwr': np.int16(0)}


def power_unknown(rec):
    return {'txpow': np.int16(-1)}


def power_known(rec):
    """one bit per transmitting antenna"""
    return {'txpow': np.int16(sum(1 << i for i, x in enumerate(rec['tx_antenna_phases']) if np.abs(x) > 0))}


def iqdat(rec):
    """the other fields of iqdat records, apart from the samples"""
    return {'nrang': np.int16(rec['num_ranges']),
            'xcf': np.int16('intf' in rec['antenna_arrays_order'].astype(str)),
            'iqdata.revision.major': np.int32(1),
            'iqdata.revision.minor': np.int32(0),
            'seqnum': np.int32(rec['num_sequences']),
            'chnnum': np.int32(rec['antenna_arrays_order'].shape[0]),
            'smpnum': np.int32(rec['num_samps']),
            'skpnum': np.int32(rec['first_range'] / rec['range_sep']),
            'tsc': np.array([np.floor(x) for x in rec['sqn_timestamps']], dtype=np.int32),
            'tus': np.array([np.fmod(x, 1.0) * 1e6 for x in rec['sqn_timestamps']], dtype=np.int32),
            'tatten': np.array([0] * rec['num_sequences'], dtype=np.int16),
            'tnoise': rec['noise_at_freq'].astype(np.float32)}


def iqdat_data(rec, i, sf):
    """offsets, sizes and samples: per sequence, per array, real and imaginary parts one after the other"""
    size = 2 * rec['antenna_arrays_order'].shape[0] * rec['num_samps']
    seqs = rec['num_sequences']
    scaled = rec['data'].reshape(rec['data_dimensions']).astype(np.complex64) / rec['data_normalization_factor'] * 32767 * sf
    beam = scaled[:, :, i, :]
    flat = np.array([np.ravel([beam[a, s, :] for a in range(beam.shape[0])]) for s in range(seqs)]).flatten()
    x = np.empty(flat.size * 2, dtype=np.float64)
    x[0::2] = flat.real
    x[1::2] = flat.imag
    x = np.maximum(np.minimum(x, 32767), -32768)
    return {'toff': np.array([k * size for k in range(seqs)], dtype=np.int32),
            'tsze': np.array([size] * seqs, dtype=np.int32),
            'data': np.array(x, dtype=np.int16)}


def rawacf(rec, dims):
    return {'nrang': np.int16(dims[1]),
            'xcf': np.int16('xcfs' in rec),
            'rawacf.revision.major': np.int32(1),
            'rawacf.revision.minor': np.int32(0),
            'thr': np.float32(0)}


def rawacf_data(rec, i, sf, dims):
    """lag-zero power and, per range and lag (without the alternate lag zero), real and imaginary parts"""
    scale = 32767 ** 2 * sf / rec['data_normalization_factor'] ** 2
    main = rec['main_acfs'].reshape(dims).astype(np.complex64) * scale
    cross = rec['xcfs'].reshape(dims).astype(np.complex64) * scale
    return {'pwr0': np.abs(main[i, :, 0]).astype(np.float32),
            'slist': np.array(range(0, dims[1])).astype(np.int16),
            'acfd': pairs(main[i, :, :-1], dims),
            'xcfd': pairs(cross[i, :, :-1], dims)}


def pairs(z, dims):
    z = z.flatten()
    x = np.empty(z.size * 2, dtype=np.float32)
    x[0::2] = z.real
    x[1::2] = z.imag
    return x.reshape(dims[1], dims[2] - 1, 2)


def simple_blanking(rec):
    """the blanked samples are the pulses, each one sample or each one sample and the next"""
    n = rec['pulses'] * int(rec['tau_spacing'] / rec['tx_pulse_len'])
    return np.array_equal(n, rec['blanked_samples']) or np.array_equal(np.sort(np.concatenate((n, n + 1))), rec['blanked_samples'])


def no_phase_offset(rec):
    return np.all(rec['pulse_phase_offset'] == 0)
