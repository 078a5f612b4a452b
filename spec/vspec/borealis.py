"""What a Borealis record or array set must satisfy, written down independently of the code that checks it."""
import numpy as np


def extra(record, fields):
    """the fields outside the format"""
    return set(record) - set(fields)


def lacking(record, fields):
    """the fields of the format that are absent"""
    return set(fields) - set(record)


def wrong_single(record, field, t):
    """not a single value of the given type (an empty HDF5 value has no type)"""
    return type(record[field]) != t and getattr(record[field], 'shape', ()) is not None


def wrong_array(record, field, t):
    return not isinstance(record[field], np.ndarray) or record[field].dtype.type != t


def wrong_array_or_text(record, field, t):
    return not isinstance(record[field], np.ndarray) or (record[field].dtype.type != t and record[field].dtype.type != np.str_)


def is_array(record, field):
    return isinstance(record[field], np.ndarray)


def old_offsets(record):
    """files written by early versions of the software hold a placeholder of two integers"""
    return record['pulse_phase_offset'].dtype.type == np.int64 and record['pulse_phase_offset'].shape == (2,)
