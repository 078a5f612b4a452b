"""What a SuperDARN record must satisfy, written down independently of the code that checks it."""


def extra(record, fields):
    """the fields of a record that no group of its file type has"""
    return set(record.keys()) - set(fields)


def lacking(record, group):
    """the fields of a group that a record does not have"""
    return set(group) - set(record.keys())


def wrong(record, types):
    """the fields whose stored type differs from the published one"""
    return {field: types[field] for field in record.keys() if record[field].data_type_fmt != types[field]}
