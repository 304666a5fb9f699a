""" canonical form of what a loaded log shows through pyulog's public interface, and its comparison """
import numpy as np

from .recorder import NUMPY


def canon_value(value):
    if isinstance(value, (bool, np.bool_)):
        return ['i', int(value)]
    if isinstance(value, (int, np.integer)):
        return ['i', int(value)]
    if isinstance(value, (float, np.floating)):
        value = float(value)
        return ['f', 'nan' if value != value else value.hex()]
    if isinstance(value, str):
        return ['s', value]
    if isinstance(value, (bytes, bytearray, memoryview)):
        return ['b', bytes(value).hex()]
    if isinstance(value, np.ndarray):
        return ['a', str(value.dtype), value.tobytes().hex()]
    if isinstance(value, (list, tuple)):
        return ['l'] + [canon_value(v) for v in value]
    return ['?', type(value).__name__, repr(value)]


def canon_topic(data, fields=True):
    cols = {}
    n = None
    for name, array in data.data.items():
        array = np.asarray(array)
        cols[str(name)] = array
        if n is None:
            n = len(array)
    out = {'id': int(data.msg_id), 'ts': int(data.timestamp_idx), 'n': n or 0,
           'fields': [[f.field_name, f.type_str] for f in data.field_data], 'cols': {}}
    types = dict((f.field_name, f.type_str) for f in data.field_data)
    for name, array in cols.items():
        want = np.dtype('<' + NUMPY[types[name]]) if name in types else None
        if want is not None and array.dtype == want:
            out['cols'][name] = np.ascontiguousarray(array).tobytes().hex()
        else:
            out['cols'][name] = '%s:%s' % (array.dtype, np.ascontiguousarray(array).tobytes().hex())
    return out


def canon(log, datasets=None):
    """ datasets: use these instead of log.data_list """
    out = {'version': None, 'start': int(log.start_timestamp), 'last': int(log.last_timestamp),
           'topics': {}, 'formats': {}, 'info': {}, 'multi': {}, 'initial': {}, 'defaults': {},
           'changed': [], 'text': [], 'tagged': {}, 'dropouts': [], 'corrupt': bool(log.file_corruption)}
    order = []
    for data in (log.data_list if datasets is None else datasets):
        key = '%s/%d' % (data.name, data.multi_id)
        topic = canon_topic(data)
        order.append(key)
        if key in out['topics']:
            old = out['topics'][key]
            old['n'] += topic['n']
            if old['fields'] != topic['fields']:
                old['fields'] = [old['fields'], topic['fields']]
            for name, value in topic['cols'].items():
                old['cols'][name] = old['cols'].get(name, '') + value
        else:
            out['topics'][key] = topic
    out['duplicates'] = sorted(k for k in set(order) if order.count(k) > 1)
    for name, fmt in log.message_formats.items():
        out['formats'][name] = [[t, int(a), n] for t, a, n in fmt.fields]
        if fmt.name != name:
            out['formats'][name] = ['name', fmt.name]
    out['info'] = {k: canon_value(v) for k, v in log.msg_info_dict.items()}
    out['multi'] = {k: [[canon_value(v) for v in l] for l in lists]
                    for k, lists in log.msg_info_multiple_dict.items()}
    out['initial'] = {k: canon_value(v) for k, v in log.initial_parameters.items()}
    for bit in range(8):
        values = log.get_default_parameters(bit)
        if values:
            out['defaults'][str(bit)] = {k: canon_value(v) for k, v in values.items()}
    out['changed'] = [[int(t), k, canon_value(v)] for t, k, v in log.changed_parameters]
    out['text'] = [[int(m.log_level), int(m.timestamp), m.message] for m in log.logged_messages]
    out['tagged'] = {str(int(tag)): [[int(m.log_level), int(m.tag), int(m.timestamp), m.message]
                                     for m in msgs]
                     for tag, msgs in log.logged_messages_tagged.items()}
    out['dropouts'] = [[int(d.timestamp), int(d.duration)] for d in log.dropouts]
    out['compat0'] = bool(log.has_default_parameters)
    return out


def model_view(content):
    """ a model content in the same shape as canon() """
    out = dict(content)
    out['version'] = None
    out['duplicates'] = []
    out['compat0'] = bool(content['compat'][0] & 1)
    del out['compat']
    return out


def diff(want, got, ignore=(), path=''):
    """ first difference as text, or None """
    if isinstance(want, dict) and isinstance(got, dict):
        for key in list(want) + [k for k in got if k not in want]:
            if path == '' and key in ignore:
                continue
            if key not in got:
                return '%s.%s missing (expected %s)' % (path, key, _cut(want[key]))
            if key not in want:
                return '%s.%s unexpected (%s)' % (path, key, _cut(got[key]))
            found = diff(want[key], got[key], (), '%s.%s' % (path, key))
            if found:
                return found
        return None
    if isinstance(want, list) and isinstance(got, list) and path.count('.') < 4 and len(want) == len(got):
        for i, (a, b) in enumerate(zip(want, got)):
            found = diff(a, b, (), '%s[%d]' % (path, i))
            if found:
                return found
        return None
    if want != got or type(want) is not type(got):
        return '%s: expected %s, got %s' % (path, _cut(want), _cut(got))
    return None


def _cut(value):
    text = repr(value)
    return text if len(text) < 160 else text[:120] + '...(%d)' % len(text)
