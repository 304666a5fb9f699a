"""
The simulated autopilot: publishers and a logger that produce a recording, and an independent model of
what such a recording contains.  Nothing of pyulog is used here.

A recording is plain JSON:
  {"version": 0|1, "start": us, "flags": null | [compat8, incompat8], "defs": [msg...], "data": [msg...]}
messages:
  ["F", name, [[type, array, field], ...]]     ["I", type, key, hex]      ["M", cont, type, key, hex]
  ["P", type, key, hex]  ["Q", bits, type, key, hex]  ["A", multi, id, name]  ["R", id]  ["D", id, hex]
  ["L", level, ts, hex]  ["C", level, tag, ts, hex]   ["O", ms]  ["S"]  ["U", type, hex]
"""
import heapq
import struct

MAGIC = bytes([0x55, 0x4c, 0x6f, 0x67, 0x01, 0x12, 0x35])
SYNC = bytes([0x2F, 0x73, 0x13, 0x20, 0x25, 0x0C, 0xBB, 0x12])
WIDTH = {'int8_t': 1, 'uint8_t': 1, 'int16_t': 2, 'uint16_t': 2, 'int32_t': 4, 'uint32_t': 4,
         'int64_t': 8, 'uint64_t': 8, 'float': 4, 'double': 8, 'bool': 1, 'char': 1}
CODE = {'int8_t': 'b', 'uint8_t': 'B', 'int16_t': 'h', 'uint16_t': 'H', 'int32_t': 'i', 'uint32_t': 'I',
        'int64_t': 'q', 'uint64_t': 'Q', 'float': 'f', 'double': 'd', 'bool': '?', 'char': 'c'}
NUMPY = {'int8_t': 'i1', 'uint8_t': 'u1', 'int16_t': 'i2', 'uint16_t': 'u2', 'int32_t': 'i4',
         'uint32_t': 'u4', 'int64_t': 'i8', 'uint64_t': 'u8', 'float': 'f4', 'double': 'f8',
         'bool': 'i1', 'char': 'i1'}


# ---------------------------------------------------------------------------------------------- encode
def encode_msg(m):
    kind = m[0]
    if kind == 'F':
        text = m[1] + ':' + ''.join(
            ('%s[%d] %s;' % (t, a, n)) if a else ('%s %s;' % (t, n)) for t, a, n in m[2])
        body = text.encode()
    elif kind in ('I', 'P'):
        key = (m[1] + ' ' + m[2]).encode()
        body = bytes([len(key)]) + key + bytes.fromhex(m[3])
    elif kind in ('M', 'Q'):
        key = (m[2] + ' ' + m[3]).encode()
        body = bytes([m[1], len(key)]) + key + bytes.fromhex(m[4])
    elif kind == 'A':
        body = struct.pack('<BH', m[1], m[2]) + m[3].encode()
    elif kind == 'R':
        body = struct.pack('<H', m[1])
    elif kind == 'D':
        body = struct.pack('<H', m[1]) + bytes.fromhex(m[2])
    elif kind == 'L':
        body = struct.pack('<BQ', m[1], m[2]) + bytes.fromhex(m[3])
    elif kind == 'C':
        body = struct.pack('<BHQ', m[1], m[2], m[3]) + bytes.fromhex(m[4])
    elif kind == 'O':
        body = struct.pack('<H', m[1])
    elif kind == 'S':
        body = SYNC
    elif kind == 'U':
        return struct.pack('<HB', len(m[2]) // 2, m[1]) + bytes.fromhex(m[2])
    else:
        raise ValueError(kind)
    if len(body) > 0xffff:
        raise ValueError('message too long')
    return struct.pack('<HB', len(body), ord(kind)) + body


def encode(rec, offsets=()):
    """ -> (bytes, ends): ends[i] is the file offset just after message i of defs+data """
    out = bytearray(MAGIC + bytes([rec['version']]) + struct.pack('<Q', rec['start']))
    if rec.get('flags'):
        compat, incompat = rec['flags']
        offs = list(offsets) + [0] * (3 - len(offsets))
        out += struct.pack('<HB', 40, ord('B')) + bytes(compat) + bytes(incompat) + struct.pack('<3Q', *offs)
    ends = []
    for m in rec['defs'] + rec['data']:
        out += encode_msg(m)
        ends.append(len(out))
    return bytes(out), ends


# ----------------------------------------------------------------------------------------------- decode
def decode(raw):
    """
    A strict reader of whole logs, for what pyulog wrote: every byte belongs to a message of a known kind, in a
    place where it is allowed.  -> recording, or ValueError
    """
    if len(raw) < 16 or raw[:7] != MAGIC:
        raise ValueError('no file header')
    rec = {'version': raw[7], 'start': struct.unpack('<Q', raw[8:16])[0], 'flags': None, 'defs': [], 'data': []}
    formats, sizes = {}, {}
    pos, in_data = 16, False
    while pos < len(raw):
        if pos + 3 > len(raw):
            raise ValueError('%d bytes behind the last message' % (len(raw) - pos))
        size, kind = struct.unpack('<HB', raw[pos:pos + 3])
        kind = chr(kind)
        body = raw[pos + 3:pos + 3 + size]
        if len(body) < size:
            raise ValueError('the message %s at %d is not complete' % (kind, pos))
        where = 'message %s at %d' % (kind, pos)
        if kind == 'B':
            if pos != 16 or size != 40:
                raise ValueError(where)
            rec['flags'] = [list(body[:8]), list(body[8:16])]
            if any(body[16:]) or body[8] & 1:
                raise ValueError('%s announces appended data' % where)
            pos += 43
            continue
        in_data = in_data or kind in 'ALC'
        if kind == 'F':
            name, _, fields = body.decode().partition(':')
            if in_data or name in formats or not fields.endswith(';'):
                raise ValueError(where)
            formats[name] = []
            for field in fields[:-1].split(';'):
                ftype, fname = field.split(' ')
                ftype, _, array = ftype.partition('[')
                if array and (array[-1] != ']' or int(array[:-1]) < 1):
                    raise ValueError('%s: field %r' % (where, field))
                formats[name].append((ftype, int(array[:-1]) if array else 0, fname))
            m = ['F', name, [list(f) for f in formats[name]]]
        elif kind in 'IPMQ':
            lead = list(body[:1]) if kind in 'MQ' else []
            rest = body[len(lead):]
            ftype, name = rest[1:1 + rest[0]].decode().split(' ')
            value = rest[1 + rest[0]:]
            if len(ftype) + len(name.encode()) + 1 != rest[0]:
                raise ValueError('%s: length of the key' % where)
            if kind in 'PQ' and ftype not in ('int32_t', 'float') or ftype in WIDTH and len(value) != WIDTH[ftype]:
                raise ValueError('%s: %s of %d bytes' % (where, ftype, len(value)))
            if kind == 'M' and lead[0] > 1:
                raise ValueError('%s: continuation flag %d' % (where, lead[0]))
            m = [kind] + lead + [ftype, name, value.hex()]
        elif kind == 'A':
            multi, mid = struct.unpack('<BH', body[:3])
            name = body[3:].decode()
            if mid in sizes:
                raise ValueError('%s: id %d announced twice' % (where, mid))
            fields, keep = flatten(formats, name)
            sizes[mid] = (sum(WIDTH[t] for _, t in fields[:keep]), sum(WIDTH[t] for _, t in fields))
            m = ['A', multi, mid, name]
        elif kind == 'D':
            mid, = struct.unpack('<H', body[:2])
            if mid not in sizes:
                raise ValueError('%s: id %d is not announced' % (where, mid))
            if not sizes[mid][0] <= size - 2 <= sizes[mid][1]:
                raise ValueError('%s: %d bytes, the format has %d..%d' % ((where, size - 2) + sizes[mid]))
            m = ['D', mid, body[2:].hex()]
        elif kind == 'L':
            m = ['L'] + list(struct.unpack('<BQ', body[:9])) + [body[9:].hex()]
        elif kind == 'C':
            m = ['C'] + list(struct.unpack('<BHQ', body[:11])) + [body[11:].hex()]
        elif kind == 'O':
            m = ['O', struct.unpack('<H', body)[0]]
        elif kind == 'S' and body == SYNC:
            m = ['S']
        else:
            raise ValueError('%s is of an unknown kind' % where)
        if not in_data and kind in 'DOS':
            raise ValueError('%s before the data section' % where)
        rec['data' if in_data else 'defs'].append(m)
        pos += 3 + size
    return rec


# ----------------------------------------------------------------------------------------------- model
def scalar(type_name, raw):
    """ canonical form of a scalar: ints as int, floats by bit pattern """
    if type_name == 'float':
        return ['f', struct.unpack('<d', struct.pack('<d', struct.unpack('<f', raw)[0]))[0].hex()
                if not _isnan(raw, 4) else 'nan']
    if type_name == 'double':
        return ['f', struct.unpack('<d', raw)[0].hex() if not _isnan(raw, 8) else 'nan']
    if type_name == 'char':
        return ['b', raw.hex()]
    value, = struct.unpack('<' + CODE[type_name], raw)
    return ['i', int(value)]


def _isnan(raw, width):
    value, = struct.unpack('<f' if width == 4 else '<d', raw)
    return value != value


def text(raw):
    return raw.decode('utf-8', 'ignore')


def info_value(type_name, raw):
    if type_name.startswith('char['):
        return ['s', text(raw)]
    if type_name in WIDTH:
        return scalar(type_name, raw)
    return ['b', raw.hex()]


def flatten(formats, name):
    """ list of (field, type) of a topic including trailing padding, and number without it """
    out = []

    def walk(prefix, type_name):
        for ftype, array, fname in formats[type_name]:
            names = ['%s%s[%d]' % (prefix, fname, i) for i in range(array)] if array else [prefix + fname]
            for n in names:
                if ftype in WIDTH:
                    out.append((n, ftype))
                else:
                    walk(n + '.', ftype)
    walk('', name)
    keep = len(out)
    while keep and out[keep - 1][0].startswith('_padding'):
        keep -= 1
    return out, keep


def empty_content(rec):
    flags = rec.get('flags') or [[0] * 8, [0] * 8]
    return {'version': rec['version'], 'start': rec['start'], 'last': rec['start'],
            'compat': list(flags[0]), 'topics': {}, 'formats': {}, 'info': {}, 'multi': {},
            'initial': {}, 'defaults': {}, 'changed': [], 'text': [], 'tagged': {}, 'dropouts': [],
            'corrupt': False}


def fold(rec, msgs=None, names=None, state=None):
    """
    What the messages mean.  `msgs` defaults to all of the recording; definitions and data are told
    apart by the first A, L or C.  `names`: only these topics.  `state` continues a fold.
    """
    if state is None:
        state = {'content': empty_content(rec), 'formats': {}, 'subs': {}, 'in_data': False}
    content = state['content']
    formats = state['formats']
    subs = state['subs']
    if msgs is None:
        msgs = rec['defs'] + rec['data']
    for m in msgs:
        kind = m[0]
        if kind in 'ALC':
            state['in_data'] = True
        if kind == 'F':
            formats[m[1]] = m[2]
            content['formats'][m[1]] = [[t, a, n] for t, a, n in m[2]]
        elif kind == 'I':
            content['info'][m[2]] = info_value(m[1], bytes.fromhex(m[3]))
        elif kind == 'M':
            value = info_value(m[2], bytes.fromhex(m[4]))
            lists = content['multi'].setdefault(m[3], [])
            if m[1] and lists:
                lists[-1].append(value)
            else:
                lists.append([value])
        elif kind == 'P':
            value = info_value(m[1], bytes.fromhex(m[3]))
            if state['in_data']:
                content['changed'].append([content['last'], m[2], value])
            else:
                content['initial'][m[2]] = value
        elif kind == 'Q':
            for bit in range(8):
                if m[1] >> bit & 1:
                    content['defaults'].setdefault(str(bit), {})[m[3]] = \
                        info_value(m[2], bytes.fromhex(m[4]))
        elif kind == 'A':
            fields, keep = flatten(formats, m[3])
            offset = 0
            layout = []
            ts = None
            for fname, ftype in fields[:keep]:
                if fname == 'timestamp':
                    ts = offset
                layout.append((fname, ftype, offset, WIDTH[ftype]))
                offset += WIDTH[ftype]
            subs[m[2]] = (m[1], m[3], layout, ts, offset)
        elif kind == 'D':
            if m[1] not in subs:
                continue        # its subscription was lost in a crash
            multi, name, layout, ts, size = subs[m[1]]
            if names is not None and name not in names:
                continue
            raw = bytes.fromhex(m[2])[:size]
            key = '%s/%d' % (name, multi)
            topic = content['topics'].get(key)
            if topic is None:
                topic = content['topics'][key] = {
                    'id': m[1], 'fields': [[n, t] for n, t, _, _ in layout],
                    'ts': [n for n, _, _, _ in layout].index('timestamp'),
                    'n': 0, 'cols': {n: '' for n, _, _, _ in layout}}
            topic['n'] += 1
            for fname, _, off, width in layout:
                topic['cols'][fname] += raw[off:off + width].hex()
            stamp, = struct.unpack('<Q', raw[ts:ts + 8])
            content['last'] = max(content['last'], stamp)
        elif kind == 'L':
            content['text'].append([m[1], m[2], text(bytes.fromhex(m[3]))])
        elif kind == 'C':
            content['tagged'].setdefault(str(m[2]), []).append(
                [m[1], m[2], m[3], text(bytes.fromhex(m[4]))])
        elif kind == 'O':
            content['dropouts'].append([content['last'], m[1]])
    return state


def expected(rec, names=None):
    return fold(rec, names=names)['content']


# ------------------------------------------------------------------------------------------- generator
WORDS = ['gyro', 'accel', 'mag', 'baro', 'status', 'rates', 'battery', 'esc', 'wind', 'pose', 'cmd', 'est']
FIELDS = ['x', 'y', 'z', 'temp', 'q', 'volt', 'err', 'cnt', 'flags', 'state', 'raw', 'dev', 'name', 'k',
          'timestamp_sample', 'time', 'id', '_state', 'Yaw', 'padding', '_']
UTF8 = ['', 'a', 'ok', '[cmd] takeoff', 'ünïcode', '日本', 'tab\t', 'x' * 70, 'low "bat"', "it's", 'a,b', '\U0001F681',
        'trail ', '0', 'two\nlines', 'nul\x00in', '\r', 'nan', '-inf', '12', '1e5', "{'a': \"b\"}", '%s {0} \\n',
        'end\x00', 'padded\x00\x00\x00', 'end\n', '\x00', '\n', '\x00lead', '  lead', '\ufeffmark', 'x\r\n', 'e\u0301', '\x1f']


def float_bits(rng, width):
    pick = rng.randrange(8)
    fmt = '<f' if width == 4 else '<d'
    special = [0.0, -0.0, float('inf'), float('-inf'), float('nan'), 1.5]
    if pick < 3:
        return struct.pack(fmt, rng.choice(special))
    if pick == 3:
        return struct.pack(fmt, rng.choice([1e-40, 3.4e38, -1e-45, 0.1, 1 / 3]))
    return struct.pack(fmt, rng.uniform(-1e4, 1e4))


def random_value(rng, type_name):
    width = WIDTH[type_name]
    if type_name in ('float', 'double'):
        return float_bits(rng, width)
    if type_name == 'bool':
        return bytes([rng.randrange(2) if rng.random() < 0.95 else rng.randrange(256)])
    if type_name == 'char':
        return bytes([rng.choice([0, 65, 97, 48, 0x7f, 0x80, 0xff, rng.randrange(256)])])
    pick = rng.randrange(4)
    if pick == 0:
        return bytes(width)
    if pick == 1:
        return b'\xff' * width
    if pick == 2:
        return b'\x00' * (width - 1) + b'\x80'
    return rng.randbytes(width)


def random_text(rng, opts):
    if opts.get('invalid') and rng.random() < opts['invalid']:
        return b'bad' + rng.choice([b'\xff', b'\xc3', b'\x80\xfe', b'\xed\xa0\x80']) + b'end'
    if opts.get('ascii'):
        return rng.choice(['msg', 'takeoff', 'landed', 'low battery', 'x']).encode()
    value = rng.choice(UTF8)
    if rng.random() < 0.5:
        value += str(rng.randrange(1000))
    return value.encode()


def random_format(rng, nested, name, opts):
    fields = []
    used = set()
    for _ in range(rng.choice([1, 1, 2, 3, 5, opts.get('max_fields', 8)])):
        fname = rng.choice(FIELDS) + rng.choice(['', '', '1', '_2'])
        if fname in used:
            continue
        used.add(fname)
        pick = rng.random()
        if nested and pick < 0.3:
            fields.append([rng.choice(nested), rng.choice([0, 0, 2, 3]), fname])
        else:
            ftype = rng.choice(sorted(WIDTH))
            fields.append([ftype, rng.choice([0, 0, 0, 1, 2, 4, 11] if ftype != 'char' else [0, 1, 4, 16]), fname])
    if rng.random() < 0.2:
        fields.insert(rng.randrange(len(fields) + 1), ['uint8_t', rng.choice([0, 3]), '_padding0'])
    return fields


def random_info(rng, opts):
    pick = rng.randrange(10)
    if pick < 4:
        value = random_text(rng, opts)
        return 'char[%d]' % len(value), value
    if pick < 7:
        ftype = rng.choice(['int32_t', 'uint32_t', 'uint8_t', 'int64_t', 'float', 'uint16_t', 'double', 'bool', 'int8_t', 'int16_t']
                           + ([] if opts.get('db') else ['uint64_t', 'char']))
        value = random_value(rng, ftype)
        return ftype, value
    if pick < 9:
        value = rng.randbytes(rng.choice([0, 1, 7, 32]))
        return 'uint8_t[%d]' % len(value), value
    ftype = rng.choice(['float', 'int32_t', 'uint16_t', 'double'])
    count = rng.choice([1, 2, 3])
    return '%s[%d]' % (ftype, count), b''.join(random_value(rng, ftype) for _ in range(count))


def random_param(rng):
    if rng.random() < 0.5:
        return 'int32_t', struct.pack('<i', rng.choice([0, 1, -1, 7, 2**31 - 1, -2**31, rng.randrange(10000)]))
    return 'float', struct.pack('<f', rng.choice([0.0, -0.0, 0.5, 1e-9, 3e38, 0.1, rng.uniform(-100, 100),
                                                  float('nan'), float('inf')][:7 if rng.random() < .8 else 9]))


def sample_payload(rng, layout, stamp, extra_padding=True):
    """ layout: (fields incl. padding, keep) """
    fields, keep = layout
    out = bytearray()
    for i, (fname, ftype) in enumerate(fields):
        if i >= keep:
            break
        if fname == 'timestamp':
            out += struct.pack('<Q', stamp)
        else:
            out += random_value(rng, ftype)
    pad = sum(WIDTH[t] for _, t in fields[keep:])
    if pad and extra_padding:
        out += bytes(rng.choice([0, pad, pad]) if rng.random() < .9 else rng.randrange(pad + 1))
    return bytes(out)


def generate(rng, opts=None):
    """ one recording: discrete-event simulation of publishers and of the logger's queue """
    opts = opts or {}
    rec = {'version': rng.choice([1, 1, 1, 0]), 'start': rng.choice([0, 1, 112500176, 10**9, 1700000000 * 10**6 + rng.randrange(10**7), rng.randrange(1 << 40)]),
           'flags': None, 'defs': [], 'data': []}
    if rec['version'] == 1 or rng.random() < 0.3:
        compat = [0] * 8
        compat[0] = rng.choice([0, 1, 1])
        if rng.random() < 0.2:
            compat[rng.randrange(1, 8)] = rng.randrange(256)
        rec['flags'] = [compat, [0] * 8]
    if opts.get('append'):
        rec['version'] = 1
        rec['flags'] = rec['flags'] or [[0] * 8, [0] * 8]
    formats = {}
    nested = []
    for i in range(rng.choice([0, 1, 2])):
        name = 'nested%d' % i
        formats[name] = random_format(rng, list(nested), name, opts)
        if rng.random() < 0.3:
            formats[name].insert(rng.randrange(len(formats[name]) + 1), ['uint64_t', 0, 'timestamp'])
        nested.append(name)
    topics = []
    for i in range(rng.randrange(1, opts.get('topics', 5) + 1)):
        name = rng.choice(WORDS) + rng.choice(['', '_out', str(i)])
        if rng.random() < 0.1:
            name = rng.choice(['ns/', 'ns/', 'ns/sub/']) + name
        if topics and rng.random() < 0.15:
            # names that begin with another name
            name = rng.choice(topics) + rng.choice(['0', '1', '10', '_', 's', '_1'])
        if name in formats:
            continue
        fields = random_format(rng, nested, name, opts)
        if rng.random() < 0.04:
            fields = []         # nothing but the time stamp
        fields.insert(rng.choice([0, 0, rng.randrange(len(fields) + 1)]), ['uint64_t', 0, 'timestamp'])
        if rng.random() < 0.3 and not fields[-1][2].startswith('_padding'):
            fields.append(['uint8_t', rng.choice([1, 4, 6]), '_padding%d' % rng.randrange(2)])
        formats[name] = fields
        topics.append(name)
    many = 3 if opts.get('modest') else 99      # with `modest` only the first of the sizes below
    large = rng.choice(['text', 'wide', 'streams', 'samples', 'info', 'parts', 'names', 'stamps']) \
        if rng.random() < opts.get('large', 0.03) else None
    if large == 'stamps':
        rec['start'] = rng.choice([2 ** 32 - 5, 2 ** 53 - 10 ** 12, 2 ** 49, 2 ** 31 - 1])
    if rng.random() < opts.get('huge_stamps', 0):
        rec['start'] = rng.choice([2 ** 53 - 500, 2 ** 63 - 10 ** 6, 2 ** 63, 2 ** 64 - 10 ** 13])
    if large == 'wide':
        formats['wide'] = [['uint64_t', 0, 'timestamp'], ['uint8_t', rng.choice([100, 255, 256, 300][:many - 2]), 'w'], ['int16_t', 0, 'end']]
        topics.append('wide')
    if large == 'names':
        name = 'a_rather_long_topic_name_' + 'x' * rng.choice([10, 40, 120, 200])
        formats[name] = [['uint64_t', 0, 'timestamp'], ['float', 0, 'a_rather_long_field_name_' + 'y' * rng.choice([10, 60, 200])]]
        topics.append(name)
        long_key = 'a_rather_long_key_' + 'z' * rng.choice([10, 90, 109, 110, 180, 225])
    for special in opts.get('special', ()):
        name, fields = special['name'], special['fields']
        formats[name] = fields
        topics.append(name)
    defs = [['F', n, f] for n, f in formats.items()]
    rng.shuffle(defs)
    keys = ['ver_sw', 'sys_name', 'ver_hw', 'sys_uuid', 'replay', 'time_ref_utc', 'ver_sw_release', 'sys_os', 'k']
    rng.shuffle(keys)
    for key in keys[:rng.randrange(len(keys))]:
        itype, value = random_info(rng, opts)
        if key == 'sys_name':
            itype, value = 'char[3]', b'PX4'
        elif key == 'ver_sw_release':
            itype, value = 'uint32_t', struct.pack('<I', rng.getrandbits(32))
            if rng.random() < 0.6:
                # around the limits between development, alpha, beta, candidate and release
                value = bytes([rng.choice([0, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255])]) + value[1:]
            elif rng.random() < 0.25:
                value = bytes(4)
        defs.insert(rng.randrange(len(defs) + 1), ['I', itype, key, value.hex()])
    mkeys = {}

    def multi_info():
        key = rng.choice(['perf', 'boot_log', 'metadata'])
        if key not in mkeys:
            mkeys[key] = random_info(rng, opts)[0]
        itype = mkeys[key]
        base = itype.split('[')[0]
        if itype.startswith('char['):
            value = random_text(rng, opts)
        elif '[' in itype:
            value = b''.join(random_value(rng, base) for _ in range(rng.choice([1, 2])))
        else:
            value = random_value(rng, itype)
        cont = 1 if rng.random() < 0.5 and key in started else 0
        started.add(key)
        return ['M', cont, itype, key, value.hex()]
    started = set()
    for _ in range(rng.choice([0, 0, 2, 5]) if large != 'parts' else rng.choice([40, 100, 300][:many - 2])):
        defs.append(multi_info())
    if large == 'info':
        value = (b'0123456789' * 6500)[:rng.choice([255, 256, 1000, 4096, 10001, 40000, 65000][:many])]
        defs.append(['I', 'char[%d]' % len(value), 'large', value.hex()])
        value = rng.randbytes(rng.choice([256, 5000, 65000][:many - 2]))
        defs.append(['M', 0, 'uint8_t[%d]' % len(value), 'large_part', value.hex()])
    params = ['SYS_A', 'MC_P', 'MC_I', 'BAT_N', 'COM_X', 'RC_MAP', 'a_b']
    rng.shuffle(params)
    ptype = {}
    for name in params[:rng.randrange(len(params) + 1)]:
        ftype, value = random_param(rng)
        ptype[name] = ftype
        defs.append(['P', ftype, name, value.hex()])
        if rec['flags'] and rec['flags'][0][0] & 1 and rng.random() < 0.5:
            dtype, dvalue = random_param(rng)
            defs.append(['Q', rng.choice([1, 2, 3, 1, 2, 3, 1, 2, 3, 4, 128, 131, 254]), dtype, name, dvalue.hex()])
    if opts.get('unknown', True) and rng.random() < 0.2:
        defs.append(unknown_msg(rng, opts))
    if large == 'names':
        defs.append(['I', 'char[5]', long_key, b'value'.hex()])
        defs.append(['M', 0, 'int32_t', long_key + '_m', '01000000'])
        defs.append(['P', 'float', long_key, '0000803f'])
        params.append(long_key)
        if rec['flags'] and rec['flags'][0][0] & 1:
            defs.append(['Q', 3, 'float', long_key, '00000040'])
    rec['defs'] = defs

    # data: every stream is a process on a common queue of (time of being written, tie, message maker)
    layouts = {n: flatten(formats, n) for n in topics}
    ids = rng.sample(range(0, 40), min(len(topics) * 3, 30)) if rng.random() < 0.5 else \
        rng.sample(range(0, 65536), len(topics) * 3)
    queue = []
    tie = 0

    def push(at, msg):
        nonlocal tie
        tie += 1
        heapq.heappush(queue, (at, tie, msg))
    start = rec['start']
    total = rng.choice([3, 8, 15, 30, opts.get('msgs', 45)])
    span = rng.choice([1000, 50000, 2000000, 20000000])
    if opts.get('long') and rng.random() < 0.5:
        span = rng.choice([10 ** 8, 4 * 10 ** 9, 10 ** 11])
    streams = []
    if large == 'samples':
        total = rng.choice([150, 600, 1500][:many - 2])
    if large == 'streams':
        ids = rng.sample(range(0, 65536), 400)
        for multi in range(rng.choice([20, 130, 256][:many - 2])):
            streams.append((topics[0], multi, ids.pop()))
    for name in topics:
        if large == 'streams' and name == topics[0]:
            continue
        instances = rng.choice([1, 1, 1, 2, 3])
        multis = sorted(rng.sample(range(0, 6), instances)) if rng.random() < 0.2 else list(range(instances))
        if rng.random() < 0.08:
            multis = sorted(rng.sample([0, 1, 9, 10, 11, 100, 255], instances))
        for digits in ('1', '10', '2'):
            # name and instance written next to each other look like those of another topic
            if name + digits in formats and rng.random() < 0.6:
                multis = sorted(set(multis[:-1]) | {int(digits + '0')})
        for multi in multis:
            streams.append((name, multi, ids.pop()))
    rng.shuffle(streams)
    for name, multi, mid in streams:
        late = rng.random() < 0.25
        begin = start + (rng.randrange(span) if late else 0)
        push(begin if late else start - 1, ['A', multi, mid, name])
        count = rng.choice([0, 1, 2, max(1, total // max(1, len(streams))), total // 2])
        special = next((s for s in opts.get('special', ()) if s['name'] == name), None)
        at = begin
        if special is not None:
            count = max(count, special.get('min', 1))
            for stamp, payload in special['make'](rng, begin, count, multi):
                push(max(begin, stamp) + 1, ['D', mid, payload.hex()])
            continue
        step = max(1, span // max(1, count))
        written = at
        for _ in range(count):
            at += rng.choice([0, 1, step, step, rng.randrange(1, step + 1)])
            stamp = at
            if opts.get('nonmono') and rng.random() < 0.1:
                stamp = max(0, at - rng.randrange(1, 1000))
            if rng.random() < opts.get('zero_stamps', 0):
                stamp = 0
            # the logger's queue keeps the order within one topic instance but not between them
            delay = 0 if opts.get('ordered') else rng.choice([0, 0, rng.randrange(1, step + 1)])
            written = max(written, at + delay)
            push(written, ['D', mid, sample_payload(rng, layouts[name], stamp).hex()])
    extra = rng.choice([0, 2, 5, 10])
    levels = list(b'01234567') + [6] + ([0, 127, 128, 255] if rng.random() < 0.1 else [])
    if opts.get('few_extra'):
        extra = rng.choice([0, 1, 2])
    at = start
    for _ in range(extra):
        if rng.random() < 0.75:
            at = start + rng.randrange(span)    # else at the same time as the previous one
        pick = rng.randrange(12)
        if pick < 3:
            push(at, ['L', rng.choice(levels), at, random_text(rng, opts).hex()])
        elif pick < 5:
            push(at, ['C', rng.choice(levels), rng.choice([0, 1, 2, 65535]), at,
                      random_text(rng, opts).hex()])
        elif pick < 7 and params:
            name = rng.choice(params)
            ftype, value = random_param(rng)
            push(at, ['P', ftype, name, value.hex()])
        elif pick == 7:
            push(at, ['O', rng.choice([0, 1, 20, 65535])])
            if rng.random() < 0.5:
                push(at, ['S'])
        elif pick == 8:
            itype, value = random_info(rng, opts)
            push(at, ['I', itype, rng.choice(['late', 'perf_top']), value.hex()])
        elif pick == 9:
            push(at, ('late-M',))
        elif pick == 10 and opts.get('unknown', True):
            push(at, unknown_msg(rng, opts))
        elif pick == 11 and rec['flags'] and rec['flags'][0][0] & 1 and params:
            ftype, value = random_param(rng)
            push(at, ['Q', rng.choice([1, 2, 1, 2, 1, 2, 3, 8, 192]), ftype, rng.choice(params), value.hex()])
        else:
            push(at, ['S'])
    if large == 'text':
        value = (b'abc defgh ' * 6500)[:rng.choice([255, 256, 1000, 4096, 10001, 65000][:many])]
        at = start + rng.randrange(span)
        if rng.random() < 0.7:
            push(at, ['L', 54, at, value.hex()])
        else:
            push(at, ['C', 54, 1, at, value.hex()])
    if opts.get('boot_text'):
        # from before the clock was running, or as large as the fields allow
        for _ in range(rng.choice([1, 2])):
            stamp = rng.choice([0, 0, 0, 1, 2**31, 2**53 - 1])
            if rng.random() < 0.5:
                push(start + 1, ['L', 54, stamp, random_text(rng, opts).hex()])
            else:
                push(start + 1, ['C', 54, rng.choice([0, 3]), stamp, random_text(rng, opts).hex()])
        push(start, ['O', rng.choice([0, 65535])])
    if rng.random() < opts.get('sync', 0.6):
        every = rng.choice([1, span // 3 + 1, span // 8 + 1])
        at = start + 1
        for _ in range(6):
            push(at, ['S'])
            at += every
    data = []
    while queue:
        _, _, msg = heapq.heappop(queue)
        if msg[0] == 'late-M':
            msg = multi_info()
        data.append(list(msg))
    if rng.random() < 0.1 and streams:
        data.append(['R', rng.choice(streams)[2]])
    rec['data'] = tidy(rec, data, opts)
    return rec


def unknown_msg(rng, opts):
    size = rng.choice([1, 2, 7, 8, 9, 40, 300])
    if not opts.get('modest') and rng.random() < 0.05:
        size = rng.choice([1000, 5000, 10000])      # from 10001 on it counts as damage
    body = rng.randbytes(size)
    body = body.replace(SYNC, bytes(8))
    return ['U', rng.choice(list(b'XYZz\x01\xfe')), body.hex()]


def tidy(rec, data, opts=None):
    """ make the data section well-formed: A before D, formats known, data section starts with A, L or C """
    formats = {m[1] for m in rec['defs'] if m[0] == 'F'}
    seen = set()
    out = []
    lead = []
    for m in data:
        if m[0] == 'A':
            if m[3] not in formats:
                continue
            seen.add(m[2])
        elif m[0] == 'D' and m[1] not in seen:
            continue
        out.append(m)
    for i, m in enumerate(out):
        if m[0] in 'ALC':
            if i:
                out = [m] + out[:i] + out[i + 1:]
            break
    else:
        out = lead + [m for m in out if m[0] in 'S']
    return out


def needed_formats(rec, name):
    formats = {m[1]: m[2] for m in rec['defs'] if m[0] == 'F'}
    todo, seen = [name], set()
    while todo:
        n = todo.pop()
        if n in seen or n not in formats:
            continue
        seen.add(n)
        todo.extend(t for t, _, _ in formats[n] if t not in WIDTH)
    return seen


def usable_formats(msgs):
    """ names of the formats in msgs whose nested formats are there as well """
    formats = {m[1]: m[2] for m in msgs if m[0] == 'F'}

    def ok(name, depth=0):
        return name in formats and depth < 8 and \
            all(t in WIDTH or ok(t, depth + 1) for t, _, _ in formats[name])
    return {name for name in formats if ok(name)}


def normalize(rec):
    """ after shrinking: drop what no longer makes sense; None if nothing useful is left """
    ok = usable_formats(rec['defs'])
    rec = dict(rec)
    data = [m for m in rec['data'] if m[0] != 'A' or m[3] in ok]
    rec['data'] = tidy(rec, data)
    cont = set()
    for part in ('defs', 'data'):
        fixed = []
        for m in rec[part]:
            if m[0] == 'M':
                if m[1] and m[3] not in cont:
                    m = ['M', 0] + m[2:]
                cont.add(m[3])
            fixed.append(m)
        rec[part] = fixed
    return rec
