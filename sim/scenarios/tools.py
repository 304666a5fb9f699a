""" X01-X06: the command line tools """
import csv
import io
import json
import os
import struct
import sys
import xml.etree.ElementTree as ET

from .. import content as C
from .. import recorder as R
from .. import simio
from ..core import SimKilled, SimStuck, Violation
from .base import Scenario, outcome, read_file, shrink_recording, write_file
from .loads import ULog, complete_part

TOOL_STUB = ['raw file layer and standard output (simulated: partial writes, errors, full disk)',
             'flight logger and publishers (simulated)']
WRITE_FAULTS = ['eio_write', 'eio_write', 'enospc', 'enospc', 'eio_close', 'eio_open', 'short_write', 'eintr', 'eio_read']


def number(code, raw):
    return struct.unpack('<%d%s' % (len(raw) // struct.calcsize('<' + code), code), raw)


def columns(topic):
    """ {field: list of values}, floats as the bit patterns' values """
    out = {}
    for name, ftype in topic['fields']:
        code = R.CODE[ftype] if ftype not in ('char', 'bool') else 'b'
        out[name] = number(code, bytes.fromhex(topic['cols'][name]))
    return out


def same_number(ftype, value, text):
    """ does the text denote exactly this value of this type? """
    try:
        if ftype in ('float', 'double'):
            other = float(text)
            if value != value or other != other:
                return value != value and other != other
            if ftype == 'float':
                other, = struct.unpack('<f', struct.pack('<f', other))
            return other == value and str(other)[0] == str(value)[0]
        return int(text) == value
    except (ValueError, OverflowError):
        return False


TEXTS = ['plain', 'a,b', 'x;y|z\tw', 'say "hi"', '"', '""', ',', 'two\nlines', 'cr\rlf\r\n', 'caf\u00e9', '\u20ac\u00fc', '\U0001f681 up', "it's",
         ' padded ', '', '0', '=1+1', '\\n', '"quoted"', '"half,', 'end\n']


def texts(rec, rng):
    """ what character fields hold: any bytes, letters and digits, or texts """
    kind = rng.choice(['any', 'plain', 'text', 'text'])
    if kind == 'any':
        return rec
    formats = {m[1]: m[2] for m in rec['defs'] if m[0] == 'F'}
    subs = {}
    for m in rec['data']:
        if m[0] == 'A':
            subs[m[2]] = R.flatten(formats, m[3])
        elif m[0] == 'D' and m[1] in subs:
            raw = bytearray(bytes.fromhex(m[2]))
            pos, source = 0, b''
            for name, ftype in subs[m[1]][0]:
                if ftype == 'char' and pos < len(raw):
                    if kind == 'plain':
                        raw[pos] = 0 if raw[pos] % 3 == 0 else 97 + raw[pos] % 26
                    else:
                        if name.endswith('[0]') or not name.endswith(']'):
                            source = rng.choice(TEXTS).encode() + rng.choice([b'', b'', b'x' * 20]) + b'\0after'
                        raw[pos] = source[0] if source else 0
                        source = source[1:]
                pos += R.WIDTH[ftype]
            m[2] = raw.hex()
    return rec


def same_text(raw, text):
    """ is this the string in these bytes (invalid sequences replaced)? """
    raw = raw.split(b'\0')[0]
    try:
        return raw.decode('utf-8') == text
    except UnicodeDecodeError:
        return text.replace('\ufffd', '') == raw.decode('utf-8', 'ignore').replace('\ufffd', '')


class Tool(Scenario):
    real = ['pyulog.core.ULog (parser)', 'CPython io buffering and text layer']
    stub = TOOL_STUB
    module = None
    where = ('write', 'open', 'close', 'read')

    def recording(self, rng):
        raise NotImplementedError

    def options(self, rng, rec):
        raise NotImplementedError

    def plans(self, rng, run, tier):
        rec = self.recording(rng)
        raw, _ = R.encode(rec)
        plan = {'rec': rec, 'cut': None, 'opts': self.options(rng, rec), 'bufsize': rng.choice([16, 64, 512, 8192])}
        if rng.random() < 0.12:
            # a text message that is not valid UTF-8
            at = rng.randrange(1, len(rec['data']) + 1) if rec['data'] else 0
            rec['data'].insert(at, ['L', 54, rec['start'], rng.choice([b'bad\xff', b'\xc3', b'a\x80\xfeb']).hex()])
            plan['broken'] = True
            plan['opts']['ignore'] = rng.random() < 0.7
        if rng.random() < 0.25:
            plan['cut'] = rng.randrange(16, len(raw) + 1)
        self.more(rng, plan, raw)
        if rng.random() < 0.3:
            plan['chunks_out'] = [rng.choice([1, 3, 7, 100]) for _ in range(3)]
        probe = run(plan)
        count = probe.info.get('written', 0)
        outputs = [s for s, op, _, detail in probe.ops if op in ('write', 'open', 'close')
                   and not (op == 'open' and detail.endswith('rb'))]
        for _ in range(self.fault_runs):
            kind = rng.choice(WRITE_FAULTS)
            ops = {'eio_close': 'close', 'eio_open': 'open', 'eio_read': 'read'}.get(kind, 'write')
            places = [s for s, op, _, _ in probe.ops if op == ops]
            if kind not in ('eio_read', 'eio_close', 'eio_open'):
                places = [s for s in places if s in outputs]
            if not places:
                continue
            # the end of a file is where errors get lost
            step = rng.choice(places[-3:] if rng.random() < 0.5 else places)
            fault = {'step': step, 'kind': kind}
            if kind in ('enospc', 'eio_write') and rng.random() < 0.5:
                fault['part'] = rng.choice([10, 50, 90])
            yield dict(plan, faults=[fault])
        if count:
            yield dict(plan, capacity=rng.randrange(count))

    fault_runs = 4

    def more(self, rng, plan, raw):
        """ further conditions """

    def shrink(self, plan):
        if plan['cut'] is not None:
            yield dict(plan, cut=None)
        if plan.get('chunks_out'):
            yield dict(plan, chunks_out=None)
        for rec in shrink_recording(plan['rec']):
            yield dict(plan, rec=rec)

    def prepare(self, plan, env):
        sim = env.new_sim(plan)
        root = os.path.join(env.root, 'fs')
        os.mkdir(root)
        out = os.path.join(root, 'out')
        os.mkdir(out)
        world = simio.FileWorld(sim, root, bufsize=plan['bufsize'], capacity=plan.get('capacity'))
        world.chunks_out = plan.get('chunks_out') or []
        raw, _ = R.encode(plan['rec'])
        if plan['cut'] is not None:
            raw = raw[:max(16, min(len(raw), plan['cut']))]
        if plan.get('damage'):
            at, size, fill = plan['damage']
            ends = R.encode(plan['rec'])[1]
            first = min(len(raw), ends[len(plan['rec']['defs'])] if plan['rec']['data'] else len(raw))
            at = first + int(at * (len(raw) - first))
            raw = raw[:at] + (bytes.fromhex(fill) * size)[:len(raw) - at] + raw[at + size:]
        path = os.path.join(root, plan['opts'].get('name', 'flight.ulg'))
        write_file(path, raw)
        simio.attach(world)
        return sim, world, root, out, path, raw

    def run_main(self, sim, world, module, args, call=None):
        """ -> (outcome, standard output): success only if main returns and standard output can be flushed """
        import importlib
        main = importlib.import_module('pyulog.' + module).main
        saved = sys.argv
        sys.argv = ['tool'] + args
        fired = dict(sim.fired)

        def body():
            try:
                if call is not None:
                    result = outcome(call)
                else:
                    result = outcome(main)
            except SystemExit as exc:
                result = ('ok', None) if exc.code in (None, 0) else ('error', 'SystemExit', str(exc.code))
            flushed = outcome(stdout.finish)
            if result[0] == 'ok' and flushed[0] == 'error':
                result = flushed
            return result
        try:
            with simio.Stdout(world) as stdout:
                try:
                    result = sim.run_inline(body)
                except (SimKilled, SimStuck):
                    raise
                text = stdout.text()
        finally:
            sys.argv = saved
        new = {k: n - fired.get(k, 0) for k, n in sim.fired.items() if n > fired.get(k, 0)}
        return result, text, new

    def content(self, plan, path, names=None):
        """ what was recorded, of the messages that are complete in the file """
        if plan.get('damage'):
            return C.canon(ULog(path, names))
        rec = plan['rec']
        raw, ends = R.encode(rec)
        if plan['cut'] is not None:
            rec = complete_part(rec, ends, max(16, min(len(raw), plan['cut'])))
        return C.model_view(R.expected(rec, names))

    def execute(self, plan, env):
        sim, world, root, out, path, raw = self.prepare(plan, env)
        got = outcome(self.expect, plan, path)
        if got[0] == 'error':
            if got[1] == 'NotConvertible' or plan.get('damage'):
                return
            raise Violation('unloadable', '%s: %s' % got[1:])
        want = got[1]
        result, text, fired = self.convert(plan, sim, world, root, out, path)
        if sim.stuck:
            raise Violation('no-progress', '')
        harmless = set(fired) <= {'eintr', 'short_io', 'short_write'}
        if read_file(path) != raw:
            raise Violation('input-changed', '')
        env.info['written'] = sum(os.path.getsize(os.path.join(out, n)) for n in os.listdir(out)) if os.path.isdir(out) else 0
        env.nontrivial = self.nontrivial(plan, want)
        if result[0] == 'error':
            strict = plan.get('broken') and not plan['opts'].get('ignore') and result[1] == 'UnicodeDecodeError'
            if harmless and not strict and not self.may_fail(plan, want, result):
                raise Violation('fails', '%s: %s' % result[1:])
            return
        if not harmless:
            sim.probe('success in spite of a fault')
        self.check(plan, want, out, path, text)

    def nontrivial(self, plan, want):
        return True

    def may_fail(self, plan, want, result):
        return False

    def convert(self, plan, sim, world, root, out, path):
        return self.run_main(sim, world, self.module, self.args(plan, out, path))


class NotConvertible(Exception):
    """ the log lacks what the tool needs """


def output(path):
    try:
        return read_file(path).decode('utf-8')
    except FileNotFoundError:
        raise Violation('file-missing', os.path.basename(path)) from None
    except UnicodeDecodeError as exc:
        raise Violation('file-garbled', str(exc)) from None


# ------------------------------------------------------------------------------------------------- X01
class Csv(Tool):
    id = 'X01'
    module = 'ulog2csv'
    real = Tool.real + ['pyulog.ulog2csv']
    rule = ('one recording per case (a quarter cut at a random byte) converted with random options, undisturbed and with failing or '
            'partial writes, opens, closes and full disks; non-trivial: at least two files with rows; distinct by event log and '
            'workload')
    assumptions = ['time stamps of a topic instance do not run backwards where a time window is asked for',
                   'no two topic instances get the same file name']
    quick_cases = 1560
    thorough_cases = 1000000

    def recording(self, rng):
        return texts(R.generate(rng, {'modest': True, 'msgs': rng.choice([10, 30, 60]), 'max_fields': rng.choice([3, 6]),
                                      'few_extra': True}), rng)

    def options(self, rng, rec):
        opts = {'delimiter': rng.choice([',', ',', ';', '\t', '|']), 'messages': None, 'same': rng.random() < 0.2, 'ts': None,
                'te': None, 'name': rng.choice(['flight.ulg', 'Flight.ULG', 'flight.log', 'a.b.ulg']), 'new': rng.random() < 0.2,
                'ignore': rng.random() < 0.3}
        names = sorted({m[3] for m in rec['data'] if m[0] == 'A'})
        if rng.random() < 0.3 and names:
            opts['messages'] = rng.sample(names, rng.randrange(1, len(names) + 1))
        base = rec['start'] // 10 ** 6
        if rng.random() < 0.35:
            opts['ts'] = max(0, base + rng.choice([0, 0, 1, 2, 5, 10, 30, -1]))
        if rng.random() < 0.35:
            opts['te'] = max(0, base + rng.choice([0, 1, 2, 5, 10, 20, 40]))
        return opts

    def args(self, plan, out, path):
        opts = plan['opts']
        args = [path, '-d', opts['delimiter']]
        if opts['messages']:
            args += ['-m', ','.join(opts['messages'])]
        if not opts['same']:
            args += ['-o', out]
        if opts['ts'] is not None:
            args += ['-ts', str(opts['ts'])]
        if opts['te'] is not None:
            args += ['-te', str(opts['te'])]
        if opts['ignore']:
            args += ['-i']
        return args

    def convert(self, plan, sim, world, root, out, path):
        if plan['opts']['new'] and not plan['opts']['same']:
            os.rmdir(out)
        return super().convert(plan, sim, world, root, out, path)

    def expect(self, plan, path):
        topics = self.content(plan, path, plan['opts']['messages'])['topics']
        names = {key.rsplit('/', 1)[0].replace('/', '_') + key[key.rindex('/'):] for key in topics}
        if len(names) != len(topics):
            raise NotConvertible()
        for topic in topics.values():
            stamps = columns(topic)['timestamp']
            if (plan['opts']['ts'] or plan['opts']['te']) and list(stamps) != sorted(stamps):
                raise NotConvertible()
        return topics

    def nontrivial(self, plan, want):
        return sum(1 for t in want.values() if t['n']) > 1

    def check(self, plan, want, out, path, text):
        opts = plan['opts']
        prefix = os.path.basename(path)
        prefix = prefix[:-4] if prefix.lower().endswith('.ulg') else prefix
        folder = os.path.dirname(path) if opts['same'] else out
        files = {}
        for key in want:
            name, multi = key.rsplit('/', 1)
            files['%s_%s_%s.csv' % (prefix, name.replace('/', '_'), multi)] = key
        have = {n for n in os.listdir(folder) if n.endswith('.csv')} if os.path.isdir(folder) else set()
        if have != set(files):
            raise Violation('files', 'expected %s, got %s' % (sorted(files), sorted(have)))
        for name, key in files.items():
            self.check_file(opts, want[key], output(os.path.join(folder, name)), key)

    @staticmethod
    def check_file(opts, topic, text, key):
        if not text.endswith('\n'):
            raise Violation('incomplete-file', key)
        try:
            lines = list(csv.reader(io.StringIO(text, newline=''), delimiter=opts['delimiter'], strict=True))
        except csv.Error as exc:
            raise Violation('not-csv', '%s: %s' % (key, exc)) from None
        cols = columns(topic)
        types = dict(map(tuple, topic['fields']))
        expect = []                    # (header, [fields])
        for fname, ftype in topic['fields']:
            if fname.startswith('_padding'):
                continue
            if ftype == 'char' and fname.endswith(']'):
                base = fname[:fname.rindex('[')]
                if fname == base + '[0]':
                    expect.append((base, []))
                next(e for e in expect if e[0] == base)[1].append(fname)
            else:
                expect.append((fname, None))
        expect.sort(key=lambda e: e[0] != 'timestamp')
        if lines[0] != [e[0] for e in expect]:
            raise Violation('header', '%s: expected %s, got %s' % (key, [e[0] for e in expect], lines[0]))
        low = (opts['ts'] or 0) * 10 ** 6
        rows = [i for i, t in enumerate(cols['timestamp']) if t >= low and not (opts['te'] and t >= opts['te'] * 10 ** 6)]
        if len(lines) - 1 != len(rows):
            raise Violation('rows', '%s: expected %d, got %d' % (key, len(rows), len(lines) - 1))
        for i, cells in zip(rows, lines[1:]):
            if len(cells) != len(expect):
                raise Violation('cells', '%s: %s' % (key, cells))
            for (name, parts), cell in zip(expect, cells):
                if parts is None:
                    if not same_number(types[name], cols[name][i], cell):
                        raise Violation('value', '%s.%s row %d: expected %r, got %s' % (key, name, i, cols[name][i], cell))
                else:
                    want = bytes(cols[p][i] & 0xff for p in parts)
                    if not same_text(want, cell):
                        raise Violation('value', '%s.%s row %d: expected %r, got %r' % (key, name, i, want, cell))


# ------------------------------------------------------------------------------------------------- X02
class Params(Tool):
    id = 'X02'
    module = 'params'
    real = Tool.real + ['pyulog.params']
    rule = ('one recording per case (a quarter cut at a random byte) exported with random format and options to a file or standard '
            'output, undisturbed and with failing or partial writes, opens, closes and full disks; non-trivial: at least two '
            'parameters; distinct by event log and workload')
    assumptions = ['parameters are int32 or float', '-t is not combined with -i or -d']
    quick_cases = 6000
    thorough_cases = 1000000
    fault_runs = 4

    def recording(self, rng):
        rec = R.generate(rng, {'modest': True, 'msgs': 10, 'topics': 2, 'max_fields': 2})
        names = [m[2] for m in rec['defs'] if m[0] == 'P']
        for n in range(rng.choice([0, 0, 3, 20])):
            ftype, value = R.random_param(rng)
            name = 'EXTRA_%d' % n
            rec['defs'].append(['P', ftype, name, value.hex()])
            names.append(name)
        if names:
            for _ in range(rng.choice([0, 1, 4])):
                ftype, value = R.random_param(rng)
                if rec['data']:
                    rec['data'].insert(rng.randrange(1, len(rec['data']) + 1), ['P', ftype, rng.choice(names), value.hex()])
        return rec

    def options(self, rng, rec):
        opts = {'format': rng.choice(['csv', 'csv', 'csv', 'octave', 'qgc', None]), 'initial': rng.random() < 0.3,
                'stamps': False, 'default': None, 'stdout': rng.random() < 0.4, 'delimiter': rng.choice([None, None, ';', '\t']),
                'ignore': rng.random() < 0.2}
        if opts['format'] in ('csv', None) and not opts['initial'] and rng.random() < 0.3:
            opts['stamps'] = True
        elif rng.random() < 0.3:
            opts['default'] = rng.choice(['system', 'current_setup'] * 8 + ['factory'])
        return opts

    def args(self, plan, out, path):
        opts = plan['opts']
        args = [path]
        if not opts['stdout']:
            args.append(os.path.join(out, 'params.txt'))
        for key, flag in (('format', '-f'), ('default', '-d'), ('delimiter', '-l')):
            if opts[key] is not None:
                args += [flag, opts[key]]
        for key, flag in (('initial', '-i'), ('stamps', '-t'), ('ignore', '--ignore')):
            if opts[key]:
                args.append(flag)
        return args

    def expect(self, plan, path):
        view = self.content(plan, path)
        return {k: view[k] for k in ('initial', 'defaults', 'changed', 'compat0')}

    def nontrivial(self, plan, want):
        return len(want['initial']) > 1

    def may_fail(self, plan, want, result):
        return plan['opts']['default'] == 'factory' or plan['opts']['default'] is not None and not want['compat0']

    def check(self, plan, want, out, path, text):
        opts = plan['opts']
        if self.may_fail(plan, want, None):
            raise Violation('accepted', 'default values that are not in the log')
        if not opts['stdout']:
            text = output(os.path.join(out, 'params.txt'))
        values = want['initial']
        if opts['default']:
            values = want['defaults'].get({'system': '0', 'current_setup': '1'}[opts['default']], {})
        changes = {}
        if not opts['initial'] and not opts['default']:
            for stamp, name, value in want['changed']:
                changes.setdefault(name, []).append((stamp, value))
        names = sorted(values)
        if names and not text.endswith('\n'):
            raise Violation('incomplete', '')
        lines = text.split('\n')[:-1] if text else []
        form = opts['format'] or 'csv'
        if form == 'qgc':
            rows = [line.split('\t') for line in lines]
            if [r[2:3] for r in rows] != [[n] for n in names]:
                raise Violation('names', '%s, expected %s' % ([r[2:3] for r in rows], names))
            for row, name in zip(rows, names):
                if row[:2] != ['1', '1'] or len(row) != 5 or row[4] != ('9' if values[name][0] == 'f' else '6'):
                    raise Violation('row', repr(row))
                self.same(values[name], row[3], name)
        elif form == 'csv':
            self.check_csv(opts, lines, names, values, changes)
        else:
            self.check_octave(lines, names, values, changes)

    def check_csv(self, opts, lines, names, values, changes):
        delimiter = opts['delimiter'] or ','
        rows = [line.split(delimiter) for line in lines]
        if opts['stamps']:
            stamps, rows = rows[1::2], rows[::2]
            if len(stamps) != len(rows):
                raise Violation('rows', '%d lines' % len(lines))
        if [r[0] for r in rows] != names:
            raise Violation('names', '%s, expected %s' % ([r[0] for r in rows], names))
        for i, (row, name) in enumerate(zip(rows, names)):
            expect = [values[name]] + [v for _, v in changes.get(name, [])]
            if len(row) - 1 != len(expect):
                raise Violation('values', '%s: %s' % (name, row))
            for value, cell in zip(expect, row[1:]):
                self.same(value, cell, name)
            if opts['stamps']:
                if stamps[i] != ['timestamp', '0'] + [str(t) for t, _ in changes.get(name, [])]:
                    raise Violation('stamps', '%s: %s' % (name, stamps[i]))

    def check_octave(self, lines, names, values, changes):
        pos = 0
        found = []
        while pos < len(lines):
            if not lines[pos].startswith('# name '):
                raise Violation('octave', lines[pos])
            name = lines[pos][7:]
            found.append(name)
            if name not in values:
                raise Violation('names', name)
            expect = [values[name]] + [v for _, v in changes.get(name, [])]
            if len(expect) == 1:
                block, size = lines[pos + 1:pos + 3], 3
                if len(block) < 2 or block[0] != '# type: scalar':
                    raise Violation('octave', '%s: %s' % (name, block))
                cells = [block[1]]
            else:
                block, size = lines[pos + 1:pos + 5], 5
                if len(block) < 4 or block[:3] != ['# type: matrix', '# rows: 1', '# columns: %d' % len(expect)]:
                    raise Violation('octave', '%s: %s' % (name, block))
                cells = block[3].split()
            if len(cells) != len(expect):
                raise Violation('values', '%s: %s' % (name, cells))
            for value, cell in zip(expect, cells):
                self.same(value, cell, name)
            pos += size
        if found != names:
            raise Violation('names', '%s, expected %s' % (found, names))

    @staticmethod
    def same(value, text, name):
        kind, what = value
        if kind == 'f':
            what = float('nan') if what == 'nan' else float.fromhex(what)
        if not same_number('double' if kind == 'f' else 'int32_t', what, text):
            raise Violation('value', '%s: expected %r, got %s' % (name, what, text))


# ------------------------------------------------------------------------------------------------- X03
class GpsDump(Tool):
    id = 'X03'
    module = 'extract_gps_dump'
    real = Tool.real + ['pyulog.extract_gps_dump']
    rule = ('one recording per case (a quarter cut at a random byte) with the communication of one or two receivers, undisturbed and '
            'with failing or partial writes, opens, closes and full disks; non-trivial: bytes in both directions; distinct by event '
            'log and workload')
    assumptions = ['the dump is one topic instance; receivers are told apart by its instance field']
    quick_cases = 6000
    thorough_cases = 1000000

    def recording(self, rng):
        size = rng.choice([3, 8, 79])
        with_instance = rng.random() < 0.7
        fields = [['uint64_t', 0, 'timestamp'], ['uint8_t', 0, 'len'], ['uint8_t', size, 'data']]
        odd = rng.random() < 0.06
        if odd:
            fields[rng.choice([1, 2])][2] = rng.choice(['other', 'lens', 'data_'])
        if with_instance:
            fields.insert(rng.choice([1, 2, 3]), ['uint8_t', 0, 'instance'])
        if rng.random() < 0.5:
            fields.append(['uint8_t', 3, '_padding0'])

        def make(rng, begin, count, multi):
            at = begin
            for _ in range(count):
                at += rng.choice([0, 1, 1000, 40000])
                body = b''
                for ftype, array, name in fields:
                    if name == 'timestamp':
                        body += struct.pack('<Q', at)
                    elif name == 'len':
                        body += bytes([rng.choice([0, 1, size, rng.randrange(size + 1)]) | rng.choice([0, 0, 128])])
                    elif name == 'instance':
                        body += bytes([rng.choice([0, 0, 1, 2])])
                    elif ftype == 'uint8_t' and not name.startswith('_'):
                        body += rng.randbytes(array or 1)
                yield at, body
        rec = R.generate(rng, {'modest': True, 'msgs': 15, 'topics': 2, 'max_fields': 2,
                               'special': [{'name': 'gps_dump', 'fields': fields, 'make': make, 'min': rng.choice([1, 5, 30])}]})
        # one instance only
        ids = [m[2] for m in rec['data'] if m[0] == 'A' and m[3] == 'gps_dump']
        drop = set(ids[1:])
        rec['data'] = [m for m in rec['data'] if not (m[0] == 'A' and m[2] in drop or m[0] in 'DR' and m[1] in drop)]
        return rec

    def options(self, rng, rec):
        return {'instance': rng.choice([None, 0, 0, 1, 2]), 'name': rng.choice(['flight.ulg', 'x.ULG', 'raw.bin']),
                'here': rng.random() < 0.15, 'nowhere': rng.random() < 0.03}

    def args(self, plan, out, path):
        args = [path]
        if plan['opts'].get('nowhere'):
            args += ['-o', os.path.join(out, 'nowhere')]
        elif not plan['opts'].get('here'):
            args += ['-o', out]
        if plan['opts'].get('ignore'):
            args.append('-x')
        if plan['opts']['instance'] is not None:
            args += ['-i', str(plan['opts']['instance'])]
        return args

    def expect(self, plan, path):
        topics = [t for k, t in self.content(plan, path, ['gps_dump'])['topics'].items() if k.startswith('gps_dump/')]
        if not topics:
            return None
        names = [f for f, _ in topics[0]['fields']]
        if 'len' not in names or 'data[0]' not in names:
            return 'wrong format'
        cols = columns(topics[0])
        out = [b'', b'']
        instance = plan['opts']['instance'] or 0
        for i in range(topics[0]['n']):
            if cols.get('instance', [0] * topics[0]['n'])[i] == instance:
                length = cols['len'][i] & 0x7f
                out[cols['len'][i] >> 7] += bytes(cols['data[%d]' % k][i] for k in range(length))
        return out

    def nontrivial(self, plan, want):
        return bool(want and want[0] and want[1])

    def may_fail(self, plan, want, result):
        return want == 'wrong format' or plan['opts'].get('nowhere')

    def convert(self, plan, sim, world, root, out, path):
        before = os.getcwd()
        os.chdir(out if plan['opts'].get('here') else root)
        try:
            return super().convert(plan, sim, world, root, out, path)
        finally:
            os.chdir(before)

    def check(self, plan, want, out, path, text):
        if plan['opts'].get('nowhere'):
            raise Violation('accepted', 'an output directory that does not exist')
        if want is None:
            if os.listdir(out) or not text.strip():
                raise Violation('invented', '%s, printed %r' % (os.listdir(out), text[:100]))
            return
        if want == 'wrong format':
            raise Violation('accepted', 'a topic without the fields of a dump')
        prefix = os.path.basename(path)
        prefix = prefix[:-4] if prefix.lower().endswith('.ulg') else prefix
        for way, data in (('from', want[0]), ('to', want[1])):
            name = os.path.join(out, '%s_%d_%s_device.dat' % (prefix, plan['opts']['instance'] or 0, way))
            if not os.path.exists(name):
                raise Violation('file-missing', os.path.basename(name))
            have = read_file(name)
            if have != data:
                raise Violation('bytes', '%s device: expected %d bytes, got %d' % (way, len(data), len(have)))


# ------------------------------------------------------------------------------------------------- X04
class Kml(Tool):
    id = 'X04'
    module = 'ulog2kml'
    real = Tool.real + ['pyulog.ulog2kml', 'simplekml']
    rule = ('one recording per case (a quarter cut at a random byte) of position, flight mode and camera streams, converted through the '
            'command line or the function with random options, undisturbed and with failing or partial writes, opens, closes and full '
            'disks; non-trivial: at least three kept positions; distinct by event log and workload')
    assumptions = ['the time stamps of flight modes do not run backwards', 'time stamps are later than the minimum interval']
    quick_cases = 3900
    thorough_cases = 1000000
    fault_runs = 3

    def recording(self, rng):
        streams = {}
        for topic in ('vehicle_gps_position', 'est_position'):
            newer = rng.random() < 0.4
            fix = rng.random() < 0.7
            kind = 'double' if newer else rng.choice(['int32_t', 'int32_t', 'double'])
            lon, lat, alt = ('longitude_deg', 'latitude_deg', 'altitude_msl_m') if newer else ('lon', 'lat', 'alt')
            fields = [['uint64_t', 0, 'timestamp'], [kind, 0, lat], [kind, 0, lon], [kind, 0, alt]]
            if fix:
                fields.append(['uint8_t', 0, 'fix_type'])
            streams[topic] = (kind, fix, fields)

        def place(rng, kind):
            if rng.random() < 0.04:
                return bytes(12 if kind == 'int32_t' else 24)
            if kind == 'int32_t':
                return struct.pack('<3i', rng.randrange(-900000000, 900000000), rng.randrange(-1800000000, 1800000000),
                                   rng.randrange(-100000, 9000000))
            return struct.pack('<3d', rng.uniform(-90, 90), rng.uniform(-180, 180), rng.uniform(-100, 9000))

        back = rng.random() < 0.25

        def positions(kind, fix):
            def make(rng, begin, count, multi):
                at = begin
                for _ in range(count):
                    at += rng.choice([0, 1, 20000, 99999, 100000, 100001, 200000, 1000000])
                    if back and rng.random() < 0.2:
                        at = max(2000001, at - rng.choice([1, 50000, 100001, 700000]))
                    yield at, struct.pack('<Q', at) + place(rng, kind) + (bytes([rng.choice([0, 2, 3, 3, 3, 4, 6])]) if fix else b'')
            return make

        def modes(rng, begin, count, multi):
            at = begin
            for n in range(count):
                at += rng.choice([0, 1, 500000, 1000000, 250000])
                stamp = 0 if rng.random() < 0.05 and n == 0 else at
                yield stamp, struct.pack('<QBB', stamp, rng.randrange(3), rng.choice([0, 1, 2, 2, 17, 18, 21, 31, 35, 255]))

        def camera(rng, begin, count, multi):
            at = begin
            for n in range(count):
                at += rng.choice([1, 500000])
                yield at, struct.pack('<Q', at) + place(rng, kind) + struct.pack('<I', n + rng.randrange(3))
        kind, fix, fields = streams['vehicle_gps_position']
        special = [{'name': 'vehicle_gps_position', 'fields': fields, 'make': positions(kind, fix), 'min': rng.choice([2, 10, 40])}]
        if rng.random() < 0.5:
            other = streams['est_position']
            special.append({'name': 'est_position', 'fields': other[2], 'make': positions(other[0], other[1]), 'min': rng.choice([1, 10])})
        if rng.random() < 0.8:
            special.append({'name': 'vehicle_status', 'make': modes, 'min': rng.choice([1, 4, 10]),
                            'fields': [['uint64_t', 0, 'timestamp'], ['uint8_t', 0, 'arming_state'], ['uint8_t', 0, 'nav_state']]})
        if rng.random() < 0.5:
            special.append({'name': 'camera_capture', 'make': camera, 'min': rng.choice([1, 4]),
                            'fields': fields[:4] + [['uint32_t', 0, 'seq']]})
        rec = R.generate(rng, {'modest': True, 'msgs': 12, 'topics': 1, 'max_fields': 2, 'special': special})
        return rec

    def options(self, rng, rec):
        opts = {'camera': rng.random() < 0.7, 'call': rng.random() < 0.5, 'interval': 0.1, 'offset': 0, 'extrude': False,
                'width': 3, 'topics': ['vehicle_gps_position'], 'colors': False}
        other = rng.random() < 0.3 and any(f[0] == 'F' and f[1] == 'est_position' for f in rec['defs'])
        if other:
            opts['topics'] = ['est_position']
        if opts['call']:
            opts.update({'interval': rng.choice([0.1, 0.0, 0.5, 1.5]), 'offset': rng.choice([0, 0, 12.5, -3]),
                         'extrude': rng.random() < 0.3, 'width': rng.choice([3, 3, 1, 7])})
            if other and rng.random() < 0.7:
                opts['topics'] = rng.choice([['est_position', 'vehicle_gps_position'], ['vehicle_gps_position', 'est_position']])
                opts['colors'] = True
        return opts

    def args(self, plan, out, path):
        return [path, '-o', os.path.join(out, 'track.kml')] + \
            (['--topic', plan['opts']['topics'][0]] if plan['opts']['topics'] != ['vehicle_gps_position'] else []) + (['--camera-trigger', 'camera_capture'] if plan['opts']['camera'] else []) + \
            (['-i'] if plan['opts'].get('ignore') else [])

    def convert(self, plan, sim, world, root, out, path):
        import simplekml
        simplekml.base.Kmlable._globalid = 0      # the same text in every run of a process
        opts = plan['opts']
        call = None
        if opts['call']:
            from pyulog.ulog2kml import convert_ulog2kml

            def call():
                style = {}
                if opts['extrude']:
                    style['extrude'] = True
                if opts['width'] != 3:
                    style['line_width'] = opts['width']
                topics = {'position_topic_name': opts['topics'][0]} if opts['topics'] != ['vehicle_gps_position'] else {}
                if opts['colors']:
                    topics = {'position_topic_name': list(opts['topics']),
                              'colors': [lambda mode, n=n: self.color(n, mode) for n in range(len(opts['topics']))]}
                convert_ulog2kml(path, os.path.join(out, 'track.kml'), altitude_offset=opts['offset'],
                                 minimum_interval_s=opts['interval'], style=style or None, **topics,
                                 camera_trigger_topic_name='camera_capture' if opts['camera'] else None,
                                 disable_str_exceptions=bool(opts.get('ignore')))
        return self.run_main(sim, world, self.module, self.args(plan, out, path), call)

    def expect(self, plan, path):
        opts = plan['opts']
        view = self.content(plan, path)
        topics = view['topics']
        if any(name + '/0' not in topics for name in opts['topics']):
            return None
        for name in [t + '/0' for t in opts['topics']] + ['vehicle_status/0', 'camera_capture/0']:
            if name in topics:
                stamps = [t for t in columns(topics[name])['timestamp'] if t]
                if name == 'vehicle_status/0' and stamps != sorted(stamps) or (stamps and min(stamps) <= 2000000):
                    raise NotConvertible()
        modes = []
        if 'vehicle_status/0' in topics:
            cols = columns(topics['vehicle_status/0'])
            for t, mode in zip(cols['timestamp'], cols['nav_state']):
                if t and (not modes or modes[-1][1] != mode):
                    modes.append((t, mode))
        kept = [self.kept(topics[name + '/0'], opts) for name in opts['topics']]
        points = []
        if opts['camera'] and 'camera_capture/0' in topics:
            cam = topics['camera_capture/0']
            cols = columns(cam)
            for i in range(cam['n']):
                points.append(('Camera Trigger %d' % cols['seq'][i], self.coords(cam, cols, i, False, opts['offset'])))
        return {'kept': kept, 'modes': modes, 'points': points}

    def kept(self, pos, opts):
        cols = columns(pos)
        kept, last = [], 0
        for i in range(pos['n']):
            if 'fix_type' in cols and cols['fix_type'][i] <= 2:
                continue
            t = cols['timestamp'][i]
            if (t - last) / 1e6 > opts['interval']:
                kept.append((t, self.coords(pos, cols, i, True, opts['offset'])))
                last = t
        return kept

    @staticmethod
    def color(n, mode):
        return 'ff%02x%02x40' % (n * 100, int(mode) % 256)

    @staticmethod
    def coords(topic, cols, i, scale, offset):
        types = dict(map(tuple, topic['fields']))
        if 'lon' in cols:
            lon, lat, alt = cols['lon'][i], cols['lat'][i], cols['alt'][i]
            if scale and types['lon'] == 'int32_t':
                lon, lat, alt = lon / 1e7, lat / 1e7, alt / 1e3
        else:
            lon, lat, alt = cols['longitude_deg'][i], cols['latitude_deg'][i], cols['altitude_msl_m'][i]
        return (lon, lat, alt + offset)

    def nontrivial(self, plan, want):
        return bool(want and sum(len(k) for k in want['kept']) > 2)

    def may_fail(self, plan, want, result):
        return want is None

    def check(self, plan, want, out, path, text):
        if want is None:
            raise Violation('no-positions', 'succeeded without position data')
        text = output(os.path.join(out, 'track.kml'))
        got = outcome(ET.fromstring, text)
        if got[0] == 'error':
            raise Violation('kml-invalid', got[2])
        space = '{http://www.opengis.net/kml/2.2}'
        styles = {}
        for style in got[1].iter(space + 'Style'):
            line = style.find(space + 'LineStyle')
            if line is not None:
                styles['#' + style.get('id')] = (line.findtext(space + 'color'), line.findtext(space + 'width'))
        lines, points = [], []
        for mark in got[1].iter(space + 'Placemark'):
            name = mark.findtext(space + 'name') or ''
            style = styles.get(mark.findtext(space + 'styleUrl'))
            for line in mark.iter(space + 'LineString'):
                lines.append((name, numbers(line.findtext(space + 'coordinates')), style,
                              line.findtext(space + 'extrude') in ('1', 'true')))
            for point in mark.iter(space + 'Point'):
                points.append((name, numbers(point.findtext(space + 'coordinates'))))
        if len(points) != len(want['points']):
            raise Violation('camera', 'expected %d points, got %d' % (len(want['points']), len(points)))
        for (name, coords), (have_name, have) in zip(want['points'], points):
            if name != have_name or not close(have, [coords]):
                raise Violation('camera', 'expected %s %s, got %s %s' % (name, coords, have_name, have))
        for n, (topic, kept) in enumerate(zip(plan['opts']['topics'], want['kept'])):
            mine = [line for line in lines if line[0].startswith(topic + ':')]
            lines = [line for line in lines if not line[0].startswith(topic + ':')]
            self.check_lines(plan['opts'], n, topic, kept, want['modes'], mine)
        if lines:
            raise Violation('lines', 'of other topics: %s' % [line[0] for line in lines])

    def check_lines(self, opts, n, topic, kept, modes, lines):
        """ one line per flight mode, the first position after a change belongs to both """
        expect = []
        index = 0
        # before the first known flight mode (none at all: nothing says which)
        expect.append([modes[0][1] if modes else -1 if lines and lines[0][0].endswith(':-1') else 0, []])
        for t, coords in kept:
            expect[-1][1].append(coords)
            while index + 1 < len(modes) and modes[index + 1][0] <= t:
                index += 1
                expect.append([modes[index][1], [coords]])
        if lines and lines[-1][0].endswith(':-1') and len(lines) == len(expect) + 1 and kept:
            # the end of the log closes the last mode
            if close(lines[-1][1], [kept[-1][1]]):
                lines.pop()
        if len(lines) != len(expect):
            raise Violation('lines', 'expected %s, got %s' % ([(m, len(c)) for m, c in expect], [(line[0], len(line[1])) for line in lines]))
        for (mode, coords), (name, have, style, extrude) in zip(expect, lines):
            if name != '%s:%d' % (topic, mode) or not close(have, coords):
                raise Violation('track', 'mode %s: expected %s, got %s: %s' % (mode, coords[:3], name, have[:3]))
            if extrude != bool(opts['extrude']) or style is None or float(style[1]) != opts['width'] or \
                    opts['colors'] and style[0] != self.color(n, mode):
                raise Violation('style', '%s: extrude %s, style %s' % (name, extrude, style))


def numbers(text):
    if (text or '').strip() in ('', '0.0, 0.0, 0.0'):
        return []       # what an empty line looks like (a position at zero is written without the spaces)
    return [tuple(float(v) for v in item.split(',')) for item in (text or '').split()]


def close(have, want):
    return len(have) == len(want) and all(len(a) == len(b) and all(x == float(y) for x, y in zip(a, b))
                                          for a, b in zip(have, want))


# ------------------------------------------------------------------------------------------------- X05
class Info(Tool):
    id = 'X05'
    module = 'info'
    real = Tool.real + ['pyulog.info']
    rule = ('one recording per case (a third cut at a random byte), summarised with random options to a standard output with failing or '
            'partial writes; non-trivial: at least two topic instances and information messages; distinct by event log and workload')
    quick_cases = 7500
    thorough_cases = 1000000
    fault_runs = 3

    def recording(self, rng):
        return R.generate(rng, {'modest': True, 'msgs': rng.choice([10, 45]), 'max_fields': 4, 'long': True})

    def more(self, rng, plan, raw):
        if rng.random() < 0.2 and not plan['opts']['message'] and not plan.get('broken'):
            plan['opts']['ignore'] = True
            plan['damage'] = [rng.random(), rng.choice([1, 3, 8, 40, 300]), rng.choice(['00', '00', 'ff', '44'])]

    def options(self, rng, rec):
        opts = {'verbose': rng.random() < 0.4, 'message': None, 'newline': rng.random() < 0.3}
        if rng.random() < 0.25:
            opts['message'] = rng.choice(['perf', 'boot_log', 'metadata'])
        return opts

    def args(self, plan, out, path):
        opts = plan['opts']
        args = [path]
        if opts['verbose']:
            args.append('-v')
        if opts.get('ignore'):
            args.append('-i')
        if opts['message']:
            args += ['-m', opts['message']]
            if opts['newline']:
                args.append('-n')
        return args

    def expect(self, plan, path):
        want = self.content(plan, path)
        log = ULog(path)
        want['corrupt'] = log.file_corruption
        if plan.get('damage'):
            # an instance can be there twice if its number in the announcement of another one was hit
            want['sets'] = [(d.name, d.multi_id, [(f.field_name, f.type_str) for f in d.field_data], len(d.data['timestamp']))
                            for d in log.data_list]
        if want['corrupt'] and not plan.get('damage') and plan['cut'] is None and not plan.get('broken'):
            raise Violation('sound-log-reported-corrupt', '')
        return want

    def nontrivial(self, plan, want):
        return len(want['topics']) > 1 and bool(want['info'])

    def check(self, plan, want, out, path, text):
        opts = plan['opts']
        if text and not text.endswith('\n'):
            raise Violation('incomplete', '')
        if opts['message']:
            self.check_message(opts, want, text)
            return
        lines = [' '.join(line.split()) for line in text.split('\n')]
        clock = '%d:%02d:%02d'
        start, length = want['start'] // 10 ** 6, (want['last'] - want['start']) // 10 ** 6
        expect = ['Logging start time: ' + clock % (start // 3600, start // 60 % 60, start % 60) + ', duration: ' +
                  clock % (length // 3600, length // 60 % 60, length % 60)]
        if want['dropouts']:
            times = [d for _, d in want['dropouts']]
            expect.append('Dropouts: count: %d, total duration: %.1f s, max: %d ms, mean: %d ms' % (
                len(times), sum(times) / 1000., max(times), sum(times) // len(times)))
        else:
            expect.append('No Dropouts')
        release = want['info'].get('ver_sw_release')
        if release and release[0] == 'i' and release[1] & 255 >= 64:
            kind = release[1] & 255
            expect.append('SW Version: v%d.%d.%d%s' % (release[1] >> 24, release[1] >> 16 & 255, release[1] >> 8 & 255,
                                                       ' (alpha)' if kind < 128 else ' (beta)' if kind < 192 else
                                                       ' (RC)' if kind < 255 else ''))
        elif any(line.startswith('SW Version:') for line in lines):
            raise Violation('summary', 'a version that was not recorded')
        for line in expect:
            if line not in lines:
                raise Violation('summary', 'missing: %s' % line)
        before = lines[:lines.index(expect[0])]
        warned = any('corrupt' in line for line in before)
        if warned != want['corrupt']:
            raise Violation('corruption-warning', '%s, loaded as corrupt: %s' % (before, want['corrupt']))
        if 'Info Messages:' not in lines:
            raise Violation('summary', 'no information messages')
        pos = lines.index('Info Messages:') + 1
        for key in sorted(want['info']):
            if key.startswith('perf_') and not opts['verbose']:
                continue
            for line in ('%s: %s' % (key, shown(want['info'][key]))).split('\n'):
                line = ' '.join(line.split())
                if as_number(lines[pos]) != as_number(line):
                    raise Violation('info', 'expected %s, got %s' % (line, lines[pos]))
                pos += 1
        if want['multi']:
            if opts['verbose']:
                pos += 1
                for key in sorted(want['multi']):
                    lists = '[%s]' % ', '.join('[%s]' % ', '.join(repr(plain(v)) for v in items) for items in want['multi'][key])
                    line = ' '.join(('%s: %s' % (key, lists)).split())
                    if as_number(lines[pos]) != as_number(line):
                        raise Violation('info-multiple', 'expected %s, got %s' % (line, lines[pos]))
                    pos += 1
            else:
                line = 'Info Multiple Messages: ' + ', '.join('[%s: %d]' % (k, len(want['multi'][k])) for k in sorted(want['multi']))
                if lines[pos] != line:
                    raise Violation('info-multiple', 'expected %s, got %s' % (line, lines[pos]))
                pos += 1
        pos += 2
        rows = []
        sets = want.get('sets')
        if sets is None:
            sets = [(*key.rsplit('/', 1), topic['fields'], topic['n']) for key, topic in sorted(want['topics'].items())]
        for name, multi, fields, number in sets:
            size = sum(R.WIDTH[t] for _, t in fields)
            rows.append('%s (%s, %d) %d %d' % (name, multi, size, number, size * number))
        have = [line for line in lines[pos:] if line]
        if sorted(have) != sorted(rows):
            raise Violation('topics', 'expected %s, got %s' % (rows, have))

    @staticmethod
    def check_message(opts, want, text):
        name = opts['message']
        if name not in want['multi']:
            if text != 'message %s not found\n' % name:
                raise Violation('message', text[:200])
            return
        sep = '\n' if opts['newline'] else ''
        if any(items[0][0] not in 'sb' for items in want['multi'][name]):
            # numbers: each one on its own, however they are separated
            expect = []
            for i, items in enumerate(want['multi'][name]):
                expect += ['#', name, '%d:' % i] + [as_number(str(plain(v))) for v in items]
            if as_number(text).replace(',', ' ').split() != expect:
                raise Violation('message', 'expected %s, got %r' % (expect[:20], text[:200]))
            return
        expect = ''
        for i, items in enumerate(want['multi'][name]):
            if items[0][0] == 'b':
                data = [bytes.fromhex(v[1]) for v in items]
                expect += '# %s %d (len: %d):\n' % (name, i, sum(len(d) for d in data))
                expect += sep.join(' '.join('%02x' % x for x in d) for d in data) + '\n'
            else:
                expect += '# %s %d:\n' % (name, i) + sep.join(v[1] for v in items) + '\n'
        if text != expect:
            raise Violation('message', 'expected %r, got %r' % (expect[:200], text[:200]))


def as_number(line):
    """ a bool may be shown as number or as truth value """
    return line.replace('False', '0').replace('True', '1')


def plain(value):
    kind, what = value
    if kind == 'f':
        return float('nan') if what == 'nan' else float.fromhex(what)
    return bytes.fromhex(what) if kind == 'b' else what


def shown(value):
    return str(plain(value))


# ------------------------------------------------------------------------------------------------- X06
class Extract(Tool):
    id = 'X06'
    real = Tool.real + ['pyulog.extract_message']
    rule = ('one recording per case (a third cut at a random byte), one topic extracted for a random time window, undisturbed and with '
            'failing reads; non-trivial: at least two records; distinct by event log and workload')
    assumptions = ['time stamps of a topic instance do not run backwards where a time window is asked for']
    quick_cases = 7500
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = R.generate(rng, {'modest': True, 'msgs': rng.choice([10, 45]), 'max_fields': 4, 'few_extra': True})
        raw, _ = R.encode(rec)
        names = sorted({m[3] for m in rec['data'] if m[0] == 'A'}) + ['nowhere']
        base = rec['start'] // 10 ** 6
        opts = {'name': 'flight.ulg', 'message': rng.choice(names), 'ts': None, 'te': None}
        if rng.random() < 0.35:
            opts['ts'] = max(0, base + rng.choice([0, 0, 1, 2, 5, 10, 30, -1]))
        if rng.random() < 0.35:
            opts['te'] = max(0, base + rng.choice([0, 1, 2, 5, 10, 20, 40]))
        plan = {'rec': rec, 'cut': None, 'opts': opts, 'bufsize': rng.choice([16, 64, 512, 8192])}
        if rng.random() < 0.12:
            rec['data'].append(['L', 54, rec['start'], b'bad\xff'.hex()])
            plan['broken'] = True
            opts['ignore'] = rng.random() < 0.7
        if rng.random() < 0.3:
            plan['cut'] = rng.randrange(16, len(raw) + 1)
        probe = run(plan)
        places = [s for s, op, _, _ in probe.ops if op in ('read', 'open')]
        for _ in range(3):
            if places:
                yield dict(plan, faults=[{'step': rng.choice(places), 'kind': rng.choice(['eio_read', 'eio_read', 'nomem', 'eio_open',
                                                                                       'eintr', 'short_io'])}])

    def expect(self, plan, path):
        topics = self.content(plan, path)['topics']
        key = plan['opts']['message'] + '/0'
        if key in topics and (plan['opts']['ts'] or plan['opts']['te']):
            stamps = columns(topics[key])['timestamp']
            if list(stamps) != sorted(stamps):
                raise NotConvertible()
        return topics.get(key)

    def may_fail(self, plan, want, result):
        return want is None and result[1] == 'AttributeError'

    def nontrivial(self, plan, want):
        return bool(want and want['n'] > 1)

    def convert(self, plan, sim, world, root, out, path):
        from pyulog.extract_message import extract_message
        opts = plan['opts']
        before = dict(sim.fired)
        got = sim.run_inline(lambda: outcome(extract_message, path, opts['message'], opts['ts'], opts['te'],
                                             *([True] if opts.get('ignore') else [])))
        new = {k: n - before.get(k, 0) for k, n in sim.fired.items() if n > before.get(k, 0)}
        return got, got[1] if got[0] == 'ok' else None, new

    def check(self, plan, want, out, path, text):
        opts = plan['opts']
        if want is None:
            raise Violation('no-such-topic', 'but %r' % (text,))
        cols = columns(want)
        names = [f for f, _ in want['fields']]
        names.sort(key=lambda n: n != 'timestamp')
        types = dict(map(tuple, want['fields']))
        rows = [i for i, t in enumerate(cols['timestamp'])
                if t >= (opts['ts'] or 0) * 10 ** 6 and not (opts['te'] and t >= opts['te'] * 10 ** 6)]
        if len(text) != len(rows):
            raise Violation('records', 'expected %d, got %d' % (len(rows), len(text)))
        for i, row in zip(rows, text):
            if list(row) != names:
                raise Violation('fields', 'expected %s, got %s' % (names, list(row)))
            for name, value in row.items():
                expect = cols[name][i]
                same = (value != value) if expect != expect else (value == expect and str(float(value))[0] == str(float(expect))[0])
                if not same:
                    raise Violation('value', '%s (%s) record %d: expected %r, got %r' % (name, types[name], i, expect, value))


del json
