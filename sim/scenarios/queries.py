""" L09, P01: using a log that has been loaded """
import contextlib
import io
import math
import os
import sqlite3
import struct
import warnings

import numpy as np

from .. import content as C
from .. import recorder as R
from ..core import Violation
from ..recorder import WIDTH
from .base import canon, open_source, outcome, random_source, require_same, switching_at_lines
from .loads import DISK, READERS, Load

LEVELS = {48: 'EMERGENCY', 49: 'ALERT', 50: 'CRITICAL', 51: 'ERROR', 52: 'WARNING', 53: 'NOTICE', 54: 'INFO', 55: 'DEBUG'}
MAV = {0: 'Generic', 1: 'Fixed Wing', 2: 'Quadrotor', 3: 'Coaxial helicopter', 4: 'Normal helicopter with tail rotor',
       5: 'Ground installation', 6: 'Ground Control Station', 7: 'Airship, controlled', 8: 'Free balloon, uncontrolled',
       9: 'Rocket', 10: 'Ground Rover', 11: 'Surface Vessel, Boat, Ship', 12: 'Submarine', 13: 'Hexarotor', 14: 'Octorotor',
       15: 'Tricopter', 16: 'Flapping wing', 17: 'Kite', 18: 'Onboard Companion Controller', 19: 'Two-rotor VTOL (Tailsitter)',
       20: 'Quad-rotor VTOL (Tailsitter)', 21: 'Tiltrotor VTOL', 22: 'VTOL Standard', 23: 'VTOL Tailsitter',
       24: 'VTOL reserved 4', 25: 'VTOL reserved 5', 26: 'Onboard Gimbal', 27: 'Onboard ADSB Peripheral'}
ATTITUDE = [('vehicle_attitude', ''), ('vehicle_vision_attitude', ''), ('vehicle_attitude_groundtruth', ''),
            ('vehicle_attitude_setpoint', '_d')]

IMAGE = []      # an empty database of the current schema


def column(topic, name):
    ftype = dict(topic['fields'])[name]
    code = {'bool': 'b', 'char': 'b'}.get(ftype, R.CODE[ftype])
    return struct.unpack('<%d%s' % (topic['n'], code), bytes.fromhex(topic['cols'][name]))


def column_values(topic, name):
    """ decoded, NaN comparable """
    return ['nan' if v != v else v for v in column(topic, name)]


def changes_of(topic, field):
    pairs = [(t, v) for t, v in zip(column(topic, 'timestamp'), column(topic, field)) if t]
    return pairs[:1] + [b for a, b in zip(pairs, pairs[1:]) if a[1] != b[1]]


def plain(pair):
    """ a (timestamp, value) of the log as Python numbers """
    return [int(pair[0]), 'nan' if pair[1] != pair[1] else (float(pair[1]) if isinstance(pair[1], (float, np.floating)) else int(pair[1]))]


def comparable(content):
    """ content where values that are equal look the same (0.0 and -0.0; any NaN) """
    def simple(value):
        if isinstance(value, list) and len(value) == 2 and value[0] == 'f':
            return ['f', 0.0 if value[1] != 'nan' and float.fromhex(value[1]) == 0 else value[1]]
        if isinstance(value, (list, tuple)):
            return [simple(v) for v in value]
        if isinstance(value, dict):
            return {k: simple(v) for k, v in value.items()}
        return value
    out = simple({k: v for k, v in content.items() if k not in ('topics', 'corrupt')})
    out['topics'] = {k: [t['id'], t['fields'], {f: [0 if v == 0 else v for v in column_values(t, f)] for f, _ in t['fields']}]
                     for k, t in content['topics'].items()}
    return out


def vary(rng, rec):
    """ a recording that differs in one place, or None """
    defs, data = [list(m) for m in rec['defs']], [list(m) for m in rec['data']]
    pick = rng.choice(['drop', 'byte', 'swap', 'value', 'value', 'start', 'double', 'field', 'shape', 'shape', 'shape', 'move'])
    picks = [i for i, m in enumerate(data) if m[0] == 'D']
    if pick == 'start':
        return dict(rec, start=rec['start'] + rng.choice([1, 1000]))
    if pick == 'drop' and data:
        i = rng.choice([i for i, m in enumerate(data) if m[0] != 'A'] or [None])
        if i is None:
            return None
        del data[i]
    elif pick == 'double' and picks:
        i = rng.choice(picks)
        data.insert(i, list(data[i]))
    elif pick == 'byte' and picks:
        i = rng.choice(picks)
        raw = bytearray.fromhex(data[i][2])
        k = rng.randrange(len(raw))
        raw[k] ^= 1 << rng.randrange(8)
        data[i][2] = raw.hex()
    elif pick == 'swap' and len(picks) > 1:
        i = rng.choice(picks)
        rest = [k for k in picks if k != i and data[k][1] == data[i][1]]
        if not rest:
            return None
        k = rng.choice(rest)
        data[i], data[k] = data[k], data[i]
    elif pick == 'value':
        items = [m for m in defs + data if m[0] in 'IMPQLCO']
        if not items:
            return None
        m = rng.choice(items)
        if m[0] == 'O':
            m[1] = (m[1] + rng.choice([1, 256])) % 65536
        elif m[0] in 'LC' and rng.random() < 0.5:
            m[1] = 48 + (m[1] + 1) % 8
        elif m[0] == 'C' and rng.random() < 0.4:
            m[2] = (m[2] + 1) % 65536
        elif m[0] in 'LC' and rng.random() < 0.4:
            m[-2] += 1
        elif m[0] == 'M' and rng.random() < 0.4:
            m[1] ^= 1
        elif m[0] == 'Q' and rng.random() < 0.4:
            m[1] = 3 - m[1] if m[1] < 3 else 1
        else:
            raw = bytearray.fromhex(m[-1])
            if not raw:
                return None
            k = rng.randrange(len(raw))
            raw[k] = (raw[k] + 1) % 128
            m[-1] = raw.hex()
    elif pick == 'field':
        subs = [m for m in data if m[0] == 'A']
        if not subs:
            return None
        rng.choice(subs)[1] ^= 64
    elif pick == 'shape':
        # the same bytes, described otherwise
        shapes = [i for i, m in enumerate(defs) if m[0] == 'F']
        if not shapes:
            return None
        i = rng.choice(shapes)
        m = defs[i] = [defs[i][0], defs[i][1], [list(f) for f in defs[i][2]]]
        what = rng.choice(['type', 'field', 'field', 'name', 'name', 'id', 'split'])
        if what == 'name':
            old, m[1] = m[1], m[1] + 'n'
            for other in data:
                if other[0] == 'A' and other[3] == old:
                    other[3] = m[1]
            for k, other in enumerate(defs):
                if other[0] == 'F':
                    defs[k] = ['F', other[1], [[m[1] if f[0] == old else f[0]] + list(f[1:]) for f in other[2]]]
        elif what == 'id':
            used = {n[2] for n in data if n[0] == 'A'} | {n[1] for n in data if n[0] in 'DR'}
            if not used:
                return None
            old, new = rng.choice(sorted(used)), rng.choice([n for n in range(300) if n not in used])
            for n in data:
                at = {'A': 2, 'D': 1, 'R': 1}.get(n[0])
                if at and n[at] == old:
                    n[at] = new
        else:
            able = [f for f in m[2] if f[2] != 'timestamp' and not f[2].startswith('_')]
            if not able:
                return None
            f = rng.choice(able)
            if what == 'field':
                f[2] += '9'
            elif what == 'type' and f[0] in WIDTH:
                f[0] = rng.choice([t for t in sorted(WIDTH) if WIDTH[t] == WIDTH[f[0]] and t != f[0]])
            elif f[1] == 0 and what == 'split':
                f[1] = 1
            else:
                return None
    elif pick == 'move' and len(data) > 2:
        able = [i for i in range(1, len(data)) if data[i][0] in 'OPLC' and data[i - 1][0] != 'A']
        if not able:
            return None
        i = rng.choice(able)
        data[i - 1], data[i] = data[i], data[i - 1]
    else:
        return None
    return dict(rec, defs=defs, data=data)


class FailingSink(io.RawIOBase):
    def __init__(self, at):
        super().__init__()
        self.left = at
        self.failed = False

    def writable(self):
        return True

    def write(self, data):
        self.left -= len(data)
        if self.left < 0:
            self.failed = True
            raise OSError(28, 'No space left on device')
        return len(data)


class Queries(Load):
    id = 'L09'
    rule = ('a log loaded from a file or taken out of a database, then a random history of queries, comparisons, rewrites and failing '
            'rewrites on the one object, in one to three simulated threads switched at line boundaries inside pyulog; every answer is '
            'compared with the recording; non-trivial: at least five answered operations and one refused or failed one, or a context '
            'switch inside an operation; distinct by event log and workload')
    stub = DISK + ['thread scheduler (simulated)', 'database connections (in memory) of the logs taken out of a database']
    assumptions = ['a context switch happens between source lines', 'logs of a database are used by one thread each']
    quick_cases = 1800
    thorough_cases = 1000000
    special = ()

    def recording(self, rng):
        rec = R.generate(rng, {'modest': True, 'msgs': rng.choice([5, 10, 20]), 'topics': 3, 'max_fields': 4, 'nonmono': rng.random() < 0.2,
                               'zero_stamps': rng.choice([0, 0, 0.2, 0.5]),
                               'append': rng.random() < 0.4, 'db': True})
        if rec['flags'] and rec['version'] == 1 and rng.random() < 0.4:
            rec['flags'][1][0] |= 1         # data may get appended, but nothing has been
        if rng.random() < 0.3:
            kind = rng.choice([0, 1, 63, 64, 65, 127, 128, 191, 192, 193, 254, 255])
            # a part of the version can be zero, and so can be the whole word
            word = sum(rng.choice([0, 0, 1, 255, rng.randrange(256)]) << shift for shift in (24, 16, 8)) | kind
            word *= rng.random() > 0.15
            name = rng.choice(['ver_sw_release', 'ver_sw_release', 'ver_os'])
            rec['defs'] = [m for m in rec['defs'] if m[0] != 'I' or m[2] != name] + \
                [['I', 'uint32_t', name, struct.pack('<I', word).hex()]]
        return rec

    def operation(self, rng, keys, rec):
        pick = rng.choice(['get', 'get', 'absent', 'changes', 'changes', 'defaults', 'version', 'version_str', 'flags', 'levels',
                           'view', 'write', 'failing-write', 'equal', 'differs', 'differs'])
        if pick in ('get', 'changes'):
            if not keys:
                return ['flags']
            return [pick, rng.choice(keys), rng.random(), rng.random() < 0.5]
        if pick == 'absent':
            names = sorted({m[1] for m in rec['defs'] if m[0] == 'F'}) + ['not_there', '']
            return [pick, rng.choice(names), rng.choice([0, 0, 1, 2, 7, 255])]
        if pick == 'defaults':
            return [pick, rng.choice([0, 1, 2])]
        if pick in ('version', 'version_str'):
            return [pick, rng.choice([None, None, 'ver_os', 'not_there'])]
        if pick == 'failing-write':
            return [pick, rng.choice([0, 10, 16, 60, 300, 1000])]
        if pick == 'differs':
            other = vary(rng, rec)
            return [pick, other] if other else ['equal']
        return [pick]

    def plans(self, rng, run, tier):
        rec = self.recording(rng)
        names = None
        topics = sorted({m[3] for m in rec['data'] if m[0] == 'A'})
        if rng.random() < 0.2:
            names = [n for n in topics if rng.random() < 0.6]
        for _ in range(3):
            mode = rng.choice(['file', 'file', 'file', 'db-full', 'db-lazy'])
            if mode != 'file':
                names_now = None
            else:
                names_now = names
            keys = sorted(R.expected(rec, names_now)['topics'])
            threads = rng.choice([1, 1, 2, 3]) if mode == 'file' else 1
            plan = {'rec': rec, 'src': random_source(rng), 'names': names_now, 'from': mode, 'preempt': [],
                    'threads': [[self.operation(rng, keys, rec) for _ in range(rng.choice([3, 6, 10]))] for _ in range(threads)]}
            plan['src']['bufsize'] = max(100, plan['src']['bufsize'])
            if threads == 1:
                yield plan
                continue
            probe = run(plan)
            total = max(1, probe.steps)
            for _ in range(2):
                steps = {rng.randrange(1, total + 1) for _ in range(rng.choice([2, 6, 20]))}
                yield dict(plan, preempt=[[s, rng.randrange(3)] for s in sorted(steps)])

    def shrink(self, plan):
        for i, ops in enumerate(plan['threads']):
            if len(plan['threads']) > 1:
                yield dict(plan, threads=plan['threads'][:i] + plan['threads'][i + 1:])
            for k in range(len(ops)):
                threads = list(plan['threads'])
                threads[i] = ops[:k] + ops[k + 1:]
                yield dict(plan, threads=threads)
        if not any(op[0] == 'differs' for ops in plan['threads'] for op in ops):
            yield from super().shrink(plan)

    # -- loading
    @staticmethod
    def database():
        """ an in-memory database of the current schema -> handle """
        from pyulog.db import DatabaseULog
        import pyulog
        con = sqlite3.connect(':memory:', detect_types=sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES, check_same_thread=False)
        con.execute('PRAGMA foreign_keys=on')
        if IMAGE:
            con.deserialize(IMAGE[0])
            return con, lambda: con
        folder = os.path.join(os.path.dirname(pyulog.__file__), 'sql')
        for version in range(1, DatabaseULog.SCHEMA_VERSION + 1):
            with open(os.path.join(folder, 'pyulog.%d.sql' % version), encoding='utf-8') as inp:
                con.executescript(inp.read())
        con.execute('PRAGMA user_version = %d' % DatabaseULog.SCHEMA_VERSION)
        IMAGE.append(con.serialize())
        return con, lambda: con

    def execute(self, plan, env):
        rec = plan['rec']
        raw, _ = R.encode(rec)
        sim, world = self.world(plan, env, max_steps=3000000)
        arg, path = open_source(world, env, plan['src'], raw)
        want = C.model_view(R.expected(rec, plan['names']))
        state = {'log': None, 'want': want, 'lazy': plan['from'] == 'db-lazy', 'rec': rec, 'names': plan['names'], 'answers': 0,
                 'refused': 0, 'inside': 0, 'rewritten': None, 'raw': raw, 'path': path, 'threads': len(plan['threads'])}
        con = None
        if plan['from'] == 'file':
            got = outcome(self.load_file, arg, plan['names'])
        else:
            con, handle = self.database()
            got = outcome(self.load_stored, handle, path, plan['from'] == 'db-lazy')
        try:
            if got[0] == 'error':
                raise Violation('load-failed', '%s: %s' % got[1:])
            state['log'] = got[1]
            self.prepare(state)
            problems = []

            def client(i, ops):
                def body():
                    for op in ops:
                        before = sim.switches
                        try:
                            self.step(sim, state, op)
                        except Violation as found:
                            problems.append((i, op, found))
                            return
                        except Exception as exc:  # pylint: disable=broad-except
                            problems.append((i, op, Violation('fails', '%s: %s' % (type(exc).__name__, exc))))
                            return
                        state['inside'] += sim.switches != before
                return body
            for i, ops in enumerate(plan['threads']):
                sim.spawn('user%d' % i, client(i, ops))
            sim.run()
            if sim.stuck:
                raise Violation('no-progress', '')
            for i, op, found in problems:
                raise Violation(found.kind, 'thread %d %s: %s' % (i, str(op)[:120], found.detail))
            self.check_view(state)
        finally:
            if con is not None:
                con.close()
        if any(len(ops) and op[0] == 'failing-write' for ops in plan['threads'] for op in ops):
            sim.probe('operations failed in between')
        env.nontrivial = state['answers'] >= 5 and state['refused'] > 0 or state['inside'] > 0

    @staticmethod
    def load_file(arg, names):
        from pyulog import ULog
        return ULog(arg, names)

    @staticmethod
    def load_stored(handle, path, lazy):
        from pyulog.db import DatabaseULog
        log = DatabaseULog(handle, log_file=path)
        log.save()
        return DatabaseULog(handle, primary_key=log.primary_key, lazy=lazy)

    def prepare(self, state):
        """ what the first rewrite gives """
        if state['lazy'] or not state['want']['topics']:
            return
        out = io.BytesIO()
        got = outcome(state['log'].write_ulog, out)
        if got[0] == 'error':
            raise Violation('fails', 'write_ulog: %s: %s' % got[1:])
        state['rewritten'] = out.getvalue()

    def check_view(self, state):
        if state['lazy']:
            have = canon(state['log'], [])
            require_same(dict(state['want'], topics={}), have, 'changed')
            return
        require_same(state['want'], canon(state['log']), 'changed')

    # -- operations
    def step(self, sim, state, op):
        other = None
        if op[0] in ('equal', 'differs'):
            other = self.load_file(io.BytesIO(state['raw'] if op[0] == 'equal' else R.encode(op[1])[0]), state['names'])
        with switching_at_lines(sim) if state['threads'] > 1 else contextlib.nullcontext():
            answer = self.ask(state, op, other)
        self.judge(state, op, answer)

    def ask(self, state, op, other=None):
        log, kind = state['log'], op[0]
        if kind in ('get', 'changes'):
            name, multi = op[1].rsplit('/', 1)
            got = outcome(log.get_dataset, name) if multi == '0' and op[3] else outcome(log.get_dataset, name, int(multi))
            if kind == 'changes' and got[0] == 'ok':
                fields = [f for f, _ in state['want']['topics'][op[1]]['fields']]
                field = fields[int(op[2] * len(fields))]
                return field, outcome(got[1].list_value_changes, field)
            return got
        if kind == 'absent':
            return outcome(log.get_dataset, op[1], op[2])
        if kind == 'defaults':
            return outcome(log.get_default_parameters, op[1])
        if kind == 'version':
            return outcome(log.get_version_info, *([op[1]] if op[1] else []))
        if kind == 'version_str':
            return outcome(log.get_version_info_str, *([op[1]] if op[1] else []))
        if kind == 'flags':
            return outcome(lambda: (bool(log.has_data_appended), bool(log.has_default_parameters), bool(log.file_corruption)))
        if kind == 'levels':
            return outcome(lambda: ([m.log_level_str() for m in log.logged_messages],
                                    {tag: [m.log_level_str() for m in msgs] for tag, msgs in log.logged_messages_tagged.items()}))
        if kind == 'view':
            return None
        if kind == 'write':
            out = io.BytesIO()
            return outcome(log.write_ulog, out), out
        if kind == 'failing-write':
            out = FailingSink(op[1])
            return outcome(log.write_ulog, out), out
        if kind in ('equal', 'differs'):
            return outcome(lambda: (bool(other == log), bool(log == other), bool(other != log), bool(log != other)))
        raise ValueError(kind)

    def judge(self, state, op, answer):
        want, kind = state['want'], op[0]
        if kind == 'view':
            self.check_view(state)
            return
        if kind in ('write', 'failing-write'):
            got, out = answer
            if state['lazy'] or (state['rewritten'] is None and got[0] == 'error'):
                if got[0] == 'ok' and state['lazy']:
                    raise Violation('written-without-data', '')
                state['refused'] += 1
            elif kind == 'write':
                if got[0] == 'error':
                    raise Violation('fails', '%s: %s' % got[1:])
                if state['rewritten'] is not None and out.getvalue() != state['rewritten']:
                    raise Violation('rewritten-differently', '')
            elif out.failed and got[0] == 'ok':
                raise Violation('failure-not-reported', '')
            elif out.failed:
                state['refused'] += 1
            state['answers'] += 1
            return
        if kind == 'absent':
            key = '%s/%d' % (op[1], op[2])
            if key in want['topics']:
                return
            if answer[0] == 'ok':
                raise Violation('invented-dataset', key)
            if answer[1] not in ('KeyError', 'IndexError', 'ValueError'):
                raise Violation('wrong-error', '%s: %s: %s' % ((key,) + answer[1:]))
            state['refused'] += 1
            return
        field = None
        if kind == 'changes' and isinstance(answer[1], tuple):
            field, answer = answer
        if answer[0] == 'error':
            raise Violation('fails', '%s: %s' % answer[1:])
        got = answer[1]
        state['answers'] += 1
        if kind == 'get':
            name, multi = op[1].rsplit('/', 1)
            if (got.name, got.multi_id) != (name, int(multi)):
                raise Violation('wrong-dataset', '%s/%s' % (got.name, got.multi_id))
            require_same(want['topics'][op[1]], self.recorded(C.canon_topic(got)), 'dataset')
        elif kind == 'changes':
            have = [plain(p) for p in got]
            expect = [plain(p) for p in changes_of(want['topics'][op[1]], field)]
            if have != expect:
                raise Violation('value-changes', '%s: expected %s, got %s' % (field, expect[:6], have[:6]))
        elif kind == 'defaults':
            require_same(want['defaults'].get(str(op[1]), {}), {k: C.canon_value(v) for k, v in got.items()}, 'defaults')
        elif kind in ('version', 'version_str'):
            word = want['info'].get(op[1] or 'ver_sw_release')
            if word is not None and word[0] != 'i':
                return
            expect = None if word is None else tuple(word[1] >> shift & 255 for shift in (24, 16, 8, 0))
            if kind == 'version_str' and expect is not None:
                suffix = [s for least, s in ((255, ''), (192, ' (RC)'), (128, ' (beta)'), (64, ' (alpha)'), (0, None)) if expect[3] >= least][0]
                expect = None if suffix is None else 'v%d.%d.%d%s' % (expect[:3] + (suffix,))
            if got != expect or (expect is not None and type(got) is not type(expect)):
                raise Violation('version', 'expected %r, got %r' % (expect, got))
        elif kind == 'flags':
            flags = state['rec']['flags'] or [[0], [0]]
            expect = (bool(flags[1][0] & 1), bool(flags[0][0] & 1), False)
            if got != expect:
                raise Violation('flags', 'expected %s, got %s' % (expect, got))
        elif kind == 'levels':
            text = [LEVELS.get(m[0], 'UNKNOWN') for m in want['text']]
            tagged = {int(tag): [LEVELS.get(m[0], 'UNKNOWN') for m in msgs] for tag, msgs in want['tagged'].items()}
            if got[0] != text or got[1] != tagged:
                raise Violation('levels', 'expected %s %s, got %s' % (text[:5], tagged, str(got)[:200]))
        elif kind == 'equal':
            if not state['lazy'] and got != (True, True, False, False):
                raise Violation('not-equal', 'two loads of the same log: %s' % (got,))
        elif kind == 'differs':
            other = R.expected(op[1], state['names'])
            if not state['lazy'] and comparable(C.model_view(other)) != comparable(want) and got != (False, False, True, True):
                raise Violation('equal', 'two different logs: %s; %s' % (got, C.diff(want, C.model_view(other))))

    @staticmethod
    def recorded(topic):
        return topic


class Px4View(Queries):
    id = 'P01'
    rule = ('a log with attitude topics loaded from a file or a database, then a random history of PX4-specific queries, of adding the '
            'attitude angles (repeatedly, for all or chosen topics), of ordinary queries and of rewrites; non-trivial: the angles were '
            'added and the log was used afterwards; distinct by event log and workload')
    assumptions = ['attitude topics hold unit quaternions in four floats', 'angles within 0.14 rad of gimbal lock: only the pitch is judged']
    quick_cases = 2600
    thorough_cases = 1000000

    def recording(self, rng):
        special = []
        for name, suffix in ATTITUDE + [('other_attitude', '')]:
            if rng.random() < 0.5:
                fields = [['uint64_t', 0, 'timestamp'], ['float', 4, 'q' + suffix]]
                if name == 'other_attitude':
                    fields.append(['float', 4, 'q_d'])
                extra = rng.random() < 0.4
                if extra:
                    fields.insert(rng.choice([1, 2]), ['float', 0, 'rollspeed'])
                special.append({'name': name, 'fields': fields, 'make': self.attitude(fields), 'min': rng.choice([1, 3, 10])})
        rec = R.generate(rng, {'modest': True, 'msgs': 12, 'topics': 1, 'max_fields': 2, 'special': special, 'db': True})
        params = []
        if rng.random() < 0.8:
            params.append(['MAV_TYPE', rng.choice([rng.randrange(30), rng.randrange(30), rng.randrange(30), 1, -1])])
        if rng.random() < 0.6:
            params.append(['SYS_MC_EST_GROUP', rng.choice([0, 1, 2, 3, 4, -1])])
        for name in ('RC_MAP_ROLL', 'RC_MAP_PITCH', 'RC_MAP_ACRO_SW', 'RC_MAP_AUX1', 'RC_MAPPING', 'XRC_MAP_YAW'):
            if rng.random() < 0.5:
                params.append([name, rng.choice([0, 1, 1, 2, 3, 18, -1, -2])])
        rng.shuffle(params)
        rec['defs'] = rec['defs'] + [['P', 'int32_t', n, struct.pack('<i', v).hex()] for n, v in params]
        if rng.random() < 0.4 and params:
            # changed in flight: the initial value counts
            rec['data'] = rec['data'] + [['P', 'int32_t', params[0][0], struct.pack('<i', 5).hex()]]
        return rec

    @staticmethod
    def attitude(fields):
        def make(rng, begin, count, multi):
            at = begin
            for _ in range(count):
                at += rng.choice([1, 1000, 50000])
                pick = rng.random()
                if pick < 0.5:
                    q = [rng.gauss(0, 1) for _ in range(4)]
                elif pick < 0.8:
                    # nose up or down (nearly), any roll and yaw
                    roll, pitch, yaw = rng.uniform(-3, 3), rng.choice([-1, 1]) * math.pi / 2, rng.uniform(-3, 3)
                    if rng.random() < 0.5:
                        pitch += rng.choice([-1, 1]) * rng.choice([1e-7, 1e-4, 0.01])
                    q = quaternion(roll, pitch, yaw)
                else:
                    q = rng.choice([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0], [1, 1, 0, 0], [1, 0, 1, 0]])
                size = math.sqrt(sum(v * v for v in q)) or 1
                q = [v / size for v in q]
                if rng.random() < 0.05:
                    q = rng.choice([[0, 0, 0, 0], [float('nan')] * 4])
                body = b''
                for ftype, array, name in fields:
                    if name == 'timestamp':
                        body += struct.pack('<Q', at)
                    elif array:
                        body += struct.pack('<4f', *q)
                        q = q[1:] + q[:1]
                    else:
                        body += struct.pack('<f', 0.25)
                yield at, body
        return make

    def operation(self, rng, keys, rec):
        pick = rng.choice(['mav', 'estimator', 'rc', 'rc', 'rpy', 'rpy', 'rpy', 'rpy-one', 'base', 'base', 'base'])
        if pick == 'base':
            while True:
                op = super().operation(rng, keys, rec)
                if op[0] not in ('equal', 'differs'):
                    return op
        if pick == 'rc':
            return [pick, rng.choice([0, 0, 1, 2, 17])]
        if pick == 'rpy-one':
            return [pick, rng.choice([n + (':_d' if s else '') for n, s in ATTITUDE] + ['other_attitude', 'other_attitude:_d', 'not_there'])]
        return [pick]

    def plans(self, rng, run, tier):
        rec = self.recording(rng)
        keys = sorted(R.expected(rec)['topics'])
        for _ in range(3):
            src = random_source(rng)
            src['bufsize'] = max(100, src['bufsize'])
            yield {'rec': rec, 'src': src, 'names': None, 'from': rng.choice(['file', 'file', 'db-full']), 'preempt': [],
                   'threads': [[self.operation(rng, keys, rec) for _ in range(rng.choice([4, 8, 14]))]]}

    def prepare(self, state):
        super().prepare(state)
        state['derived'] = set()

    def execute(self, plan, env):
        super().execute(plan, env)
        kinds = [op[0] for op in plan['threads'][0]] if plan['threads'] else []
        first = next((i for i, k in enumerate(kinds) if k.startswith('rpy')), len(kinds))
        env.nontrivial = first + 1 < len(kinds)

    @staticmethod
    def recorded(topic):
        names = [f for f, _ in topic['fields']]
        return dict(topic, cols={k: v for k, v in topic['cols'].items() if k in names})

    def check_view(self, state):
        log = state['log']
        have = canon(log)
        have['topics'] = {k: self.recorded(t) for k, t in have['topics'].items()}
        require_same(state['want'], have, 'changed')
        for data in log.data_list:
            key = '%s/%d' % (data.name, data.multi_id)
            suffixes = [s for n, s in sorted(state['derived']) if n == data.name]
            extra = set(data.data) - {f for f, _ in state['want']['topics'][key]['fields']}
            expect = {n + s for n in ('roll', 'pitch', 'yaw') for s in suffixes}
            if extra != expect:
                raise Violation('derived-fields', '%s: %s instead of %s' % (key, sorted(extra), sorted(expect)))
            for suffix in suffixes:
                self.check_angles(key, state['want']['topics'][key], data, suffix)

    @staticmethod
    def check_angles(key, topic, data, suffix):
        q = list(zip(*[column(topic, 'q%s[%d]' % (suffix, i)) for i in range(4)]))
        angles = [data.data[n + suffix] for n in ('roll', 'pitch', 'yaw')]
        if any(len(a) != len(q) for a in angles):
            raise Violation('angles', '%s: %s values for %d samples' % (key, [len(a) for a in angles], len(q)))
        for i, (w, x, y, z) in enumerate(q):
            size = w * w + x * x + y * y + z * z
            if not abs(size - 1) < 1e-3:
                continue
            roll, pitch, yaw = (float(a[i]) for a in angles)
            where = '%s sample %d, q = %s: %s' % (key, i, (w, x, y, z), (roll, pitch, yaw))
            sine = max(-1.0, min(1.0, 2 * (w * y - z * x)))
            if not abs(math.sin(pitch) - sine) < 1e-5 or not abs(pitch) < math.pi / 2 + 1e-5:
                raise Violation('pitch', where)
            if abs(sine) > 0.99:
                continue
            for name, angle, up, down in (('roll', roll, 2 * (w * x + y * z), 1 - 2 * (x * x + y * y)),
                                          ('yaw', yaw, 2 * (w * z + x * y), 1 - 2 * (y * y + z * z))):
                if not abs(math.remainder(angle - math.atan2(up, down), 2 * math.pi)) < 1e-4 or not abs(angle) < math.pi + 1e-5:
                    raise Violation(name, where)

    def ask(self, state, op, other=None):
        from pyulog.px4 import PX4ULog
        view = PX4ULog(state['log'])
        if op[0] == 'mav':
            return outcome(view.get_mav_type)
        if op[0] == 'estimator':
            return outcome(view.get_estimator)
        if op[0] == 'rc':
            return outcome(view.get_configured_rc_input_names, op[1])
        if op[0] in ('rpy', 'rpy-one'):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return outcome(view.add_roll_pitch_yaw, *([[op[1]]] if op[0] == 'rpy-one' else []))
        return super().ask(state, op, other)

    def judge(self, state, op, answer):
        params = {k: v[1] for k, v in state['want']['initial'].items() if v[0] == 'i'}
        if op[0] not in ('mav', 'estimator', 'rc', 'rpy', 'rpy-one'):
            super().judge(state, op, answer)
            return
        if answer[0] == 'error':
            raise Violation('fails', '%s: %s' % answer[1:])
        state['answers'] += 1
        if op[0] == 'mav':
            expect = MAV.get(params.get('MAV_TYPE'), 'unknown type')
        elif op[0] == 'estimator':
            group = params.get('SYS_MC_EST_GROUP', 2)
            expect = ['INAV', 'LPE', 'EKF2', 'Q'][group] if 0 <= group <= 3 else 'unknown (%d)' % group
            if params.get('MAV_TYPE') == 1:
                expect = 'EKF2'
        elif op[0] == 'rc':
            expect = [k[7:].capitalize() for k in params if k.startswith('RC_MAP_') and params[k] == op[1] + 1] or None
            if sorted(expect or []) != sorted(answer[1] or []) or (expect is None) != (answer[1] is None):
                raise Violation('rc-names', 'expected %s, got %s' % (expect, answer[1]))
            return
        else:
            state['derived'] |= set(ATTITUDE) if op[0] == 'rpy' else {tuple((op[1] + ':').split(':')[:2])}
            self.check_view(state)
            return
        if answer[1] != expect:
            raise Violation(op[0], 'expected %r, got %r' % (expect, answer[1]))


def quaternion(roll, pitch, yaw):
    cr, sr, cp, sp, cy, sy = (f(a / 2) for a in (roll, pitch, yaw) for f in (math.cos, math.sin))
    return [cr * cp * cy + sr * sp * sy, sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy]
