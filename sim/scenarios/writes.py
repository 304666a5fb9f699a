""" W01, W02: writing a loaded log """
import copy
import os
import random as _random
import struct

import numpy as np

from .. import content as C
from .. import recorder as R
from .. import simio
from ..core import SimKilled, Violation
from .base import canon, outcome, random_source, read_file, require_same, shrink_recording
from .loads import DISK, READERS, Append, Load, ULog, append_section, valid_sections

WRITER = READERS + ['pyulog.core.ULog.write_ulog']


def in_time_order(view):
    """ text messages are written in the order of their time stamps """
    view = dict(view)
    view['text'] = sorted(view['text'], key=lambda m: m[1])
    view['tagged'] = {k: sorted(v, key=lambda m: m[2]) for k, v in view['tagged'].items()}
    view['corrupt'] = False
    # a NaN is rewritten as NaN, not necessarily with the same payload
    view['topics'] = {key: dict(topic, cols={name: plain_nan(dict(map(tuple, topic['fields'])).get(name), col)
                                             for name, col in topic['cols'].items()})
                      for key, topic in view['topics'].items()}
    return view


def drop_shared_ids(want, view):
    """ an id that stood for one topic after the other cannot be kept for both """
    ids = [topic['id'] for topic in want['topics'].values()]
    shared = {key for key, topic in want['topics'].items() if topic['id'] is None or ids.count(topic['id']) > 1}
    return dict(view, topics={key: dict(topic, id=None) if key in shared else topic for key, topic in view['topics'].items()})


def plain_nan(kind, col):
    if kind not in ('float', 'double') or ':' in col:
        return col
    values = np.frombuffer(bytes.fromhex(col), dtype='<f4' if kind == 'float' else '<f8').copy()
    values[np.isnan(values)] = np.nan
    return values.tobytes().hex()


def writable(log):
    """ the precondition: a sample, and streams whose time does not run backwards """
    if not log.data_list:
        return False
    seen = set()
    for data in log.data_list:
        if (data.name, data.multi_id) in seen:
            return False
        seen.add((data.name, data.multi_id))
        stamps = data.data['timestamp']
        if len(stamps) == 0 or (stamps[1:] < stamps[:-1]).any():
            return False
    params = list(log.initial_parameters.values()) + [v for _, _, v in log.changed_parameters]
    for bit in range(8):
        params += list(log.get_default_parameters(bit).values())
    for lists in log.msg_info_multiple_dict.values():
        if len({type(v) for items in lists for v in items}) > 1:
            return False        # damage hit the type of one part; the parts of one key share one type
    return all(isinstance(v, (int, float)) for v in params)


def snapshot(log):
    return copy.deepcopy(log), bool(log.has_data_appended), bool(log.has_default_parameters)


def require_unchanged(before, log, where):
    """ writing a log must not change it """
    old, appended, defaults = before
    if (appended, defaults) != (bool(log.has_data_appended), bool(log.has_default_parameters)):
        raise Violation('log-flags-changed-by-writing', where)
    if not old == log:
        raise Violation('log-changed-by-writing', where + 'no longer equal to its former self')


def history_bytes(plan):
    """ the bytes of the log the plan describes (whole, cut, appended to, damaged) """
    rec = plan['rec']
    ends = None
    if plan.get('rounds'):
        raw, _, _, _ = Append().build(dict(plan, faults=plan.get('tails', [])))
        return raw
    raw, ends = R.encode(rec)
    damage = plan.get('damage')
    if damage:
        if damage['how'] == 'cut':
            return raw[:max(16, min(len(raw), damage['at']))]
        low = ends[len(rec['defs'])] if len(ends) > len(rec['defs']) else len(raw)
        image = bytearray(raw)
        rng = _random.Random(damage['pick'])
        if damage['how'] == 'zero':
            at = max(low, min(damage['at'], len(raw)))
            size = min(damage['len'], len(raw) - at)
            image[at:at + size] = bytes(size)
        else:
            # flipped bits in the payload of samples (not in their time stamp: it is anywhere, so accept any)
            msgs = rec['defs'] + rec['data']
            for i, m in enumerate(msgs):
                if m[0] == 'D' and rng.random() < 0.2 and len(m[2]) > 2:
                    first = ends[i] - len(m[2]) // 2
                    image[rng.randrange(first, ends[i])] ^= 1 << rng.randrange(8)
        return bytes(image)
    return raw


class Rewrite(Load):
    id = 'W01'
    real = WRITER + ['pyulog.db.DatabaseULog (save, load)', 'SQLite library']
    stub = DISK + ['SQLite VFS (simulated disk)']
    rule = ('one history per case (complete flight, cut, appended to after a crash, damaged region), loaded (optionally '
            'restricted to topics, or through the database), written to a path / file object / memory / raw file that takes '
            'fewer bytes than offered, loaded again, written again; non-trivial: at least two streams with samples and a text, '
            'parameter or dropout message among them; distinct by event log and workload')
    assumptions = ['parameters are int32 or float', 'all parts of a multi-part information have one type']
    quick_cases = 10500
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        shape = rng.choice(['whole', 'whole', 'cut', 'append', 'damage'])
        db = rng.random() < 0.15
        opts = {'msgs': rng.choice([15, 45, 120]), 'append': shape == 'append'}
        if db:
            opts.update({'db': True, 'max_fields': 4, 'msgs': 15})
        rec = R.generate(rng, opts)
        raw, ends = R.encode(rec)
        plan = {'rec': rec, 'rounds': [], 'damage': None, 'names': None, 'src': random_source(rng),
                'db': db, 'sink': rng.choice(['path', 'path', 'file', 'mem', 'raw'])}
        if shape == 'append':
            plan['rounds'] = [append_section(rng, rec, [])]
            if rng.random() < 0.5:
                plan['tails'] = [{'kind': 'tail', 'round': 0, 'how': rng.choice(['cut', 'zeros', 'both']),
                                  'at': rng.random(), 'zeros': rng.choice([1, 5, 100])}]
        elif shape == 'cut':
            plan['damage'] = {'how': 'cut', 'at': rng.randrange(16, len(raw) + 1)}
        elif shape == 'damage':
            plan['damage'] = {'how': rng.choice(['zero', 'flip']), 'at': rng.randrange(16, len(raw) + 1),
                              'len': rng.choice([3, 20, 100, 600]), 'pick': rng.getrandbits(32)}
        if rng.random() < 0.3:
            names = sorted({m[3] for m in rec['data'] if m[0] == 'A'})
            plan['names'] = [n for n in names if rng.random() < 0.7]
        if plan['sink'] == 'raw':
            plan['chunks_out'] = [rng.choice([1, 3, 7, 100, 4096]) for _ in range(3)]
        yield plan

    def shrink(self, plan):
        if plan['db']:
            yield dict(plan, db=False)
        if plan['sink'] != 'path':
            yield dict(plan, sink='path')
        if plan['damage']:
            yield dict(plan, damage=None)
        if plan.get('tails'):
            yield dict(plan, tails=[])
        if plan['rounds']:
            yield dict(plan, rounds=[], tails=[])
            for k in range(len(plan['rounds'][0])):
                rounds = [plan['rounds'][0][:k] + plan['rounds'][0][k + 1:]]
                if valid_sections(plan['rec'], rounds):
                    yield dict(plan, rounds=rounds)
        if plan['names'] is not None:
            yield dict(plan, names=None)
        for rec in shrink_recording(plan['rec']):
            if not plan['rounds'] or valid_sections(rec, plan['rounds']):
                yield dict(plan, rec=rec)

    def write(self, world, env, log, plan, name):
        """ -> bytes written """
        path = os.path.join(env.root, name)
        sink = plan['sink']
        if sink == 'path':
            log.write_ulog(path)
        elif sink == 'mem':
            import io
            out = io.BytesIO()
            log.write_ulog(out)
            return out.getvalue()
        elif sink == 'raw':
            world.chunks_out = plan.get('chunks_out') or []
            with simio.sim_open(path, 'wb', buffering=0) as out:
                log.write_ulog(out)
            world.chunks_out = []
        else:
            with simio.sim_open(path, 'wb') as out:
                log.write_ulog(out)
        return read_file(path)

    def execute(self, plan, env):
        raw = history_bytes(plan)
        sim, world = self.world(plan, env, max_steps=600 * len(raw) + 60000)
        got = self.load(env, sim, world, plan['src'], raw, plan['names'])
        if got[0] == 'error':
            raise Violation('load-failed', '%s: %s' % got[1:])
        log = got[1]
        if not writable(log):
            return
        want = canon(log)
        if plan['damage']:
            sim.fire('damage_' + plan['damage']['how'])
        for fault in plan.get('tails') or []:
            sim.fire('crash_then_append_' + fault['how'])
        if plan['db'] and want['info']:
            sim.probe('through the database')
        if plan['db']:
            log = self.through_db(plan, env, sim, world, raw, want)
        env.nontrivial = len(want['topics']) > 1 and bool(want['text'] or want['changed'] or want['dropouts'])
        before = snapshot(log)
        first = sim.run_inline(lambda: outcome(self.write, world, env, log, plan, 'first.ulg'))
        if first[0] == 'error':
            raise Violation('write-failed', '%s: %s' % first[1:])
        first = first[1]
        require_same(want, dict(canon(log), corrupt=want['corrupt']), 'log-changed-by-writing')
        require_unchanged(before, log, '')
        if first[7] != raw[7]:
            raise Violation('file-version', 'recorded %d, rewritten %d' % (raw[7], first[7]))
        self.check_flags(plan, raw, first)
        try:
            parsed = R.decode(first)
            other = C.model_view(R.expected(parsed))
        except (ValueError, KeyError, IndexError, struct.error) as error:
            raise Violation('not-a-well-formed-log', repr(error)) from error
        again = self.load(env, sim, world, {'mode': 'path', 'bufsize': 8192}, first)
        if again[0] == 'error':
            raise Violation('rewritten-log-unreadable', '%s: %s' % again[1:])
        view = canon(again[1])
        if view['corrupt']:
            raise Violation('rewritten-log-corrupt', '')
        # what another reader, which knows nothing but the format, takes out of it
        require_same(in_time_order(view), in_time_order(other), 'other-reader', ('duplicates',))
        want = drop_shared_ids(want, want)
        require_same(in_time_order(want), in_time_order(drop_shared_ids(want, view)), 'content')
        second = sim.run_inline(lambda: outcome(self.write, world, env, again[1], plan, 'second.ulg'))
        if second[0] == 'error':
            raise Violation('second-write-failed', '%s: %s' % second[1:])
        if second[1] != first and (in_time_order(want) != want or any(t['id'] is None for t in want['topics'].values())):
            # the first rewrite put its messages in time order; from then on nothing may change any more
            require_same(in_time_order(want), in_time_order(drop_shared_ids(want, self.reload(env, sim, world, second[1]))), 'second-content')
            first = second[1]
            got = self.load(env, sim, world, {'mode': 'path', 'bufsize': 8192}, first)
            second = sim.run_inline(lambda: outcome(self.write, world, env, got[1], plan, 'third.ulg'))
        if second[1] != first:
            raise Violation('second-write-differs', '%d and %d bytes' % (len(first), len(second[1])))

    def reload(self, env, sim, world, data):
        got = self.load(env, sim, world, {'mode': 'path', 'bufsize': 8192}, data)
        if got[0] == 'error':
            raise Violation('rewritten-log-unreadable', '%s: %s' % got[1:])
        return canon(got[1])

    @staticmethod
    def check_flags(plan, raw, first):
        flags = plan['rec']['flags'] or [[0] * 8, [0] * 8]
        if len(raw) < 16 + 43:
            flags = [[0] * 8, [0] * 8]
        pos = 16
        while pos + 3 <= len(first):
            size = first[pos] | first[pos + 1] << 8
            if first[pos + 2] == ord('B'):
                compat = list(first[pos + 3:pos + 11])
                incompat = list(first[pos + 11:pos + 19])
                if compat != flags[0] or incompat != [flags[1][0] & 0xFE] + list(flags[1][1:]):
                    raise Violation('flags', 'recorded %s, rewritten %s %s' % (flags, compat, incompat))
                return
            pos += 3 + size
        if any(flags[0]):
            raise Violation('flags', 'recorded %s, none in the rewritten log' % flags)

    def through_db(self, plan, env, sim, world, raw, want):
        from pyulog.db import DatabaseULog
        from .dbase import template_db
        handle = template_db(sim, env)
        path = os.path.join(env.root, 'log.ulg')
        simio.attach(None)
        try:
            kwargs = {'message_name_filter_list': plan['names']} if plan['names'] is not None else {}
            log = DatabaseULog(handle, log_file=path, **kwargs)
            if plan['src']['bufsize'] == 16:
                return log          # written without having been saved
            saved = outcome(log.save)
            if saved[0] == 'error' and saved[1] == 'OverflowError':
                return log          # a damaged time stamp the database cannot hold
            if saved[0] == 'error':
                raise Violation('save-failed', '%s: %s' % saved[1:])
            log = DatabaseULog(handle, primary_key=log.primary_key, lazy=False)
        finally:
            simio.attach(world)
        require_same(dict(want, corrupt=False), dict(canon(log), corrupt=False), 'database-copy')
        return log


class FailingWrite(Load):
    id = 'W02'
    real = WRITER
    rule = ('one flight per case is loaded and written; then written again once per fault position: every intercepted open, '
            'write and close (all of them for small logs, random ones otherwise) fails with an I/O error, a full disk, a partial '
            'write or the death of the process; non-trivial: the fault fired; distinct by event log and workload')
    assumptions = ['a file object given by the user is closed by the user, and the rewrite counts as successful when that '
                   'close succeeds as well']
    quick_cases = 1500
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = R.generate(rng, {'modest': True, 'msgs': rng.choice([10, 30, 60]), 'append': rng.random() < 0.3})
        rounds = [append_section(rng, rec, [])] if rec['flags'] and rng.random() < 0.3 else []
        for sink in rng.sample(['path', 'path', 'file', 'raw'], 2):
            plan = {'rec': rec, 'rounds': rounds, 'damage': None,
                    'src': {'mode': 'path', 'bufsize': 8192}, 'sink': sink,
                    'outbuf': rng.choice([1, 16, 64, 256, 1024, 8192])}
            probe = run(plan)
            steps = {}
            for step, op, _, detail in probe.ops:
                if detail.startswith('out.ulg'):
                    steps.setdefault(op, []).append(step)
            picks = []
            for op, kinds in (('open', ['eio_open']), ('close', ['eio_close', 'kill']),
                              ('write', ['eio_write', 'enospc', 'enospc', 'kill', 'short_io', 'eio_write'])):
                places = steps.get(op, [])
                chosen = places if len(places) <= 4 else \
                    sorted(set([places[0], places[-1], places[1]] + rng.sample(places, 4)))
                for step in chosen:
                    picks.append((step, rng.choice(kinds)))
            for step, kind in picks:
                fault = {'step': step, 'kind': kind}
                if kind in ('eio_write', 'enospc'):
                    fault['part'] = rng.choice([0, 0, 30, 80])
                elif kind == 'kill':
                    fault['part'] = rng.choice([0, 1, 7, 60])
                yield dict(plan, faults=[fault])

    def shrink(self, plan):
        if plan.get('rounds'):
            yield dict(plan, rounds=[])
        for rec in shrink_recording(plan['rec']):
            if not plan.get('rounds') or valid_sections(rec, plan['rounds']):
                yield dict(plan, rec=rec)

    def execute(self, plan, env):
        import io
        raw = history_bytes(plan)
        sim, world = self.world(plan, env, max_steps=600 * len(raw) + 60000)
        simio.attach(None)
        mem = io.BytesIO(raw)
        log = ULog(mem)
        want = canon(log)
        if not writable(log):
            return
        before = snapshot(log)
        full_out = io.BytesIO()
        log.write_ulog(full_out)
        if full_out.closed:
            raise Violation('closed-callers-file', 'memory')
        full = full_out.getvalue()
        whole = canon(ULog(io.BytesIO(full)))
        simio.attach(world)
        world.bufsize = plan['outbuf'] if plan['outbuf'] > 1 else 2
        path = os.path.join(env.root, 'out.ulg')
        closed = []

        def work():
            if plan['sink'] == 'path':
                log.write_ulog(path)
            else:
                out = simio.sim_open(path, 'wb', buffering=0 if plan['sink'] == 'raw' else -1)
                try:
                    log.write_ulog(out)
                    closed.append(out.closed)
                finally:
                    out.close()

        def process():
            try:
                return outcome(work)
            except SimKilled:
                return ('killed',)
        res = sim.run_inline(process)
        env.nontrivial = bool(sim.fired)
        hard = [k for k in sim.fired if k in ('eio_write', 'enospc', 'eio_open', 'eio_close', 'disk_full', 'kill')]
        where = '%s, %s: ' % (plan['sink'], plan.get('faults'))
        if sim.stuck:
            raise Violation('no-progress', where)
        left = read_file(path) if os.path.exists(path) else None
        simio.attach(None)
        if any(closed):
            raise Violation('closed-callers-file', where)
        if res[0] == 'ok':
            if left is None:
                raise Violation('reported-success-without-file', where)
            if left != full:
                raise Violation('silent-loss', '%sreturned, but the file has %d of %d bytes' % (where, len(left), len(full)))
        elif res[0] == 'error':
            if not hard:
                raise Violation('write-failed', '%s%s: %s' % ((where,) + res[1:]))
            if res[1] not in ('OSError', 'PermissionError', 'FileNotFoundError'):
                raise Violation('wrong-error', '%s%s: %s' % ((where,) + res[1:]))
        if left is not None:
            check_leftover(left, whole, where)
        require_same(want, canon(log), 'log-changed-by-failed-write', what=where)
        require_unchanged(before, log, where)
        retry = outcome(self.rewrite, log, path)
        if retry != ('ok', full):
            raise Violation('retry-failed', '%s%s' % (where, retry[:3] if retry[0] == 'error' else 'other bytes'))

    @staticmethod
    def rewrite(log, path):
        log.write_ulog(path)
        return read_file(path)


def check_leftover(left, whole, where):
    """ what a failed write leaves behind: unreadable only without header, else a part of the log """
    import io
    got = outcome(ULog, io.BytesIO(left))
    if got[0] == 'error':
        if len(left) >= 16:
            raise Violation('leftover-unreadable', '%s%d bytes: %s: %s' % ((where, len(left)) + got[1:]))
        return
    view = canon(got[1])
    if view['start'] != whole['start']:
        raise Violation('leftover-start', where)
    if view['corrupt'] and not whole['corrupt']:
        raise Violation('leftover-corrupt', where)
    for key in ('formats', 'info', 'initial'):
        for name, value in view[key].items():
            if whole[key].get(name) != value:
                raise Violation('leftover-' + key, '%s%s' % (where, name))
    for bit, values in view['defaults'].items():
        for name, value in values.items():
            if whole['defaults'].get(bit, {}).get(name) != value:
                raise Violation('leftover-defaults', where)
    for key in ('text', 'changed', 'dropouts'):
        if whole[key][:len(view[key])] != view[key]:
            raise Violation('leftover-' + key, where)
    for tag, items in view['tagged'].items():
        if whole['tagged'].get(tag, [])[:len(items)] != items:
            raise Violation('leftover-tagged', where)
    for name, lists in view['multi'].items():
        have = whole['multi'].get(name, [])
        for i, part in enumerate(lists):
            if i >= len(have) or have[i][:len(part)] != part:
                raise Violation('leftover-multi', where + name)
    for key, topic in view['topics'].items():
        orig = whole['topics'].get(key)
        if orig is None or orig['fields'] != topic['fields'] or \
                not all(orig['cols'][f].startswith(v) for f, v in topic['cols'].items()):
            raise Violation('leftover-samples', where + key)
