""" D01-D06: the database """
import json
import math
import sqlite3

from .. import content as C
from ..core import Violation
from .base import canon, outcome, require_same
from .dbase import (DB_REAL, DbScenario, count_diff, integrity, is_locked, load_and_compare, raw_connection, row_counts, small_log,
                    snapshot, sqlite_error, total)


def DatabaseULog():
    from pyulog.db import DatabaseULog as cls
    return cls


def crash_fault(rng, step):
    kind = rng.choice(['kill', 'power', 'power', 'power'])
    fault = {'step': step, 'kind': kind}
    if kind == 'power':
        fault['mode'] = rng.choice(['random', 'random', 'lose', 'keep', 'garbage'])
        fault['pick'] = rng.getrandbits(32)
    return fault


def crash_steps(rng, ops, count):
    """ steps of a fault-free run, those that change files preferred """
    hot = [s for s, op, _, _ in ops if op in ('write', 'sync', 'delete', 'trunc')]
    every = [s for s, _, _, _ in ops]
    out = []
    for _ in range(count):
        pool = hot if hot and rng.random() < 0.75 else every
        if pool:
            out.append(rng.choice(pool))
    return out


class History(DbScenario):
    """
    Clients (processes) work through scripts of saves, deletes and loads; crashes hit at any file operation; the
    survivors and restarted clients go on.  Every client owns its logs, so what must be there is known exactly.
    """
    def execute(self, plan, env):
        sim, disk, handle, logs = self.setup(plan, env)
        cls = DatabaseULog()
        stored, per_log, base = self.store(disk, handle, logs, plan['stored'])
        self.measure(disk, handle, logs, per_log)
        disk.settle()
        have = dict(stored)                 # index -> pk, acknowledged
        clients = [{'name': 'client%d' % c, 'ops': ops, 'pos': 0, 'doubt': None, 'errors': 0}
                   for c, ops in enumerate(plan['clients'])]
        crashes = 0

        def body(client):
            def run():
                me = sim.current
                if client['doubt'] is not None:
                    # restarted after a crash: find out what became of the operation
                    op, i = client['doubt']
                    got = outcome(cls.primary_key_from_sha256sum, handle, logs[i].sha)
                    if me.dead:
                        return
                    if got[0] == 'error':
                        if not is_locked(got):
                            raise_later(sim, Violation('lookup-failed', '%s: %s' % got[1:]))
                        client['errors'] += 1
                        return
                    settle_doubt(client, got[1], have)
                kept = {} if plan.get('keep') else None
                while client['pos'] < len(client['ops']):
                    op, i = client['ops'][client['pos']]
                    client['doubt'] = (op, i)
                    got = outcome(do_op, cls, handle, logs, have, op, i, kept)
                    if me.dead:
                        return
                    client['doubt'] = None
                    if got[0] == 'error':
                        if not is_locked(got):
                            raise_later(sim, Violation('operation-failed', '%s of log %d: %s: %s' % ((op, i) + got[1:])))
                            return
                        client['errors'] += 1
                        if client['errors'] > 3:
                            return
                        continue
                    if op == 'save':
                        have[i] = got[1]
                    elif op == 'delete':
                        have.pop(i, None)
                    elif op == 'load':
                        try:
                            require_same(logs[i].want, got[1], 'loaded', ('corrupt',), 'log %d: ' % i)
                        except Violation as exc:
                            raise_later(sim, exc)
                            return
                    client['pos'] += 1
            return run
        while True:
            todo = [c for c in clients if c['pos'] < len(c['ops']) or c['doubt']]
            if not todo or sim.stuck:
                break
            before = [(c['pos'], c['errors'], c['doubt']) for c in clients]
            fired = dict(sim.fired)
            for client in todo:
                sim.spawn(client['name'], body(client))
            sim.run()
            check_later(sim)
            env.states.append(self.state_of(disk))
            crashed = sum(sim.fired.get(k, 0) - fired.get(k, 0) for k in ('kill', 'power'))
            if crashed:
                crashes += crashed
                if plan.get('check_each'):
                    self.check(handle, logs, have, per_log, base, clients, disk)
            elif before == [(c['pos'], c['errors'], c['doubt']) for c in clients]:
                raise Violation('no-progress', 'clients cannot go on after the faults stopped')
        if sim.stuck:
            raise Violation('no-progress', '')
        env.nontrivial = crashes > 0
        self.check(handle, logs, have, per_log, base, clients, disk)

    def check(self, handle, logs, have, per_log, base, clients, disk):
        cls = DatabaseULog()
        doubtful = {c['doubt'][1]: c for c in clients if c['doubt']}
        got = outcome(integrity, handle)
        if got[0] == 'error' and got[1] == 'Violation':
            raise Violation('database-damaged', got[2])
        if got[0] == 'error':
            raise Violation('database-unusable', '%s: %s' % got[1:])
        present = []
        for log in logs:
            i = log.index
            pk = cls.primary_key_from_sha256sum(handle, log.sha)
            if i in doubtful:
                op = doubtful[i]['doubt'][0]
                if op in ('save', 'delete'):
                    if pk is not None:
                        present.append(i)
                        load_and_compare(handle, pk, log.want, 'half-done', 'log %d: ' % i)
                    continue
            if i in have:
                if pk is None:
                    raise Violation('lost', 'log %d was stored' % i)
                if pk != have[i]:
                    raise Violation('key-changed', 'log %d' % i)
                present.append(i)
                load_and_compare(handle, pk, log.want, 'changed', 'log %d: ' % i)
            elif pk is not None:
                raise Violation('not-gone', 'log %d was deleted or never saved' % i)
        counts = row_counts(handle)
        if counts != total(base, per_log, present):
            raise Violation('leftover-rows', '%s' % {t: (n, total(base, per_log, present).get(t))
                                                     for t, n in counts.items()
                                                     if n != total(base, per_log, present).get(t)})

    def shrink(self, plan):
        for c, ops in enumerate(plan['clients']):
            for k in range(len(ops)):
                clients = [list(o) for o in plan['clients']]
                del clients[c][k]
                if consistent(clients, plan['stored']):
                    yield dict(plan, clients=clients)
        if len(plan['clients']) > 1:
            for c in range(len(plan['clients'])):
                yield dict(plan, clients=plan['clients'][:c] + plan['clients'][c + 1:])
        for k in range(len(plan['stored'])):
            stored = plan['stored'][:k] + plan['stored'][k + 1:]
            if consistent(plan['clients'], stored):
                yield dict(plan, stored=stored)
        yield from super().shrink(plan)

    def script(self, rng, own, stored, length, weights):
        """ a script that makes sense for the logs in `own` """
        have = {i for i in stored if i in own}
        ops = []
        for _ in range(length):
            kind = rng.choice(weights)
            if kind == 'save' and set(own) - have:
                i = rng.choice(sorted(set(own) - have))
                have.add(i)
                ops.append(['save', i])
            elif kind == 'delete' and have:
                i = rng.choice(sorted(have))
                have.discard(i)
                ops.append(['delete', i])
            elif kind == 'load' and have:
                ops.append(['load', rng.choice(sorted(have))])
        return ops

    def plans(self, rng, run, tier):
        count = rng.choice([1, 2, 2, 3])
        logs = [small_log(rng) for _ in range(count)]
        for i, rec in enumerate(logs):
            rec['start'] += i * 1000003           # different content, different hash
        stored = [i for i in range(count) if rng.random() < self.stored_share]
        two = count > 1 and rng.random() < 0.35
        owners = [list(range(count))] if not two else [list(range(0, count, 2)), list(range(1, count, 2))]
        clients = [self.script(rng, own, stored, rng.choice(self.lengths), self.weights) for own in owners]
        if not any(clients):
            return
        plan = {'logs': logs, 'stored': stored, 'clients': clients, 'check_each': True, 'keep': rng.random() < 0.3}
        probe = run(plan)
        for _ in range(9):
            preempt = []
            if two and rng.random() < 0.7:
                steps = sorted({rng.randrange(1, probe.steps + 1) for _ in range(rng.choice([1, 3, 8]))})
                preempt = [[s, rng.randrange(3)] for s in steps]
            steps = crash_steps(rng, probe.ops, rng.choice([1, 1, 1, 2, 3]))
            yield dict(plan, faults=[crash_fault(rng, s) for s in sorted(steps)], preempt=preempt,
                       check_each=rng.random() < 0.7)


def consistent(clients, stored):
    have = set(stored)
    for ops in clients:
        for op, i in ops:
            if op == 'save':
                if i in have:
                    return False
                have.add(i)
            elif i not in have:
                return False
            elif op == 'delete':
                have.discard(i)
    return True


def do_op(cls, handle, logs, have, op, i, kept=None):
    """ kept: completely loaded objects whose log was deleted, to be saved again """
    if op == 'save':
        log = kept[i] if kept and i in kept else logs[i].open(handle)
        log.save()
        return log.primary_key
    if op == 'delete':
        log = cls(handle, primary_key=have[i], lazy=kept is None)
        log.delete()
        if log.primary_key is not None or outcome(log.delete)[:2] != ('error', 'KeyError'):
            raise ValueError('a deleted log still has a key')
        if kept is not None:
            kept[i] = log
        return None
    return canon(cls(handle, primary_key=have[i], lazy=False))


def settle_doubt(client, pk, have):
    op, i = client['doubt']
    client['doubt'] = None
    if op == 'save' and pk is not None:
        have[i] = pk
        client['pos'] += 1
    elif op == 'delete' and pk is None:
        have.pop(i, None)
        client['pos'] += 1


def raise_later(sim, exc):
    """ a violation found inside a task is raised when the run is over """
    if not hasattr(sim, 'later'):
        sim.later = []
    sim.later.append(exc)


def check_later(sim):
    for exc in getattr(sim, 'later', []):
        raise exc


class SaveCrash(History):
    id = 'D01'
    rule = ('scripts of saves (and loads, deletes) by one or two clients with up to three crashes (process kill, power loss with '
            'random survival of unsynced sectors) at random file operations, clients restarted afterwards; non-trivial: at '
            'least one crash hit while an operation was in progress; distinct by event log and workload')
    quick_cases = 390
    thorough_cases = 1000000
    stored_share = 0.35
    lengths = [1, 2, 3, 4]
    weights = ['save', 'save', 'save', 'load', 'delete']


class DeleteCrash(History):
    id = 'D06'
    rule = ('scripts of deletes and repeated saves by one or two clients among other stored logs, with up to three crashes at '
            'random file operations, or an I/O failure during a delete; non-trivial: a fault hit; distinct by event log and '
            'workload')
    quick_cases = 325
    thorough_cases = 1000000
    stored_share = 0.9
    lengths = [1, 2, 3, 4]
    weights = ['delete', 'delete', 'delete', 'save', 'load']


# ------------------------------------------------------------------------------------------------- D02
FAIL_KINDS = ['eio_read', 'eio_write', 'eio_write', 'eio_sync', 'enospc', 'eio_open', 'eio_delete', 'eio_lock', 'busy',
              'short_write', 'nomem']
FITS = {'eio_read': ('read',), 'eio_write': ('write', 'trunc'), 'eio_sync': ('sync',), 'enospc': ('write',),
        'eio_open': ('open',), 'eio_delete': ('delete',), 'eio_lock': ('lock',), 'busy': ('lock',), 'short_write': ('write',),
        'nomem': ('open', 'read')}


class FailedOperation(DbScenario):
    id = 'D02'
    rule = ('one operation (save, delete, load, dataset fetch, lookup) fails at a chosen file operation (I/O error, full disk, short write, '
            'lock timeout, no memory) or because of an unstorable value; the same object is used again after another client changed '
            'the database; non-trivial: the operation raised; distinct by event log and workload')
    quick_cases = 620
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        logs = [small_log(rng) for _ in range(3)]
        for i, rec in enumerate(logs):
            rec['start'] += i * 1000003
        op = rng.choice(['save', 'save', 'save', 'save', 'delete', 'load', 'fetch', 'open', 'exists', 'lookup'])
        plan = {'logs': logs, 'op': op, 'json': rng.random() < 0.3, 'then': rng.choice(['retry', 'meddle', 'meddle', 'delete']),
                'other_stored': rng.random() < 0.7}
        if op == 'save' and rng.random() < 0.25:
            bad = json.loads(json.dumps(logs[0]))
            where = rng.choice(['info', 'start', 'text'])
            if where == 'info':
                bad['defs'].append(['I', 'uint64_t', 'sys_huge', 'ff' * 8])
            elif where == 'start':
                bad['start'] = 2 ** 63 + rng.randrange(1000)
            elif any(m[0] == 'L' for m in bad['data']):
                for m in bad['data']:
                    if m[0] == 'L':
                        m[2] = 2 ** 64 - 1
            else:
                bad['defs'].append(['I', 'uint64_t', 'sys_huge', 'ff' * 8])
            yield dict(plan, logs=[bad] + logs[1:], unstorable=True)
            return
        probe = run(plan)
        yield dict(plan, hold=rng.choice(['IMMEDIATE', 'EXCLUSIVE']))
        for _ in range(8):
            kind = rng.choice(FAIL_KINDS)
            places = [s for s, o, _, _ in probe.ops if o in FITS[kind]]
            if places:
                yield dict(plan, faults=[{'step': rng.choice(places + places[-2:]), 'kind': kind}])
        if op == 'save':
            yield dict(plan, room=rng.choice([0, 1024, 4096, 8192]))

    def shrink(self, plan):
        if plan['then'] != 'retry':
            yield dict(plan, then='retry')
        if plan['json']:
            yield dict(plan, json=False)
        if plan['other_stored']:
            yield dict(plan, other_stored=False)
        if not plan.get('unstorable'):
            yield from super().shrink(plan)

    def execute(self, plan, env):
        sim, disk, handle, logs = self.setup(plan, env)
        cls = DatabaseULog()
        op = plan['op']
        which = ([1] if plan['other_stored'] else []) + ([] if op == 'save' else [0])
        pks, per_log, base = self.store(disk, handle, logs, which)
        want = logs[0].want
        if op == 'save':
            obj = logs[0].open(handle)
        else:
            obj = cls(handle, primary_key=pks[0], lazy=True)
        keys = [(d.name, d.multi_id) for d in obj.data_list]

        def work():
            if op == 'save':
                obj.save(append_json=plan['json'])
                return obj.primary_key
            if op == 'delete':
                return obj.delete()
            if op == 'load':
                obj.load(lazy=False)
                return canon(obj)
            if op == 'open':
                return canon(cls(handle, primary_key=pks[0], lazy=False))
            if op == 'exists':
                return [cls.exists_in_db(handle, pks[0]), cls.exists_in_db(handle, pks[0] + 1000)]
            if op == 'lookup':
                return [cls.primary_key_from_sha256sum(handle, logs[0].sha), cls.primary_key_from_sha256sum(handle, logs[2].sha)]
            return canon(obj, [obj.get_dataset(*k) for k in keys])
        before = snapshot(handle)
        blocker = None
        if plan.get('hold'):
            blocker = raw_connection(handle)
            blocker.execute('BEGIN ' + plan['hold'])
            sim.fire('lock_held_by_other_client')
        if plan.get('room') is not None:
            disk.capacity = sum(len(f.data) for f in disk.files.values()) + plan['room']
        res = sim.run_inline(lambda: outcome(work))
        disk.capacity = None
        if blocker is not None:
            blocker.rollback()
            blocker.close()
            del blocker
        where = '%s, %s: ' % (op, plan.get('faults') or plan.get('hold') or ('full disk' if plan.get('room') is not None
                                                                            else 'unstorable' if plan.get('unstorable') else 'no fault'))
        if sim.stuck:
            raise Violation('no-progress', where)
        env.states.append(self.state_of(disk))
        integrity(handle, where)
        if res[0] == 'ok':
            if plan.get('unstorable'):
                raise Violation('unstorable-value-accepted', where)
            self.check_done(plan, handle, logs, obj, op, res[1], pks, want, where)
            return
        env.nontrivial = True
        if not sim.fired and not plan.get('unstorable'):
            raise Violation('operation-failed', '%s%s: %s' % ((where,) + res[1:]))
        if not sqlite_error(res[1]) and res[1] not in ('MemoryError', 'OSError', 'OverflowError'):
            raise Violation('wrong-error', '%s%s: %s' % ((where,) + res[1:]))
        after = snapshot(handle)
        found = C.diff(before, after)
        if found:
            raise Violation('failed-operation-changed-database', where + found)
        self.check_key(cls, handle, obj, logs[0], where)
        # the database moves on, the object is used again
        if plan['then'] in ('meddle', 'delete'):
            other = logs[2].open(handle)
            other.save()
            if plan['then'] == 'delete' and op == 'save':
                got = outcome(obj.delete)
                if got[0] == 'ok':
                    raise Violation('deleted-without-being-stored', where)
                if got[1] != 'KeyError':
                    raise Violation('wrong-error', '%sdelete: %s: %s' % ((where,) + got[1:]))
            pk = cls.primary_key_from_sha256sum(handle, logs[2].sha)
            if pk is None:
                raise Violation('other-log-lost', where)
            load_and_compare(handle, pk, logs[2].want, 'other-log-changed', where)
            self.check_key(cls, handle, obj, logs[0], where + 'after another client saved: ')
        again = outcome(work)
        if plan.get('unstorable'):
            if again[0] == 'ok' or again[1:] != res[1:]:
                raise Violation('retry-differs', '%s%s' % (where, again))
            return
        if again[0] == 'error':
            raise Violation('retry-failed', '%s%s: %s' % ((where,) + again[1:]))
        self.check_done(plan, handle, logs, obj, op, again[1], pks, want, where + 'retry: ')
        integrity(handle, where)
        if plan['then'] != 'retry':
            load_and_compare(handle, cls.primary_key_from_sha256sum(handle, logs[2].sha), logs[2].want,
                             'other-log-changed', where)
        if plan['other_stored']:
            load_and_compare(handle, pks[1], logs[1].want, 'other-log-changed', where)

    @staticmethod
    def check_key(cls, handle, obj, log, where):
        if obj.primary_key is not None:
            if cls.primary_key_from_sha256sum(handle, log.sha) != obj.primary_key:
                raise Violation('wrong-primary-key', where)

    @staticmethod
    def check_done(plan, handle, logs, obj, op, value, pks, want, where):
        cls = DatabaseULog()
        pk = cls.primary_key_from_sha256sum(handle, logs[0].sha)
        if op == 'save':
            if pk is None or pk != value or obj.primary_key != pk:
                raise Violation('reported-success-without-effect', '%skey %s, stored under %s' % (where, value, pk))
            load_and_compare(handle, pk, want, 'saved-content', where)
        elif op == 'delete':
            if pk is not None or cls.exists_in_db(handle, pks[0]):
                raise Violation('reported-success-without-effect', where)
            if obj.primary_key is not None:
                raise Violation('wrong-primary-key', where)
        elif op in ('exists', 'lookup'):
            expect = [True, False] if op == 'exists' else [pks[0], None]
            if op == 'lookup' and cls.primary_key_from_sha256sum(handle, logs[2].sha) is not None:
                expect[1] = value[1]    # stored meanwhile
            if value != expect:
                raise Violation('wrong-answer', '%sexpected %s, got %s' % (where, expect, value))
        else:
            require_same(want, value, 'loaded-content', ('corrupt',), where)


# ------------------------------------------------------------------------------------------------- D03
class Linearizable(DbScenario):
    id = 'D03'
    rule = ('two or three clients with short scripts of save, delete, exists, lookup on two logs, switched at random file '
            'operations, sometimes one is killed; the recorded history is checked for linearizability against a map from content to '
            'key; non-trivial: operations of different clients overlap; distinct by event log (schedule) and workload')
    quick_cases = 480
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        logs = [small_log(rng, topics=1, max_fields=1, msgs=4) for _ in range(2)]
        logs[1]['start'] += 1000003
        clients = []
        for _ in range(rng.choice([2, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                ops.append([rng.choice(['save', 'save', 'save', 'delete', 'exists', 'lookup']), rng.choice([0, 0, 0, 1])])
            clients.append(ops)
        plan = {'logs': logs, 'stored': [i for i in range(2) if rng.random() < 0.3], 'clients': clients}
        probe = run(plan)
        for _ in range(8):
            where = set()
            locks = [s for s, op, _, _ in probe.ops if op in ('lock', 'unlock', 'open')]
            for _ in range(rng.choice([1, 2, 3, 6, 12, 40])):
                where.add(rng.choice(locks) if locks and rng.random() < 0.5 else rng.randrange(1, probe.steps + 2))
            faults = []
            if rng.random() < 0.15:
                faults = [{'kind': 'kill', 'step': rng.randrange(1, probe.steps + 2)}]
            elif rng.random() < 0.1:
                faults = [{'kind': 'stall', 'us': rng.choice([1000, 3000000, 8000000]), 'step': rng.randrange(1, probe.steps + 2)}]
            yield dict(plan, preempt=[[s, rng.randrange(3)] for s in sorted(where)], faults=faults)

    def shrink(self, plan):
        for c, ops in enumerate(plan['clients']):
            for k in range(len(ops)):
                clients = [list(o) for o in plan['clients']]
                del clients[c][k]
                yield dict(plan, clients=clients)
        for k in range(len(plan['stored'])):
            yield dict(plan, stored=plan['stored'][:k] + plan['stored'][k + 1:])
        yield from super().shrink(plan)

    def execute(self, plan, env):
        sim, disk, handle, logs = self.setup(plan, env)
        cls = DatabaseULog()
        pks, _, _ = self.store(disk, handle, logs, plan['stored'])
        residents = [pk for pk, _ in getattr(env, 'residents', (None, []))[1]]
        free = max(residents, default=0) + 1         # the first key a log of this run can get
        history = []
        known = dict(pks)                # the last key any client learned, per log
        objs = []
        for ops in plan['clients']:
            mine = {}
            for op, i in ops:
                if op in ('save', 'delete') and i not in mine:
                    mine[i] = logs[i].open(handle)
            objs.append(mine)

        def body(c, ops):
            def run():
                me = sim.current
                for op, i in ops:
                    item = {'client': c, 'op': op, 'log': i, 'start': sim.step, 'end': None, 'res': None}
                    if op == 'delete':
                        obj = objs[c][i]
                        if obj.primary_key is None:
                            pk = known.get(i)
                            if pk is None:
                                continue
                            made = outcome(cls, handle, primary_key=pk)
                            if me.dead:
                                return
                            if made[0] == 'error':
                                if made[1] == 'KeyError':
                                    item.update(op='exists', pk=pk, end=sim.step, res=('ok', False))
                                    history.append(item)
                                elif not is_locked(made):
                                    raise_later(sim, Violation('operation-failed', '%s: %s' % made[1:]))
                                continue
                            obj = made[1]
                            item['start'] = sim.step
                        item['pk'] = obj.primary_key
                        history.append(item)
                        res = outcome(obj.delete)
                    elif op == 'save':
                        obj = objs[c][i]
                        if obj.primary_key is not None:
                            made = outcome(logs[i].open, handle)
                            if me.dead:
                                return
                            if made[0] == 'error':
                                if not is_locked(made):
                                    raise_later(sim, Violation('operation-failed', '%s: %s' % made[1:]))
                                continue
                            obj = made[1]
                            objs[c][i] = obj
                            item['start'] = sim.step
                        history.append(item)
                        res = outcome(obj.save)
                        if res[0] == 'ok':
                            res = ('ok', obj.primary_key)
                            known[i] = obj.primary_key
                        elif not me.dead and res[1] in ('KeyError', 'IntegrityError') and obj.primary_key is not None:
                            # it says where the log is stored
                            item['told'] = obj.primary_key
                        elif not me.dead and res[1] == 'KeyError':
                            raise_later(sim, Violation('refused-without-key', 'client%d, log %d: %s' % (c, i, res[2])))
                    elif op == 'exists':
                        pk = known.get(i, free)
                        item['pk'] = pk
                        history.append(item)
                        res = outcome(cls.exists_in_db, handle, pk)
                    else:
                        history.append(item)
                        res = outcome(cls.primary_key_from_sha256sum, handle, logs[i].sha)
                        if res[0] == 'ok' and res[1] is not None:
                            known[i] = res[1]
                    if me.dead:
                        return
                    item['end'] = sim.step
                    item['res'] = res
            return run
        for c, ops in enumerate(plan['clients']):
            sim.spawn('client%d' % c, body(c, ops))
        sim.run()
        check_later(sim)
        if sim.stuck:
            raise Violation('no-progress', '')
        integrity(handle)
        con = raw_connection(handle)
        rows = con.execute('SELECT Id, SHA256Sum FROM ULog').fetchall()
        con.close()
        rows = [r for r in rows if r[0] not in residents]
        shas = [s for _, s in rows]
        if len(set(shas)) != len(shas):
            raise Violation('stored-twice', repr(rows))
        final = {}
        for pk, sha in rows:
            index = [log.index for log in logs if log.sha == sha]
            if not index:
                raise Violation('unknown-log-stored', repr(sha))
            final[index[0]] = pk
            load_and_compare(handle, pk, logs[index[0]].want, 'stored-content')
        for item in history:
            res = item['res']
            if res is not None and res[0] == 'error' and not is_locked(res) and \
                    not (item['op'] == 'save' and res[1] in ('KeyError', 'IntegrityError')):
                raise Violation('operation-failed', '%s: %s: %s' % (item['op'], res[1], res[2]))
        overlap = any(a['client'] != b['client'] and a['start'] < (b['end'] or 1 << 60) and b['start'] < (a['end'] or 1 << 60)
                      for a in history for b in history if a is not b)
        env.nontrivial = overlap
        if any(is_locked(i['res']) for i in history if i['res']):
            sim.probe('operation gave up on a lock')
        if not linearizable(history, pks, final):
            raise Violation('not-linearizable', describe(history, pks, final))


def describe(history, start, final):
    text = ['stored before: %s' % start]
    for i in history:
        text.append('client%d [%s..%s] %s(log %d%s) -> %s' % (
            i['client'], i['start'], i['end'], i['op'], i['log'], ', key %s' % i['pk'] if 'pk' in i else '', i['res']))
    text.append('stored after: %s' % final)
    return '; '.join(text)


def linearizable(history, start, final):
    """ is there an order, respecting real time, in which a map log -> key explains all results? """
    items = history
    n = len(items)
    seen = set()
    seen_keys = {i: {pk} for i, pk in final.items()}
    for item in items:
        pks = {item.get('told'), item.get('pk')}
        if item['op'] in ('save', 'lookup') and item['res'] is not None and item['res'][0] == 'ok':
            pks.add(item['res'][1])
        seen_keys.setdefault(item['log'], set()).update(pk for pk in pks if pk is not None)

    def apply(item, state, used):
        """ all (state, used) after the operation, or [] if the result is impossible """
        i, op, res = item['log'], item['op'], item['res']
        if op == 'save':
            if res is None:                      # killed: happened or not
                out = [(state, used)]
                if i not in state:
                    # under any key that somebody saw for this log, or one nobody has seen
                    for pk in sorted(seen_keys.get(i, set()) - used) + [-1]:
                        new = dict(state)
                        new[i] = pk
                        out.append((new, used | {pk} if pk != -1 else used))
                return out
            if res[0] == 'ok':
                if i in state or res[1] in used:
                    return []
                new = dict(state)
                new[i] = res[1]
                return [(new, used | {res[1]})]
            if is_locked(res):
                return [(state, used)]
            if i not in state:
                return []
            if 'told' in item and state[i] not in (-1, item['told']):
                return []
            return [(state, used)]
        if op == 'delete':
            new = {k: v for k, v in state.items() if v != item['pk']}
            if res is None:
                return [(state, used), (new, used)]
            if res[0] == 'ok':
                return [(new, used)]
            return [(state, used)]
        if res is None or res[0] == 'error':
            return [(state, used)]
        if op == 'exists':
            return [(state, used)] if (item['pk'] in state.values()) == res[1] or -1 in state.values() else []
        have = state.get(i)
        if have == -1:
            have = res[1] if res[1] is not None else -1
        return [(state, used)] if have == res[1] else []

    def search(done, state, used):
        key = (done, tuple(sorted(state.items())), used)
        if key in seen:
            return False
        seen.add(key)
        if len(done) == n:
            return {k: v for k, v in state.items()} == final or \
                (-1 in state.values() and set(state) == set(final))
        rest = [k for k in range(n) if k not in done]
        limit = min((items[k]['end'] if items[k]['end'] is not None else 1 << 60) for k in rest)
        for k in rest:
            if items[k]['start'] > limit:
                continue
            for new, new_used in apply(items[k], state, used):
                if search(done | {k}, new, new_used):
                    return True
        return False
    return search(frozenset(), dict(start), frozenset(start.values()))


# ------------------------------------------------------------------------------------------------- D04
class AtomicRead(DbScenario):
    id = 'D04'
    rule = ('a client loads a stored log (in full, or lazily with later dataset fetches) while other clients delete it, delete and save '
            'it again, or save others, switched at random file operations; non-trivial: a write of another client happened between '
            'two operations of the reader; distinct by event log (schedule) and workload')
    quick_cases = 390
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        logs = [small_log(rng) for _ in range(2)]
        logs[1]['start'] += 1000003
        writers = []
        for _ in range(rng.choice([1, 1, 2])):
            writers.append([rng.choice(['delete', 'delete', 'delete', 'replace', 'save1', 'delete-save1'])])
        plan = {'logs': logs, 'reader': rng.choice(['full', 'full', 'lazy', 'fetch', 'reload']), 'writers': writers}
        probe = run(plan)
        mine = [s for s, op, task, _ in probe.ops if task == 'reader']
        locks = [s for s, op, task, _ in probe.ops if task == 'reader' and op in ('lock', 'unlock', 'open')]
        for _ in range(9):
            where = set()
            for _ in range(rng.choice([1, 1, 2, 5, 20])):
                where.add(rng.choice(locks) if locks and rng.random() < 0.7 else rng.choice(mine or [1]))
            if rng.random() < 0.4:
                where.add(rng.randrange(1, probe.steps + 1))
            yield dict(plan, preempt=[[s, rng.randrange(2)] for s in sorted(where)])

    def shrink(self, plan):
        for w in range(len(plan['writers'])):
            if len(plan['writers']) > 1:
                yield dict(plan, writers=plan['writers'][:w] + plan['writers'][w + 1:])
        yield from super().shrink(plan)

    def execute(self, plan, env):
        sim, disk, handle, logs = self.setup(plan, env)
        cls = DatabaseULog()
        pks, _, _ = self.store(disk, handle, logs, [0])
        keys = [(d.name, d.multi_id) for d in cls(handle, primary_key=pks[0]).data_list]
        want = logs[0].want
        lazy_obj = None
        if plan['reader'] in ('fetch', 'reload'):
            lazy_obj = cls(handle, primary_key=pks[0], lazy=True)
        results = []

        def record(what, res):
            results.append((what, res))

        def reader():
            me = sim.current
            if plan['reader'] == 'full':
                record('full', outcome(lambda: canon(cls(handle, primary_key=pks[0], lazy=False))))
                return
            if plan['reader'] == 'reload':
                record('full', outcome(lambda: (lazy_obj.load(lazy=False), canon(lazy_obj))[1]))
                return
            obj = lazy_obj
            if obj is None:
                got = outcome(cls, handle, primary_key=pks[0], lazy=True)
                if got[0] == 'error':
                    record('lazy', got)
                    return
                obj = got[1]
            view = canon(obj, [])
            record('lazy', ('ok', dict(view, topics=want['topics'])))
            names = [(d.name, d.multi_id) for d in obj.data_list]
            if sorted(names) != sorted(keys):
                record('names', ('ok', names))
            for key in keys:
                got = outcome(lambda k=key: C.canon_topic(obj.get_dataset(*k)))
                record(key, got)
            del me

        def writer(ops):
            def run():
                for op in ops:
                    if op in ('delete', 'replace', 'delete-save1'):
                        got = outcome(lambda: cls(handle, primary_key=pks[0]).delete())
                        if got[0] == 'error' and got[1] != 'KeyError' and not is_locked(got):
                            raise_later(sim, Violation('operation-failed', 'delete: %s: %s' % got[1:]))
                    if op in ('replace', 'save1', 'delete-save1'):
                        got = outcome(lambda: logs[0 if op == 'replace' else 1].open(handle).save())
                        if got[0] == 'error' and got[1] not in ('KeyError', 'IntegrityError') and not is_locked(got):
                            raise_later(sim, Violation('operation-failed', 'save: %s: %s' % got[1:]))
            return run
        sim.spawn('reader', reader)
        for w, ops in enumerate(plan['writers']):
            sim.spawn('writer%d' % w, writer(ops))
        sim.run()
        check_later(sim)
        if sim.stuck:
            raise Violation('no-progress', '')
        mine = [s for s, _, task, _ in sim.ops if task == 'reader']
        env.nontrivial = any(task != 'reader' and op == 'write' and mine and mine[0] < s < mine[-1]
                             for s, op, task, _ in sim.ops)
        gone = False
        for what, res in results:
            if res[0] == 'error':
                if res[1] == 'KeyError':
                    gone = True
                elif is_locked(res):
                    sim.probe('reader gave up on a lock')
                else:
                    raise Violation('wrong-error', '%s: %s: %s' % ((what,) + res[1:]))
                continue
            if what in ('full', 'lazy'):
                require_same(want, res[1], 'torn-read', ('corrupt',), '%s load: ' % what)
            elif what == 'names':
                raise Violation('torn-read', 'datasets %s, stored %s' % (res[1], keys))
            else:
                topic = want['topics']['%s/%d' % what]
                require_same(topic, res[1], 'torn-dataset', what='%s: ' % (what,))
                if gone:
                    raise Violation('came-back', '%s' % (what,))
        if gone:
            sim.probe('reader found the log gone')



# ------------------------------------------------------------------------------------------------- D07
class Waits(DbScenario):
    id = 'D07'
    rule = ('two to four clients, each with its own logs to save, delete and save again, all looking up, loading and fetching datasets of '
            'logs that stay, sometimes running into expected errors whose exceptions they keep, switched at random file operations; some '
            'stall for less than a second, one may get killed; non-trivial: an operation overlaps a write of another client; distinct by '
            'event log (schedule) and workload')
    quick_cases = 380
    thorough_cases = 1000000
    LIMIT_US = 5000000           # a client may have to wait, but not longer than this

    def plans(self, rng, run, tier):
        count = rng.choice([2, 2, 3, 4])
        logs = [small_log(rng, topics=rng.choice([1, 1, 2]), max_fields=2, msgs=4) for _ in range(1 + count)]
        for i, rec in enumerate(logs):
            rec['start'] += i * 1000003
        clients = []
        for c in range(count):
            ops = []
            there = False
            for _ in range(rng.choice([1, 2, 3, 4])):
                op = rng.choice(['save', 'save', 'save', 'load', 'load', 'lazy', 'lookup', 'exists', 'fetch', 'delete', 'again', 'missing'])
                if op in ('save', 'again') and not there:
                    op, there = 'save', True
                elif op == 'delete' and there:
                    there = False
                elif op == 'save':
                    op = 'again'
                elif op == 'delete':
                    op = 'missing'
                ops.append(op)
            clients.append(ops)
        plan = {'logs': logs, 'clients': clients}
        probe = run(plan)
        locks = [s for s, op, _, _ in probe.ops if op in ('lock', 'unlock', 'open', 'write')]
        for _ in range(8):
            where = set()
            for _ in range(rng.choice([1, 2, 4, 8, 20, 60])):
                where.add(rng.choice(locks) if locks and rng.random() < 0.6 else rng.randrange(1, probe.steps + 2))
            faults = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                faults.append({'kind': 'stall', 'us': rng.choice([1000, 30000, 200000, 400000]), 'step': rng.randrange(1, probe.steps + 2)})
            if rng.random() < 0.15:
                faults.append({'kind': 'kill', 'step': rng.choice(locks or [1])})
            yield dict(plan, preempt=[[s, rng.randrange(3)] for s in sorted(where)], faults=faults)

    def shrink(self, plan):
        for c, ops in enumerate(plan['clients']):
            if len(plan['clients']) > 1 and ops:
                yield dict(plan, clients=plan['clients'][:c] + [[]] + plan['clients'][c + 1:])
            for k in range(len(ops)):
                if ops[k] in ('load', 'lazy', 'lookup', 'exists', 'fetch', 'missing', 'again') or k == len(ops) - 1:
                    clients = [list(o) for o in plan['clients']]
                    del clients[c][k]
                    yield dict(plan, clients=clients)
        yield from super().shrink(plan)

    def execute(self, plan, env):
        sim, disk, handle, logs = self.setup(plan, env)
        cls = DatabaseULog()
        pks, _, _ = self.store(disk, handle, logs, [0])
        stays = pks[0]
        want = logs[0].want
        keys = [(d.name, d.multi_id) for d in cls(handle, primary_key=stays).data_list]
        lazy = cls(handle, primary_key=stays)
        waits = []
        kept = []                     # exceptions and objects the clients hold on to
        stored = {}
        doubt = set()

        def attempt(what, fn, expected=()):
            """ one operation: it gets done, or fails in the expected way """
            me = sim.current
            start = sim.now
            first = sim.step
            try:
                res = fn()
            except Exception as exc:  # pylint: disable=broad-except
                if me.dead:
                    return None
                kept.append(exc)
                waits.append((me.name, first, sim.step))
                if type(exc).__name__ not in expected:
                    late = Violation('gave-up', '%s of %s: %s: %s (after %d ms)' % (
                        what, me.name, type(exc).__name__, exc, (sim.now - start) // 1000))
                    raise_later(sim, late)
                return None
            if me.dead:
                return None
            waits.append((me.name, first, sim.step))
            if expected:
                raise_later(sim, Violation('expected-an-error', '%s of %s' % (what, me.name)))
            if sim.now - start > self.LIMIT_US + 1000000:
                raise_later(sim, Violation('waited-too-long', '%s of %s: %d ms' % (what, me.name, (sim.now - start) // 1000)))
            kept.append(res)
            return res

        def body(c, ops):
            log = logs[1 + c]

            def run():
                me = sim.current
                obj = None
                for op in ops:
                    doubt.add(c)
                    if op == 'save':
                        new = attempt('open', lambda: log.open(handle))
                        if new is None:
                            return
                        obj = new
                        attempt('save', obj.save)
                        if not me.dead and obj.primary_key is not None:
                            stored[c] = obj.primary_key
                    elif op == 'again':
                        new = attempt('open', lambda: log.open(handle))
                        if new is None:
                            return
                        attempt('second save', new.save, ('KeyError', 'IntegrityError'))
                    elif op == 'delete':
                        if obj is None or obj.primary_key is None:
                            return
                        attempt('delete', obj.delete)
                        if not me.dead:
                            stored.pop(c, None)
                    elif op == 'missing':
                        attempt('load of a missing log', lambda: cls(handle, primary_key=987654), ('KeyError',))
                    elif op == 'load':
                        got = attempt('load', lambda: cls(handle, primary_key=stays, lazy=False))
                        if got is not None:
                            compare(want, canon(got))
                    elif op == 'lazy':
                        attempt('lazy load', lambda: cls(handle, primary_key=stays))
                    elif op == 'fetch':
                        for key in keys:
                            got = attempt('fetch', lambda k=key: C.canon_topic(lazy.get_dataset(*k, caching=False)))
                            if got is not None:
                                compare(want['topics']['%s/%d' % key], got)
                    elif op == 'lookup':
                        got = attempt('lookup', lambda: cls.primary_key_from_sha256sum(handle, logs[0].sha))
                        if not me.dead and got != stays:
                            raise_later(sim, Violation('lookup-wrong', repr(got)))
                    elif op == 'exists':
                        got = attempt('exists', lambda: cls.exists_in_db(handle, stays))
                        if not me.dead and got is not True:
                            raise_later(sim, Violation('exists-wrong', repr(got)))
                    if me.dead:
                        return
                    doubt.discard(c)
            return run

        def compare(model, got):
            try:
                require_same(model, got, 'loaded', ('corrupt',))
            except Violation as exc:
                raise_later(sim, exc)
        for c, ops in enumerate(plan['clients']):
            sim.spawn('client%d' % c, body(c, ops))
        sim.run()
        check_later(sim)
        if sim.stuck:
            raise Violation('no-progress', '')
        writes = [(s, task) for s, op, task, _ in sim.ops if op == 'write']
        env.nontrivial = any(a < s < b and task != name for name, a, b in waits for s, task in writes)
        if any('sleep' == op for _, op, _, _ in sim.ops):
            sim.probe('a client waited')
        killed = sim.fired.get('kill', 0)
        integrity(handle)
        for c in range(len(plan['clients'])):
            log = logs[1 + c]
            got = outcome(cls.primary_key_from_sha256sum, handle, log.sha)
            if got[0] == 'error':
                raise Violation('locked-for-good', '%s: %s' % got[1:])
            if killed and c in doubt:
                continue
            if got[1] != stored.get(c):
                raise Violation('lost' if c in stored else 'not-gone', 'log %d: %s, %s' % (1 + c, got[1], stored.get(c)))
            if c in stored:
                load_and_compare(handle, stored[c], log.want, 'stored-content', 'log %d: ' % (1 + c))
        load_and_compare(handle, stays, want, 'other-log-changed')


# ------------------------------------------------------------------------------------------------- D05
class RoundTrip(DbScenario):
    id = 'D05'
    rule = ('a log is saved (with or without JSON copy) and read through one or two objects by a random sequence of full loads, lazy '
            'loads, reloads and dataset fetches with and without cache, some of which fail with an injected I/O error; non-trivial: '
            'at least three reads after the save; distinct by event log and workload')
    quick_cases = 1680
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = small_log(rng, topics=rng.choice([1, 3, 5]), max_fields=rng.choice([2, 6]), msgs=rng.choice([8, 40]),
                        few_extra=False)
        ops = []
        for _ in range(rng.choice([3, 5, 8])):
            ops.append(rng.choice([['new', True], ['new', False], ['load', True], ['load', False], ['fetch', rng.random()],
                                   ['fetch', rng.random()], ['fetch', rng.random()], ['fetch-uncached', rng.random()],
                                   ['fetch-lazy', rng.random()], ['all'], ['absent', rng.random(), rng.randrange(8)],
                                   ['absent', rng.random(), rng.choice([1, 2, 3])], ['write'], ['write'],
                                   ['ambiguous', rng.random() < 0.5]]))
        plan = {'logs': [rec], 'json': rng.random() < 0.5, 'ops': ops, 'same': rng.random() < 0.4, 'damage': None}
        if rng.random() < 0.1:
            plan['damage'] = rng.random()
        elif rng.random() < 0.25:
            plan['append'] = sorted(rng.random() for _ in range(rng.choice([1, 2, 3])))
        names = sorted({m[3] for m in rec['data'] if m[0] == 'A'})
        if names and rng.random() < 0.2:
            plan['names'] = rng.sample(names, rng.randrange(len(names) + 1))
        if rng.random() < 0.2:
            plan['source'] = rng.choice(['file', 'raw', 'memory'])
        probe = run(plan)
        reads = [s for s, op, _, _ in probe.ops if op in ('read', 'lock', 'open')]
        for _ in range(2):
            if reads:
                count = rng.choice([1, 1, 2, 3])
                yield dict(plan, faults=[{'step': rng.choice(reads), 'kind': rng.choice(['eio_read', 'eio_lock', 'nomem'])}
                                         for _ in range(count)])

    def shrink(self, plan):
        for k in range(len(plan['ops'])):
            yield dict(plan, ops=plan['ops'][:k] + plan['ops'][k + 1:])
        if plan['same']:
            yield dict(plan, same=False)
        if plan['json']:
            yield dict(plan, json=False)
        for name in ('names', 'source'):
            if name in plan:
                yield {k: v for k, v in plan.items() if k != name}
        if plan['damage'] is None:
            yield from super().shrink(plan)

    @staticmethod
    def opened(plan, log, handle):
        """ the log as an object to be saved: from any source, restricted to some topics """
        import io
        kwargs = {'message_name_filter_list': plan['names']} if 'names' in plan else {}
        source = plan.get('source')
        if source == 'file':
            arg = open(log.path, 'rb')  # pylint: disable=consider-using-with
        elif source == 'raw':
            arg = open(log.path, 'rb', buffering=0)  # pylint: disable=consider-using-with
        elif source == 'memory':
            from .base import read_file
            arg = io.BytesIO(read_file(log.path))
        else:
            arg = log.path
        return DatabaseULog()(handle, log_file=arg, **kwargs)

    def execute(self, plan, env):
        sim, disk, handle, logs = self.setup(plan, env)
        cls = DatabaseULog()
        want = logs[0].want
        if 'names' in plan:
            from .. import recorder as R
            want = C.model_view(R.expected(plan['logs'][0], plan['names']))
        if plan.get('damage') is not None:
            # a log with a zeroed region: what was loaded is what must come back
            from .base import read_file, write_file
            from .. import recorder as R
            raw, ends = R.encode(plan['logs'][0])
            low = ends[len(plan['logs'][0]['defs'])] if len(ends) > len(plan['logs'][0]['defs']) else len(raw)
            at = low + int(plan['damage'] * (len(raw) - low))
            write_file(logs[0].path, raw[:at] + bytes(min(9, len(raw) - at)) + raw[at + 9:])
            want = canon(self.opened(plan, logs[0], handle))
            if want['duplicates']:
                return
            sim.fire('damage_zero')
        if plan.get('append'):
            # sections appended after restarts, each beginning behind a complete message
            from .base import write_file
            from .. import recorder as R
            rec = dict(plan['logs'][0], version=1)
            rec['flags'] = [(rec.get('flags') or [[0] * 8])[0], [1] + [0] * 7]
            raw, ends = R.encode(rec)
            if len(ends) > len(rec['defs']):
                behind = ends[len(rec['defs']):]
                offsets = sorted({behind[int(x * len(behind))] for x in plan['append']})
                raw, _ = R.encode(rec, offsets)
                write_file(logs[0].path, raw)
                want = canon(self.opened(plan, logs[0], handle))
                sim.probe('log with appended sections')
        original = self.opened(plan, logs[0], handle)
        require_same(want, canon(original), 'before-save')
        original.save(**({'append_json': True} if plan['json'] else {}))
        pk = original.primary_key
        require_same(want, canon(original), 'changed-by-save')
        if plan['json']:
            self.check_json(handle, pk, want)
        else:
            self.check_no_json(handle, pk)
        state = {'obj': original if plan['same'] else cls(handle, primary_key=pk, lazy=True), 'seen': {}, 'lazy': not plan['same']}
        samples = self.samples(want)
        keys = sorted(want['topics'])
        n = 0
        failed = 0

        def step(op):
            obj = state['obj']
            if op[0] == 'new':
                state['obj'] = cls(handle, primary_key=pk, lazy=op[1])
                state.update(seen={}, lazy=op[1])
                return self.view(state['obj'], None if not op[1] else [])
            if op[0] == 'write':
                return self.rewrite(obj, state['lazy'], lambda: self.opened(plan, logs[0], handle), samples)
            if op[0] == 'ambiguous':
                got = outcome(lambda: cls(handle, primary_key=pk, log_file=logs[0].path) if op[1] else cls(handle))
                if got[0] == 'ok':
                    raise Violation('ambiguous-accepted', 'a key and a log' if op[1] else 'neither a key nor a log')
                return None
            if op[0] == 'load':
                obj.load(lazy=op[1])
                state.update(seen={}, lazy=op[1])
                return self.view(obj, None if not op[1] else [])
            if op[0] == 'all':
                return self.view(obj, [obj.get_dataset(k.rsplit('/', 1)[0], int(k.rsplit('/', 1)[1])) for k in keys])
            key = keys[int(op[1] * len(keys))]
            name, multi = key.rsplit('/', 1)
            if op[0] == 'absent':
                # a data set the log does not have
                key = '%s/%d' % (name, op[2])
                if key in keys:
                    return None
                got = outcome(obj.get_dataset, name, op[2])
                if got[0] == 'ok':
                    raise Violation('invented-dataset', '%s: got %s/%s' % (key, got[1].name, got[1].multi_id))
                if got[1] not in ('KeyError', 'IndexError', 'ValueError') and not sim.fired:
                    raise Violation('wrong-error', '%s: %s: %s' % ((key,) + got[1:]))
                return None
            if op[0] == 'fetch':
                data = obj.get_dataset(name, int(multi))
            elif op[0] == 'fetch-uncached':
                data = obj.get_dataset(name, int(multi), caching=False)
            else:
                data = obj.get_dataset(name, int(multi), lazy=True)
                return ('meta', key, [data.name, data.multi_id, int(data.msg_id), int(data.timestamp_idx)])
            topic = C.canon_topic(data)
            if op[0] == 'fetch':
                last = state['seen'].get(key)
                if last is not None and last is not data:
                    raise Violation('cache', '%s fetched twice gives different objects' % key)
                state['seen'][key] = data
            return ('topic', key, topic)
        for op in plan['ops']:
            if op[0] in ('fetch', 'fetch-uncached', 'fetch-lazy', 'absent') and not keys:
                continue
            before = sum(sim.fired.values())
            got = sim.run_inline(lambda: self.guard(step, op))
            where = '%s: ' % op
            if sim.stuck:
                raise Violation('no-progress', where)
            if got[0] == 'error':
                if sum(sim.fired.values()) == before:
                    raise Violation('read-failed', '%s%s: %s' % ((where,) + got[1:]))
                if op[0] == 'load':
                    # what a failed load leaves in the object is not specified: it must be loaded again
                    failed += 1
                    again = outcome(state['obj'].load, op[1])
                    if again[0] == 'error':
                        raise Violation('retry-failed', '%s%s: %s' % ((where,) + again[1:]))
                    state.update(seen={}, lazy=op[1])
                    require_same(dict(want, topics={} if op[1] else want['topics']),
                                 self.view(state['obj'], None if not op[1] else []), 'content', ('corrupt',), where + 'retry: ')
                continue
            n += 1
            res = got[1]
            if res is None:
                pass
            elif isinstance(res, tuple) and res[0] == 'meta':
                topic = want['topics'][res[1]]
                name, multi = res[1].rsplit('/', 1)
                require_same([name, int(multi), topic['id'], topic['ts']], res[2], 'dataset-meta', what=where)
            elif isinstance(res, tuple):
                require_same(want['topics'][res[1]], res[2], 'dataset', what=where + res[1])
            else:
                lazy = op[0] in ('new', 'load') and op[1]
                require_same(dict(want, topics={} if lazy else want['topics']), res, 'content', ('corrupt',), where)
                if lazy:
                    names = sorted('%s/%d' % (d.name, d.multi_id) for d in state['obj'].data_list)
                    require_same(keys, names, 'dataset-list', what=where)
            if state['obj'].file_corruption and not want['corrupt']:
                raise Violation('sound-log-reported-corrupt', where)
            if state['obj'].primary_key != pk or state['obj'].sha256sum != original.sha256sum:
                raise Violation('identity', where)
        final = outcome(cls, handle, primary_key=pk, lazy=False)
        if final[0] == 'error':
            raise Violation('read-failed', 'final: %s: %s' % final[1:])
        require_same(want, canon(final[1]), 'content', ('corrupt',), 'final: ')
        self.check_equal(plan, logs[0], handle, final[1], want)
        env.nontrivial = n >= 3
        if failed:
            sim.probe('load failed and was repeated')

    @staticmethod
    def guard(step, op):
        """ outcome(), but violations get through """
        try:
            return ('ok', step(op))
        except Violation:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            res = ('error', type(exc).__name__, str(exc)[:300])
            exc.__traceback__ = None
            del exc
            return res

    @staticmethod
    def view(obj, datasets):
        return canon(obj, datasets)

    @staticmethod
    def rewrite(obj, lazy, again, samples):
        """ a log whose samples were not loaded is refused, or written with all of them """
        import io
        out = io.BytesIO()
        got = outcome(obj.write_ulog, out)
        if got[0] == 'error':
            if not lazy and outcome(again().write_ulog, io.BytesIO())[0] == 'ok':
                raise Violation('write-refused', '%s: %s' % got[1:])
            return None
        from pyulog import ULog
        require_same(samples, RoundTrip.samples(canon(ULog(io.BytesIO(out.getvalue())))), 'written')
        return None

    @staticmethod
    def samples(view):
        """ the values of each field, in any order (a rewritten log is sorted by time) """
        out = {}
        for key, topic in view['topics'].items():
            if topic['n']:
                size = {name: len(col) // topic['n'] for name, col in topic['cols'].items()}
                out[key] = {name: sorted(col[i:i + size[name]] for i in range(0, len(col), size[name]))
                            for name, col in topic['cols'].items()}
        return out

    def check_equal(self, plan, log, handle, stored, want):
        """ what only comparing or rewriting the logs shows: file version, flags, append offsets, types """
        import io
        fresh = self.opened(plan, log, handle)
        if not want['corrupt'] and 'names' not in plan:      # == also compares what was left out
            from pyulog import ULog
            if not ULog(log.path) == stored:
                raise Violation('not-equal', 'the stored log and the file')
        if "'nan'" in repr([want[k] for k in ('info', 'multi', 'initial', 'defaults', 'changed')]):
            return      # the bits of a NaN are not kept
        if all(t['n'] for t in want['topics'].values()):
            first, second = io.BytesIO(), io.BytesIO()
            fresh.write_ulog(first)
            stored.write_ulog(second)
            if first.getvalue() != second.getvalue():
                raise Violation('rewritten-differently', '%d and %d bytes' % (len(first.getvalue()), len(second.getvalue())))

    @staticmethod
    def check_no_json(handle, pk):
        con = raw_connection(handle)
        rows = con.execute('''SELECT d.DatasetName, d.MultiId, f.TopicName
                              FROM ULogField f JOIN ULogDataset d ON f.DatasetId = d.Id
                              WHERE d.ULogId = ? AND f.ValueJson IS NOT NULL''', (pk,)).fetchall()
        con.close()
        if rows:
            raise Violation('json-unasked', repr(rows[:3]))

    def check_json(self, handle, pk, want):
        import struct
        from .. import recorder as R
        con = raw_connection(handle)
        rows = con.execute('''SELECT d.DatasetName, d.MultiId, f.TopicName, f.DataType, f.ValueJson
                              FROM ULogField f JOIN ULogDataset d ON f.DatasetId = d.Id
                              WHERE d.ULogId = ?''', (pk,)).fetchall()
        con.close()
        found = 0
        for name, multi, field, ftype, text in rows:
            topic = want['topics']['%s/%d' % (name, multi)]
            where = '%s/%d.%s: ' % (name, multi, field)
            got = outcome(json.loads, text)
            if got[0] == 'error':
                raise Violation('json-invalid', where + str(text)[:200])
            stamps = struct.unpack('<%dQ' % topic['n'], bytes.fromhex(topic['cols']['timestamp']))
            code = R.CODE[ftype] if ftype not in ('char', 'bool') else 'b'
            values = struct.unpack('<%d%s' % (topic['n'], code), bytes.fromhex(topic['cols'][field]))
            expect = {}
            for stamp, value in zip(stamps, values):
                expect[str(stamp)] = None if isinstance(value, float) and not math.isfinite(value) else value
            have = got[1]
            if set(have) != set(expect):
                raise Violation('json-timestamps', where)
            for stamp, value in expect.items():
                other = have[stamp]
                same = other == value or (value is not None and other is not None and isinstance(value, float) and
                                          math.isclose(value, other, rel_tol=1e-6, abs_tol=1e-45))
                if not same:
                    raise Violation('json-value', '%s%s: expected %r, got %r' % (where, stamp, value, other))
            found += 1
        if found != sum(len(t['cols']) for t in want['topics'].values()):
            raise Violation('json-missing', '%d fields' % found)

    def demonstrate(self, finding, engine):
        """ is the listed finding still there? """
        if finding['id'] != 'corruption-flag-not-stored':
            return False
        import random
        from .. import recorder as R
        rng = random.Random(5)
        for _ in range(200):
            rec = small_log(rng)
            plan = {'logs': [rec], 'json': False, 'ops': [], 'same': False, 'damage': 0.0}
            box = {}

            class Probe(DbScenario):
                def execute(self, plan, env):
                    _, _, handle, logs = self.setup(plan, env)
                    from .base import write_file
                    raw, ends = R.encode(rec)
                    low = ends[len(rec['defs'])] if len(ends) > len(rec['defs']) else len(raw)
                    write_file(logs[0].path, raw[:low] + bytes(9) + raw[low + 9:])
                    log = logs[0].open(handle)
                    log.save()
                    again = DatabaseULog()(handle, primary_key=log.primary_key, lazy=False)
                    box['res'] = (log.file_corruption, again.file_corruption)
            engine.run_plan(Probe(), plan)
            if box.get('res') == (True, False):
                return True
        return False
