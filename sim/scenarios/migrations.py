""" M01-M04: schema migrations """
import contextlib
import glob
import os
import sqlite3
import sys

from .. import recorder as R
from .. import simio, vfs
from ..core import Violation
from ..engine import REPO, VERIF
from .base import outcome, require_same, shrink_recording
from .dbase import (DB_ASSUMPTIONS, Handle, LogFile, Scenario, integrity, is_locked, load_and_compare, make_image, new_disk, raw_connection,
                    put_file, quiet_stdout, small_log, snapshot)
from .dbs import FAIL_KINDS, FITS, DatabaseULog, check_later, crash_fault, raise_later

REAL = ['pyulog.migrate_db', 'pyulog.db.DatabaseULog', 'pyulog/sql migration scripts',
        'SQLite library with its rollback journal and locking protocol', 'Python sqlite3 module']
STUB = ['SQLite VFS: files, page cache, locks, fsync, clock and sleep (simulated disk)',
        'process scheduler (simulated: one thread per process, switched at file operations)',
        'databases of earlier versions (written from frozen copies of the earlier schemas)',
        'flight logger and publishers (simulated)']
LATEST = 5
SCHEMAS = os.path.join(VERIF, 'sim', 'schemas')


# ------------------------------------------------------------------------ databases of earlier versions
def plain(value):
    kind = value[0]
    if kind == 'i':
        return value[1]
    if kind == 'f':
        return float('nan') if value[1] == 'nan' else float.fromhex(value[1])
    if kind == 's':
        return value[1]
    return bytes.fromhex(value[1])


def insert(con, table, **values):
    names = list(values)
    cur = con.execute('INSERT INTO %s (%s) VALUES (%s)' % (table, ', '.join(names), ', '.join('?' * len(names))),
                      [values[n] for n in names])
    return cur.lastrowid


def store_rows(con, version, log):
    """ what a pyulog of that time stored for this log; returns the key """
    rec = log.rec
    content = R.expected(rec)
    flags = rec.get('flags') or [[0] * 8, [0] * 8]
    head = {'FileVersion': rec['version'], 'StartTimestamp': content['start'], 'LastTimestamp': content['last'],
            'CompatFlags': ''.join(chr(n) for n in flags[0]), 'IncompatFlags': ''.join(chr(n) for n in flags[1]),
            'SyncCount': sum(1 for m in rec['data'] if m[0] == 'S'), 'HasSync': any(m[0] == 'S' for m in rec['data'])}
    if version >= 2:
        head['SHA256Sum'] = log.sha
    pk = insert(con, 'ULog', **head)
    for key, topic in content['topics'].items():
        name, multi = key.rsplit('/', 1)
        did = insert(con, 'ULogDataset', DatasetName=name, MultiId=int(multi), MessageId=topic['id'],
                     TimestampIndex=topic['ts'], ULogId=pk)
        for fname, ftype in topic['fields']:
            insert(con, 'ULogField', TopicName=fname, DataType=ftype, ValueArray=bytes.fromhex(topic['cols'][fname]),
                   DatasetId=did)
    for stamp, duration in content['dropouts']:
        insert(con, 'ULogMessageDropout', Timestamp=stamp, Duration=duration, ULogId=pk)
    for level, stamp, text in content['text']:
        insert(con, 'ULogMessageLogging', LogLevel=level, Timestamp=stamp, Message=text, ULogId=pk)
    for tag, items in content['tagged'].items():
        for level, _, stamp, text in items:
            insert(con, 'ULogMessageLoggingTagged', LogLevel=level, Timestamp=stamp, Tag=int(tag), Message=text, ULogId=pk)
    for name, fields in content['formats'].items():
        fid = insert(con, 'ULogMessageFormat', Name=name, ULogId=pk)
        for ftype, size, fname in fields:
            insert(con, 'ULogMessageFormatField', FieldType=ftype, ArraySize=size, Name=fname, MessageId=fid)
    types = {}
    for m in rec['defs'] + rec['data']:
        if m[0] == 'I':
            types['I', m[2]] = m[1]
        elif m[0] == 'M':
            types['M', m[3]] = m[2]
    for key, value in content['info'].items():
        insert(con, 'ULogMessageInfo', Key=key, Value=plain(value), Typename=types['I', key], ULogId=pk)
    for key, lists in content['multi'].items():
        mid = insert(con, 'ULogMessageInfoMultiple', Key=key, Typename=types['M', key], ULogId=pk)
        for n, items in enumerate(lists):
            lid = insert(con, 'ULogMessageInfoMultipleList', SeriesIndex=n, MessageId=mid)
            for k, item in enumerate(items):
                value = plain(item)
                insert(con, 'ULogMessageInfoMultipleListElement', SeriesIndex=k, ListId=lid,
                       Value=repr(value) if isinstance(value, float) else value)
    for key, value in content['initial'].items():
        insert(con, 'ULogInitialParameter', Key=key, Value=plain(value), ULogId=pk)
    for bit, values in content['defaults'].items():
        for key, value in values.items():
            insert(con, 'ULogDefaultParameter', DefaultType=int(bit), Key=key, Value=plain(value), ULogId=pk)
    for stamp, key, value in content['changed']:
        insert(con, 'ULogChangedParameter', Timestamp=stamp, Key=key, Value=plain(value), ULogId=pk)
    return pk


def read_text(path):
    with simio._real_open(path, encoding='utf8') as inp:  # pylint: disable=protected-access
        return inp.read()


def run_script(con, path, version):
    con.execute('PRAGMA foreign_keys=off')
    con.executescript(read_text(path))
    con.execute('PRAGMA user_version=%d' % version)
    con.commit()


def schema_image(version):
    """ an empty database of an earlier version """
    def build(path):
        with contextlib.closing(sqlite3.connect(path)) as con:
            con.execute('PRAGMA user_version=0')
            con.execute('CREATE TABLE scratch_(x)')
            con.execute('DROP TABLE scratch_')
            con.commit()
            for v in range(1, version + 1):
                run_script(con, os.path.join(SCHEMAS, 'pyulog.%d.sql' % v), v)
    return make_image('schema%d' % version, build)


def row_counts_of(con):
    names = [n for (n,) in con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite%'")]
    return {t: con.execute('SELECT COUNT(*) FROM "%s"' % t).fetchone()[0] for t in names}


def normal(snap):
    """ a snapshot without the spelling of the schema """
    return {k: v for k, v in snap.items() if k != 'schema'}


def shape(handle):
    """ the schema, independent of how its SQL is written """
    with contextlib.closing(raw_connection(handle)) as con:
        return shape_of(con)


def shape_of(con):
    out = []
    rows = con.execute("SELECT type, name FROM sqlite_master WHERE name NOT LIKE 'sqlite%' ORDER BY type, name").fetchall()
    for kind, name in rows:
        item = [kind, name]
        if kind == 'table':
            item.append([list(r[1:]) for r in con.execute('PRAGMA table_info("%s")' % name)])
            item.append(sorted([list(r[2:]) for r in con.execute('PRAGMA foreign_key_list("%s")' % name)], key=repr))
            for index in con.execute('PRAGMA index_list("%s")' % name).fetchall():
                item.append(['index', index[2], index[3], [r[2] for r in con.execute('PRAGMA index_info("%s")' % index[1])]])
            item[4:] = sorted(item[4:], key=repr)
        out.append(item)
    return out


class Migrations(Scenario):
    real = REAL
    stub = STUB
    assumptions = DB_ASSUMPTIONS
    state_measure = 'hash of the contents of all files after the faults'

    def start(self, plan, env, **kwargs):
        """ -> sim, disk, path, handle, logs, keys: the database the run starts from, holding the logs """
        sim = env.new_sim(plan, **kwargs)
        simio.attach(simio.FileWorld(sim, os.path.join(env.root, 'nothing-here')))    # simulated time.sleep only
        disk = new_disk(sim, env)
        path = os.path.join(env.root, 'db.sqlite3')
        handle = Handle(path)
        logs = [LogFile(env, i, rec) for i, rec in enumerate(plan['logs'])]
        keys = {}
        version = plan['version']
        if version is not None:
            put_file(disk, path, schema_image(version))
            if version > 0:
                with contextlib.closing(sqlite3.connect(path)) as con:
                    for log in logs:
                        before = row_counts_of(con)
                        keys[log.index] = store_rows(con, version, log)
                        after = row_counts_of(con)
                        log.rows = {t: after[t] - before[t] for t in after}
                    con.commit()
            disk.settle()
        return sim, disk, path, handle, logs, keys

    def stages(self, plan, disk, path, sql_dir=None, upto=None):
        """ {version: (normal snapshot, shape)} from the starting version on: the scripts run one by one, undisturbed """
        handle = Handle(path)
        saved = disk.save_state()
        out = {}
        first = plan['version'] or 0
        sql_dir = sql_dir or os.path.join(REPO, 'pyulog', 'sql')
        for v in range(first, (upto or DatabaseULog().SCHEMA_VERSION) + 1):
            if v > first:
                with contextlib.closing(sqlite3.connect(path)) as con:
                    run_script(con, os.path.join(sql_dir, 'pyulog.%d.sql' % v), v)
            elif plan['version'] is None:
                out[v] = ({'version': 0}, [])
                continue
            out[v] = (normal(snapshot(handle)), shape(handle))
        disk.restore_state(saved)
        return out

    @staticmethod
    def version_of(handle):
        with contextlib.closing(raw_connection(handle)) as con:
            return con.execute('PRAGMA user_version').fetchone()[0]

    def at_stage(self, disk, path, stages, what):
        """ the database is exactly at one of the stages; returns its version; leaves no traces """
        handle = Handle(path)
        if path not in disk.files:
            return None
        saved = disk.save_state()
        try:
            got = outcome(integrity, handle, what)
            if got[0] == 'error' and got[1] == 'Violation':
                raise Violation('database-damaged', what + got[2])
            if got[0] == 'error':
                raise Violation('database-unusable', '%s%s: %s' % ((what,) + got[1:]))
            version = self.version_of(handle)
            if version not in stages:
                raise Violation('wrong-version', '%srecorded version %s' % (what, version))
            want, want_shape = stages[version]
            have_shape = shape(handle)
            if have_shape != want_shape:
                raise Violation('half-done-step', '%srecorded version %d, but the schema differs: %s' % (
                    what, version, first_difference(want_shape, have_shape)))
            require_same(want, normal(snapshot(handle)), 'content-of-step', what='%sversion %d: ' % (what, version))
            return version
        finally:
            disk.restore_state(saved)

    def migrate(self, path, plan, force=False, noop=False, sql_dir=None):
        """ one run of the migration tool, through its function or its command line """
        from pyulog import migrate_db
        if not plan.get('main'):
            return outcome(migrate_db.migrate_db, path, sql_dir=sql_dir, noop=noop, force=force)
        args = ['-d', path] + (['-n'] if noop else []) + (['-f'] if force else []) + (['-s', sql_dir] if sql_dir else [])
        saved = sys.argv
        sys.argv = ['ulog_migratedb'] + args
        try:
            return outcome(migrate_db.main)
        finally:
            sys.argv = saved

    def shrink(self, plan):
        for i in range(len(plan['logs'])):
            yield dict(plan, logs=plan['logs'][:i] + plan['logs'][i + 1:])
        if plan.get('main'):
            yield dict(plan, main=False)
        for i, rec in enumerate(plan['logs']):
            for smaller in shrink_recording(rec):
                logs = list(plan['logs'])
                logs[i] = smaller
                yield dict(plan, logs=logs)

    @staticmethod
    def some_logs(rng, count):
        logs = [small_log(rng, msgs=rng.choice([4, 8]), boot_text=rng.random() < 0.5) for _ in range(count)]
        for i, rec in enumerate(logs):
            rec['start'] += i * 1000003
        return logs


def first_difference(want, have):
    for a in want:
        if a not in have:
            return 'expected %s' % (a,)
    for a in have:
        if a not in want:
            return 'unexpected %s' % (a,)
    return 'order'


class Interrupted(Migrations):
    id = 'M01'
    rule = ('a migration from an absent, empty or earlier-version database (with or without stored logs), interrupted by one to four '
            'kills, power losses or failing file operations at random points and started again until it completes; non-trivial: at '
            'least one interruption; distinct by event log and workload')
    quick_cases = 150
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        version = rng.choice([None, None, 0, 1, 1, 2, 3, 4])
        plan = {'logs': self.some_logs(rng, rng.choice([0, 0, 1, 2]) if version else 0), 'version': version,
                'main': rng.random() < 0.4}
        probe = run(plan)
        for _ in range(10):
            yield dict(plan, faults=interruptions(rng, probe, rng.choice([1, 1, 1, 2, 3, 4])))

    def execute(self, plan, env):
        sim, disk, path, handle, logs, _ = self.start(plan, env)
        stages = self.stages(plan, disk, path)
        latest = max(stages)
        reached = plan['version'] or 0
        tries = len(plan.get('faults', ())) + 2
        for n in range(tries):
            version = None
            if path in disk.files:
                version = self.peek_version(disk, handle)
            result = []
            before = sum(sim.fired.values())
            force = version == 0
            sim.spawn('migration%d' % n, lambda: result.append(self.migrate(path, plan, force=force)))  # pylint: disable=W0640
            quiet_stdout(sim.run)
            if sim.stuck:
                raise Violation('no-progress', '')
            env.states.append(self.state(disk))
            what = 'run %d: ' % n
            now = self.at_stage(disk, path, stages, what)
            if now is not None:
                if now < reached:
                    raise Violation('went-back', '%sfrom version %d to %d' % (what, reached, now))
                reached = now
            faults = sum(sim.fired.values()) - before
            ok = bool(result) and result[0][0] == 'ok'
            if ok and not sim.power_lost and now != latest and not faults:
                raise Violation('incomplete', '%sreported success at version %s' % (what, now))
            if ok and not faults:
                break
            if faults:
                env.nontrivial = True
                sim.power_lost = False
                continue
            raise Violation('cannot-complete', '%sfrom version %s: %s' % (what, version, result[0][1:] if result else 'no result'))
        else:
            raise Violation('cannot-complete', 'gave up')
        if reached != latest:
            raise Violation('incomplete', 'version %d' % reached)

    def peek_version(self, disk, handle):
        saved = disk.save_state()
        version = self.version_of(handle)
        disk.restore_state(saved)
        return version

    @staticmethod
    def state(disk):
        return ' '.join('%s:%s' % (disk.short(n), vfs.hash_bytes(f.data)) for n, f in sorted(disk.files.items()))


def interruptions(rng, probe, count):
    faults = []
    hot = [s for s, op, _, _ in probe.ops if op in ('write', 'sync', 'delete', 'trunc')]
    every = [s for s, _, _, _ in probe.ops]
    if not every:
        return []
    last = 0
    for _ in range(count):
        if rng.random() < 0.65:
            # steps count on over the repeated runs
            base = last if last and rng.random() < 0.6 else 0
            step = base + rng.choice(hot if hot and rng.random() < 0.75 else every)
            faults.append(crash_fault(rng, step))
            last = step
        else:
            kind = rng.choice(FAIL_KINDS)
            places = [s for s, o, _, _ in probe.ops if o in FITS[kind]]
            if places:
                faults.append({'step': (last if rng.random() < 0.5 else 0) + rng.choice(places), 'kind': kind})
                last = faults[-1]['step']
    return sorted(faults, key=lambda f: f['step'])


# ------------------------------------------------------------------------------------------------- M02
class KeepsLogs(Migrations):
    id = 'M02'
    rule = ('a database of each earlier version holding one to three logs is migrated, mostly with one to three interruptions, then every '
            'log is loaded, looked up, deleted and saved again; non-trivial: the logs have content in several tables; distinct by '
            'event log and workload')
    quick_cases = 360
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        plan = {'logs': self.some_logs(rng, rng.choice([1, 2, 3])), 'version': rng.choice([1, 1, 2, 3, 4]),
                'main': rng.random() < 0.3, 'order': rng.getrandbits(16), 'json': rng.random() < 0.3}
        probe = run(plan)
        for _ in range(4):
            yield dict(plan, faults=interruptions(rng, probe, rng.choice([1, 1, 2, 3])))

    def execute(self, plan, env):
        import random
        sim, disk, path, handle, logs, keys = self.start(plan, env)
        cls = DatabaseULog()
        tries = len(plan.get('faults', ())) + 2
        for n in range(tries):
            result = []
            before = sum(sim.fired.values())
            sim.spawn('migration%d' % n, lambda: result.append(self.migrate(path, plan)))  # pylint: disable=W0640
            quiet_stdout(sim.run)
            if sim.stuck:
                raise Violation('no-progress', '')
            if result and result[0][0] == 'ok' and sum(sim.fired.values()) == before:
                break
            if sum(sim.fired.values()) == before:
                raise Violation('cannot-migrate', 'from version %d: %s' % (plan['version'], result[0][1:] if result else ''))
        else:
            raise Violation('cannot-migrate', 'gave up')
        integrity(handle)
        env.nontrivial = any(sum(1 for v in log.rows.values() if v) > 4 for log in logs)
        rng = random.Random(plan['order'])
        present = dict(keys)
        with contextlib.closing(raw_connection(handle)) as con:
            empty = {t: n - sum(log.rows.get(t, 0) for log in logs) for t, n in row_counts_of(con).items()}
        if any(empty.values()):
            raise Violation('rows-changed', '%s' % {t: n for t, n in empty.items() if n})
        todo = [('load', log) for log in logs] + [('remove', log) for log in logs]
        rng.shuffle(todo)
        for what, log in todo:
            i = log.index
            if what == 'load':
                if i not in present:
                    continue
                load_and_compare(handle, present[i], log.want, 'lost', 'log %d after the migration: ' % i)
                found = cls.primary_key_from_sha256sum(handle, log.sha)
                if plan['version'] >= 2 and found != present[i]:
                    raise Violation('not-found', 'log %d by its hash: %s' % (i, found))
                if not cls.exists_in_db(handle, present[i]):
                    raise Violation('not-found', 'log %d by its key' % i)
                continue
            self.remove_and_save(plan, handle, logs, present, i)
        for i, pk in present.items():
            load_and_compare(handle, pk, logs[i].want, 'lost', 'log %d at the end: ' % i)

    def remove_and_save(self, plan, handle, logs, present, i):
        cls = DatabaseULog()
        got = outcome(lambda: cls(handle, primary_key=present[i]).delete())
        if got[0] == 'error':
            raise Violation('cannot-delete', 'log %d: %s: %s' % ((i,) + got[1:]))
        if cls.exists_in_db(handle, present[i]):
            raise Violation('cannot-delete', 'log %d is still there' % i)
        del present[i]
        with contextlib.closing(raw_connection(handle)) as con:
            counts = row_counts_of(con)
        left = {t: n - sum(logs[k].rows.get(t, 0) for k in present) for t, n in counts.items()}
        if any(left.values()):
            raise Violation('leftover-rows', 'after deleting log %d: %s' % (i, {t: n for t, n in left.items() if n}))
        again = outcome(logs[i].open, handle)
        if again[0] == 'ok':
            saved = outcome(again[1].save, append_json=plan['json'])
        else:
            saved = again
        if saved[0] == 'error':
            raise Violation('cannot-save', 'log %d: %s: %s' % ((i,) + saved[1:]))
        present[i] = again[1].primary_key
        if cls.primary_key_from_sha256sum(handle, logs[i].sha) != present[i]:
            raise Violation('not-found', 'log %d saved again' % i)
        load_and_compare(handle, present[i], logs[i].want, 'lost', 'log %d saved again: ' % i)


# ------------------------------------------------------------------------------------------------- M03
class ConcurrentMigrations(Migrations):
    id = 'M03'
    rule = ('two or three migration processes, a watching process that reads version and schema in one transaction, and up to two clients '
            'that load and save logs, switched at random file operations, sometimes one is killed; non-trivial: two processes write '
            'to the database file or overlap a writing one; distinct by event log (schedule) and workload')
    quick_cases = 180
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        version = rng.choice([None, 1, 1, 2, 3, 4, 5])
        logs = self.some_logs(rng, rng.choice([1, 2]) if version else 1)
        tasks = ['migrate'] * rng.choice([1, 2, 2, 2, 3])
        tasks += [rng.choice(['load', 'save', 'client']) for _ in range(rng.choice([0, 1, 1, 2]))]
        if version is not None:
            tasks.append('watch')
        plan = {'logs': logs, 'version': version, 'tasks': tasks}
        probe = run(plan)
        locks = [s for s, op, _, _ in probe.ops if op in ('lock', 'unlock', 'open')]
        for _ in range(8):
            where = set()
            for _ in range(rng.choice([1, 2, 3, 6, 12, 40])):
                where.add(rng.choice(locks) if locks and rng.random() < 0.5 else rng.randrange(1, probe.steps + 2))
            faults = []
            pick = rng.random()
            if pick < 0.12:
                faults = [{'kind': 'kill', 'step': rng.randrange(1, probe.steps + 1)}]
            elif pick < 0.2:
                faults = [crash_fault(rng, rng.randrange(1, probe.steps + 1))]
            elif pick < 0.3:
                faults = [{'kind': 'stall', 'us': rng.choice([1000, 3000000, 8000000]), 'step': rng.randrange(1, probe.steps + 1)}]
            yield dict(plan, preempt=[[s, rng.randrange(4)] for s in sorted(where)], faults=faults)

    def shrink(self, plan):
        for k in range(len(plan['tasks'])):
            yield dict(plan, tasks=plan['tasks'][:k] + plan['tasks'][k + 1:])
        yield from super().shrink(plan)

    def execute(self, plan, env):
        sim, disk, path, handle, logs, keys = self.start(plan, env)
        cls = DatabaseULog()
        stages = self.stages(plan, disk, path)
        latest = cls.SCHEMA_VERSION
        stored = [log for log in logs if log.index in keys]
        finished = []            # steps at which a migration reported success
        saved = {}
        results = []

        def migrate():
            me = sim.current
            got = self.migrate(path, {})
            if me.dead:
                return
            if got[0] == 'ok':
                finished.append(sim.step)
                return
            refused = got[1] == 'FileExistsError' and plan['version'] is None
            if not is_locked(got) and not refused:
                raise_later(sim, Violation('migration-failed', '%s: %s' % got[1:]))

        def refuse_check(kind):
            # the version never decreases: if the file does not have the newest one yet, nobody can have seen it
            version = int.from_bytes(bytes(disk.files[path].data[60:64]), 'big') if path in disk.files else None
            if version is not None and version < latest:
                raise_later(sim, Violation('client-not-refused', '%s: works with version %d' % (kind, version)))

        def client(kind):
            def run():
                me = sim.current
                for n in range(2):
                    since = sim.step
                    if kind == 'load' or (kind == 'client' and n == 0):
                        if not stored:
                            return
                        log = stored[n % len(stored)]
                        got = outcome(cls, handle, primary_key=keys[log.index], lazy=False)
                        if got[0] == 'ok' and not me.dead:
                            refuse_check(kind)
                    else:
                        log = logs[-1]
                        got = outcome(log.open, handle)
                        if got[0] == 'ok' and not me.dead:
                            obj = got[1]
                            refuse_check(kind)
                            got = outcome(obj.save)
                            if got[0] == 'ok':
                                saved[log.index] = obj.primary_key
                                got = ('ok', None)
                            elif got[1] in ('KeyError', 'IntegrityError'):
                                got = ('ok', None)        # stored already
                    if me.dead:
                        return
                    results.append((kind, since, log, got))
            return run

        def watch():
            me = sim.current
            last = plan['version']
            for _ in range(4):
                got = outcome(self.look, handle)
                if me.dead:
                    return
                if got[0] == 'error':
                    if not is_locked(got):
                        raise_later(sim, Violation('unreadable-meanwhile', '%s: %s' % got[1:]))
                        return
                    continue
                version, form = got[1]
                if version < last:
                    raise_later(sim, Violation('went-back', 'version %d seen after %d' % (version, last)))
                last = max(last, version)
                if version not in stages or stages[version][1] != form:
                    raise_later(sim, Violation('version-and-schema-differ', 'version %d: %s' % (
                        version, first_difference(stages[version][1], form) if version in stages else 'unknown version')))
                    return
        for n, kind in enumerate(plan['tasks']):
            body = migrate if kind == 'migrate' else watch if kind == 'watch' else client(kind)
            sim.spawn('%s%d' % (kind, n), body)
        quiet_stdout(sim.run)
        check_later(sim)
        if sim.stuck:
            raise Violation('no-progress', '')
        writers = {}
        for step, op, task, detail in sim.ops:
            if op == 'write':
                writers.setdefault(task, []).append(step)
        spans = [(min(v), max(v)) for v in writers.values()]
        env.nontrivial = any(lo < step < hi and task not in ws for ws, (lo, hi) in zip([[t] for t in writers], spans)
                             for step, op, task, _ in sim.ops)
        for kind, since, log, got in results:
            if got[0] == 'ok':
                if got[1] is not None:
                    from .base import canon
                    require_same(log.want, canon(got[1]), 'client-read', ('corrupt',), 'log %d: ' % log.index)
                continue
            if is_locked(got):
                sim.probe('client gave up on a lock')
                continue
            if got[1] in ('ValueError', 'KeyError') or 'no such' in got[2]:
                if (finished and since > min(finished)) or (plan['version'] == latest):
                    raise Violation('client-refused', '%s after the migration: %s: %s' % ((kind,) + got[1:]))
                if got[1] != 'ValueError' and plan['version'] is not None:
                    raise Violation('client-not-refused', '%s: %s: %s' % ((kind,) + got[1:]))
                sim.probe('client refused')
                continue
            raise Violation('client-failed', '%s: %s: %s' % ((kind,) + got[1:]))
        version = self.peek(disk, path, handle)
        if finished and not sim.power_lost and version != latest:
            raise Violation('wrong-version', 'a migration succeeded, version is %s' % version)
        if version is not None and version < (plan['version'] or 0):
            raise Violation('went-back', 'version %d' % version)
        if not saved and not self.any_saved(disk, handle, version, stored):
            self.at_stage(disk, path, stages, 'after all of them: ')
        again = quiet_stdout(self.migrate, path, {}, force=version == 0)
        if again[0] == 'error':
            raise Violation('cannot-migrate-again', '%s: %s' % again[1:])
        if self.version_of(handle) != latest or shape(handle) != stages[latest][1]:
            raise Violation('wrong-schema', 'after another migration')
        integrity(handle)
        for log in stored:
            load_and_compare(handle, keys[log.index], log.want, 'log-changed', 'log %d: ' % log.index)
            if plan['version'] >= 2 and cls.primary_key_from_sha256sum(handle, log.sha) != keys[log.index]:
                raise Violation('hash-lost', 'log %d' % log.index)
        for i, pk in saved.items():
            if not sim.power_lost:
                load_and_compare(handle, pk, logs[i].want, 'log-changed', 'saved log %d: ' % i)

    def any_saved(self, disk, handle, version, stored):
        if version != DatabaseULog().SCHEMA_VERSION:
            return False
        state = disk.save_state()
        with contextlib.closing(raw_connection(handle)) as con:
            count = con.execute('SELECT COUNT(*) FROM ULog').fetchone()[0]
        disk.restore_state(state)
        return count != len(stored)

    def peek(self, disk, path, handle):
        if path not in disk.files:
            return None
        state = disk.save_state()
        version = self.version_of(handle)
        disk.restore_state(state)
        return version

    @staticmethod
    def look(handle):
        con = raw_connection(handle)
        try:
            con.isolation_level = None
            con.execute('BEGIN')
            version = con.execute('PRAGMA user_version').fetchone()[0]
            con.execute('SELECT COUNT(*) FROM sqlite_master').fetchone()
            form = shape_of(con)
            con.execute('COMMIT')
            return version, form
        finally:
            con.close()


# ------------------------------------------------------------------------------------------------- M04
BAD_SCRIPTS = {
    'no-begin': 'CREATE TABLE Marker_ (x);\nCOMMIT;\n',
    'no-commit': 'BEGIN;\nCREATE TABLE Marker_ (x);\n',
    'neither': 'CREATE TABLE Marker_ (x);\n',
    'empty': '',
    'rollback': 'BEGIN;\nCREATE TABLE Marker_ (x);\nROLLBACK;\n',
    'statement-before': 'CREATE TABLE Marker_ (x);\nBEGIN;\nCOMMIT;\n',
    'statement-after': 'BEGIN;\nCOMMIT;\nCREATE TABLE Marker_ (x);\n',
    'effect-then-statement': 'BEGIN;\nCREATE TABLE Marker_ (x);\nCOMMIT;\nCREATE TABLE Other_ (x);\n',
    'effect-then-comment': 'BEGIN;\nCREATE TABLE Marker_ (x);\nCOMMIT;\n-- finished\n',
    'statement-then-effect': 'CREATE TABLE Other_ (x);\nBEGIN;\nCREATE TABLE Marker_ (x);\nCOMMIT;\n',
    'comment-then-effect': '-- BEGIN;\nCREATE TABLE Marker_ (x);\nCOMMIT;\n',
    'commit-in-comment': 'BEGIN;\nCREATE TABLE Marker_ (x);\nCOMMIT; -- COMMIT; --\n',
    'effect-without-commit': 'BEGIN;\nCREATE TABLE Marker_ (x);\nCOMMIT;\nBEGIN;\nCREATE TABLE Other_ (x);\nROLLBACK;\n',
    'begin-immediate': 'BEGIN IMMEDIATE;\nCREATE TABLE Marker_ (x);\nCOMMIT;\n',
    'end': 'BEGIN;\nCREATE TABLE Marker_ (x);\nEND;\n',
    'missing': None,
}


class Refused(Migrations):
    id = 'M04'
    rule = ('dry runs, unforced runs on databases without a version, and runs with a missing or unenclosed script at a random position, on '
            'databases of every version, half of them left behind by a killed or power-failed writer; non-trivial: the database holds '
            'logs or is a leftover of a crash; distinct by event log and workload')
    quick_cases = 1280
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        kind = rng.choice(['dry', 'dry', 'unversioned', 'script', 'script'])
        version = rng.choice([0, 1, 2, 3, 4, 5]) if kind == 'dry' else 0 if kind == 'unversioned' else rng.choice([0, 1, 2, 3, 4])
        plan = {'logs': self.some_logs(rng, rng.choice([0, 1, 2])), 'version': version, 'kind': kind, 'main': rng.random() < 0.5,
                'force': version == 0 if kind != 'unversioned' else False, 'leftover': None}
        if kind == 'dry' and rng.random() < 0.3:
            plan['force'] = not plan['force']
        if kind == 'unversioned':
            plan['stranger'] = rng.random() < 0.7
        if kind == 'script':
            plan['bad'] = [rng.randrange(version + 1, LATEST + 1), rng.choice(sorted(BAD_SCRIPTS))]
            plan['dry'] = rng.random() < 0.2
        run(plan)
        for _ in range(3):
            mode = rng.choice(['kill', 'power'])
            yield dict(plan, leftover=crash_fault(rng, 0) if mode == 'power' else {'kind': 'kill', 'step': 0},
                       leftover_at=rng.random())

    def shrink(self, plan):
        if plan['leftover']:
            yield dict(plan, leftover=None)
        if plan.get('stranger'):
            yield dict(plan, stranger=False)
        yield from super().shrink(plan)

    def execute(self, plan, env):
        sim, disk, path, handle, logs, _ = self.start(plan, env)
        cls = DatabaseULog()
        if plan.get('stranger'):
            with contextlib.closing(sqlite3.connect(path)) as con:
                con.executescript('CREATE TABLE Foreign_ (a, b); INSERT INTO Foreign_ VALUES (1, 2); '
                                  'CREATE TABLE IF NOT EXISTS ULog (Id INTEGER PRIMARY KEY, Note TEXT); INSERT INTO ULog VALUES (7, "x");')
            disk.settle()
        if plan['leftover']:
            self.leave_behind(plan, sim, disk, path)
        sql_dir = None
        if plan['kind'] == 'script':
            sql_dir = os.path.join(env.root, 'sql')
            os.mkdir(sql_dir)
            for v in range(1, LATEST + 1):
                text = read_text(os.path.join(SCHEMAS, 'pyulog.%d.sql' % v))
                if v == plan['bad'][0]:
                    text = BAD_SCRIPTS[plan['bad'][1]]
                if text is not None:
                    with open(os.path.join(sql_dir, 'pyulog.%d.sql' % v), 'w', encoding='utf8') as out:
                        out.write(text)
        dry = plan['kind'] == 'dry' or bool(plan.get('dry'))
        allowed = {}
        saved = disk.save_state()
        snap = snapshot(handle)
        version = snap['version']
        disk.restore_state(saved)
        allowed[version] = snap
        if plan['kind'] == 'script' and not dry and version < plan['bad'][0] - 1:
            for v in range(version + 1, plan['bad'][0]):
                with contextlib.closing(sqlite3.connect(path)) as con:
                    run_script(con, os.path.join(SCHEMAS, 'pyulog.%d.sql' % v), v)
                allowed[v] = snapshot(handle)
            disk.restore_state(saved)
        files = set(disk.files)
        force = plan['force']
        got = []
        sim.spawn('migration', lambda: got.append(self.migrate(path, plan, force=force, noop=dry, sql_dir=sql_dir)))
        quiet_stdout(sim.run)
        if sim.stuck:
            raise Violation('no-progress', '')
        env.nontrivial = bool(plan['logs']) or bool(plan['leftover'])
        result = got[0]
        if plan['kind'] == 'unversioned' and result[0] == 'ok':
            raise Violation('not-refused', 'a database without a version')
        if plan['kind'] == 'script' and result[0] == 'ok' and not dry and version < plan['bad'][0]:
            raise Violation('not-refused', 'script %s' % plan['bad'])
        if plan['kind'] == 'dry' and result[0] == 'error' and (version > 0 or force):
            raise Violation('dry-run-failed', '%s: %s' % result[1:])
        now = snapshot(handle)
        if now['version'] not in allowed:
            raise Violation('version-changed', '%d, from %d' % (now['version'], version))
        require_same(allowed[now['version']], now, 'content-changed', what='version %d: ' % now['version'])
        del files, cls

    def leave_behind(self, plan, sim, disk, path):
        """ a writer that crashes in the middle of its transaction """
        from ..core import Sim
        inner = Sim(faults=[])
        disk.sim, outer = inner, disk.sim
        inner.on_kill, inner.on_power_loss = disk.kill_proc, disk.power_loss
        saved = disk.save_state()

        def write():
            con = sqlite3.connect(path)
            con.execute('PRAGMA cache_size=2')
            con.execute('CREATE TABLE IF NOT EXISTS Other_ (x)')
            for n in range(8):
                con.execute('INSERT INTO Other_ VALUES (?)', ('v%d' % n * 400,))
            tables = [t for (t,) in con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name LIKE 'ULog%'")]
            for table in tables[:4]:
                con.execute('DELETE FROM %s' % table)
            con.execute('PRAGMA user_version=77')
            con.commit()
            con.close()
        inner.spawn('writer', lambda: outcome(write))
        inner.run()
        hot = [s for s, op, _, _ in inner.ops if op in ('write', 'sync', 'delete', 'trunc')]
        last = max([s for s, op, _, _ in inner.ops if op == 'delete'] or [1])
        disk.restore_state(saved)
        places = [s for s in hot if s <= last]
        again = Sim(faults=[dict(plan['leftover'], step=places[int(plan['leftover_at'] * len(places))])] if places else [])
        disk.sim = again
        again.on_kill, again.on_power_loss = disk.kill_proc, disk.power_loss
        again.spawn('writer', lambda: outcome(write))
        again.run()
        for kind, n in again.fired.items():
            for _ in range(n):
                sim.fire(kind)
        disk.sim = outer
        outer.on_kill, outer.on_power_loss = disk.kill_proc, disk.power_loss


del glob
