""" shared by the database scenarios """
import contextlib
import hashlib
import io
import os
import sqlite3
import sys

from .. import content as C
from .. import recorder as R
from .. import vfs
from ..core import Violation
from .base import Scenario, canon, outcome, require_same, shrink_recording, write_file

_TEMPLATE = {}

DB_REAL = ['pyulog.db.DatabaseULog', 'pyulog.core.ULog (parser)', 'SQLite library with its rollback journal and locking protocol',
           'Python sqlite3 module']
DB_STUB = ['SQLite VFS: files, page cache, locks, fsync, clock and sleep (simulated disk)',
           'process scheduler (simulated: one thread per process, switched at file operations)',
           'flight logger and publishers (simulated)']
DB_ASSUMPTIONS = ['file content is durable once synced; unsynced sectors may survive or get lost independently; creating and deleting '
                  'a file is durable at once', 'a synced write does not change neighbouring sectors (powersafe overwrite)',
                  'locks of a killed process are released by the kernel']


def new_disk(sim, env):
    disk = vfs.SimDisk(sim, env.root)
    vfs.instance().attach(disk)
    return disk


def put_file(disk, path, data):
    file = vfs.SimFile(path)
    file.data = bytearray(data)
    file.durable = bytes(data)
    disk.files[path] = file
    disk._mirror(file)


def quiet_stdout(fn, *args, **kwargs):
    """ run fn with its output thrown away """
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        return fn(*args, **kwargs)
    finally:
        sys.stdout = out


def make_image(key, build):
    """ bytes of a database file made by build(path); cached per worker process """
    if key not in _TEMPLATE:
        import tempfile
        from .. import core, engine
        sim = core.Sim()
        root = tempfile.mkdtemp(dir=engine._WORKER['root'])
        disk = vfs.SimDisk(sim, root)
        saved = vfs.instance().disk
        vfs.instance().attach(disk)
        path = os.path.join(root, 'db.sqlite3')
        quiet_stdout(build, path)
        _TEMPLATE[key] = bytes(disk.files[path].data)
        if saved is not None:
            vfs.instance().attach(saved)
    return _TEMPLATE[key]


def migrated_image():
    """ an empty, fully migrated database, made by the code under test """
    def build(path):
        from pyulog.migrate_db import migrate_db
        migrate_db(path)
    return make_image('migrated', build)


def template_db(sim, env, name='db.sqlite3'):
    image = migrated_image()
    disk = new_disk(sim, env)
    path = os.path.join(env.root, name)
    put_file(disk, path, image)
    return Handle(path)


_HANDLES = []


def Handle(path):  # pylint: disable=invalid-name
    """ what a process gets from get_db_handle """
    from pyulog.db import DatabaseULog
    handle = DatabaseULog.get_db_handle(path)
    _HANDLES.append((handle, path))
    del _HANDLES[:-100]
    return handle


class LogFile:
    """ one recorded log of a scenario: its file, content hash and expected content """

    def __init__(self, env, index, rec):
        self.index = index
        self.rec = rec
        raw, _ = R.encode(rec)
        self.path = os.path.join(env.root, 'log%d.ulg' % index)
        write_file(self.path, raw)
        self.sha = hashlib.sha256(raw).hexdigest()
        self.want = C.model_view(R.expected(rec))

    def open(self, handle):
        from pyulog.db import DatabaseULog
        return DatabaseULog(handle, log_file=self.path)


def small_log(rng, **opts):
    base = {'db': True, 'modest': True, 'topics': rng.choice([1, 2, 3]), 'max_fields': 3, 'msgs': rng.choice([4, 8, 15]),
            'few_extra': rng.random() < 0.5}
    base.update(opts)
    return R.generate(rng, base)


def raw_connection(handle):
    """ a connection of the checks themselves """
    return sqlite3.connect(next(path for known, path in reversed(_HANDLES) if known is handle))


def tables(con):
    return [n for (n,) in con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite%' "
                                      "ORDER BY name")]


def row_counts(handle):
    """ number of rows of every table """
    con = raw_connection(handle)
    try:
        return {t: con.execute('SELECT COUNT(*) FROM "%s"' % t).fetchone()[0] for t in tables(con)}
    finally:
        con.close()


def snapshot(handle):
    """ the whole content of the database: schema and rows """
    con = raw_connection(handle)
    try:
        con.text_factory = bytes
        out = {'schema': sorted(repr(r) for r in con.execute('SELECT type, name, tbl_name, sql FROM sqlite_master')),
               'version': con.execute('PRAGMA user_version').fetchone()[0]}
        names = [n.decode() for (n,) in con.execute(
            "SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite%' ORDER BY name")]
        for table in names:
            columns = [r[1].decode() for r in con.execute('PRAGMA table_info("%s")' % table)]
            # quote(): independent of converters for declared types
            what = ', '.join('quote("%s")' % c for c in columns)
            rows = [repr(tuple(r)) for r in con.execute('SELECT %s FROM "%s"' % (what, table))]
            out[table] = sorted(rows)
        return out
    finally:
        con.close()


def integrity(handle, what=''):
    con = raw_connection(handle)
    try:
        rows = outcome(lambda: con.execute('PRAGMA integrity_check').fetchall())
        if rows != ('ok', [('ok',)]):
            raise Violation('database-damaged', '%s%s' % (what, rows[1:]))
        if con.execute('PRAGMA foreign_key_check').fetchall():
            raise Violation('dangling-rows', what)
    finally:
        con.close()


def total(base, per_log, present):
    out = dict(base)
    for i in present:
        for table, n in per_log[i].items():
            out[table] = out.get(table, 0) + n
    return out


def count_diff(before, after):
    return {t: after[t] - before.get(t, 0) for t in after}


def load_and_compare(handle, pk, want, kind, what=''):
    """ a stored log, loaded in full by a new client, is exactly this """
    from pyulog.db import DatabaseULog
    got = outcome(lambda: DatabaseULog(handle, primary_key=pk, lazy=False))
    if got[0] == 'error':
        raise Violation(kind + '-unloadable', '%s%s: %s' % ((what,) + got[1:]))
    require_same(want, canon(got[1]), kind, ('corrupt',), what)


class DbScenario(Scenario):
    real = DB_REAL
    stub = DB_STUB
    assumptions = DB_ASSUMPTIONS
    state_measure = 'hash of the contents of all files after the faults'

    resident_share = 0.2

    def all_plans(self, rng, run, tier):
        """ a share of the runs starts from a database that was migrated from an earlier version with logs in it """
        if rng.random() >= self.resident_share:
            yield from self.plans(rng, run, tier)
            return
        logs = [small_log(rng, msgs=4, topics=1) for _ in range(rng.choice([1, 1, 2]))]
        for i, rec in enumerate(logs):
            rec['start'] += (i + 7) * 1000003
        extra = {'residents': {'version': rng.choice([1, 1, 2, 3, 4]), 'logs': logs}}
        for plan in self.plans(rng, lambda plan: run(dict(plan, **extra)), tier):
            yield dict(plan, **extra)

    def finish(self, plan, env):
        if getattr(env, 'residents', None):
            handle, residents = env.residents
            for pk, want in residents:
                load_and_compare(handle, pk, want, 'other-log-changed', 'log from before the migration: ')

    def shrink(self, plan):
        if plan.get('residents'):
            yield {k: v for k, v in plan.items() if k != 'residents'}
            logs = plan['residents']['logs']
            if len(logs) > 1:
                for i in range(len(logs)):
                    yield dict(plan, residents=dict(plan['residents'], logs=logs[:i] + logs[i + 1:]))
        for i, rec in enumerate(plan.get('logs', ())):
            for smaller in shrink_recording(rec):
                logs = list(plan['logs'])
                logs[i] = smaller
                yield dict(plan, logs=logs)

    def setup(self, plan, env, **kwargs):
        """ -> sim, disk, handle, logs; nothing stored yet """
        from .. import simio
        sim = env.new_sim(plan, **kwargs)
        simio.attach(simio.FileWorld(sim, os.path.join(env.root, 'nothing-here')))   # simulated time.sleep only
        if plan.get('residents'):
            handle = self.inhabited_db(plan['residents'], sim, env)
        else:
            handle = template_db(sim, env)
        disk = vfs.instance().disk
        logs = [LogFile(env, i, rec) for i, rec in enumerate(plan['logs'])]
        return sim, disk, handle, logs

    @staticmethod
    def inhabited_db(residents, sim, env):
        """ logs stored by an earlier pyulog, then migrated by this one """
        from pyulog.db import DatabaseULog
        from pyulog.migrate_db import migrate_db
        from .migrations import schema_image, store_rows
        image = schema_image(residents['version'])
        disk = new_disk(sim, env)
        path = os.path.join(env.root, 'db.sqlite3')
        put_file(disk, path, image)
        logs = [LogFile(env, 100 + i, rec) for i, rec in enumerate(residents['logs'])]
        with contextlib.closing(sqlite3.connect(path)) as con:
            found = [(store_rows(con, residents['version'], log), log.want) for log in logs]
            con.commit()
        quiet_stdout(migrate_db, path)
        disk.settle()
        handle = Handle(path)
        env.residents = (handle, found)
        return handle

    def store(self, disk, handle, logs, which, json=False):
        """ save these logs without faults -> {index: pk}, per-log row counts, base counts """
        base = row_counts(handle)
        pks, per_log = {}, {}
        for i in which:
            before = row_counts(handle)
            log = logs[i].open(handle)
            log.save(append_json=json)
            pks[i] = log.primary_key
            per_log[i] = count_diff(before, row_counts(handle))
        disk.settle()
        return pks, per_log, base

    def measure(self, disk, handle, logs, per_log):
        """ row counts of logs that are not stored yet (stored and removed again, from outside) """
        for i, log in enumerate(logs):
            if i in per_log:
                continue
            image = {n: bytes(f.data) for n, f in disk.files.items()}
            before = row_counts(handle)
            got = outcome(lambda: log.open(handle).save())
            per_log[i] = count_diff(before, row_counts(handle)) if got[0] == 'ok' else {}
            for name in list(disk.files):
                if name not in image:
                    disk.files.pop(name)
                    disk._unmirror(name)
            for name, data in image.items():
                put_file(disk, name, data)

    @staticmethod
    def state_of(disk):
        return ' '.join('%s:%s' % (disk.short(n), vfs.hash_bytes(f.data)) for n, f in sorted(disk.files.items()))


def is_locked(res):
    return res[0] == 'error' and res[1] == 'OperationalError' and 'locked' in res[2]


def sqlite_error(name):
    cls = getattr(sqlite3, name, None)
    return isinstance(cls, type) and issubclass(cls, sqlite3.Error)
