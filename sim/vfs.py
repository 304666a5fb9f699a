"""
Simulated disk below the real SQLite library: an sqlite3_vfs implemented with ctypes and registered as
the default VFS of this process, so that the unmodified `sqlite3` module uses it for every path.

Files live in memory (page cache view + last durable view + writes since); the page cache view is
mirrored to a real scratch directory, so that code which looks at the path (os.path.isfile, ...) sees it.
Locks are SQLite's five levels, kept per open handle; a handle belongs to the simulated process (task)
that opened it.  Assumptions about the medium: creating and deleting a name is durable at once and in
order; file content is durable when synced; an unsynced write may be lost, persist, or persist in part
(512-byte sectors), or leave garbage, independently per sector.
"""
import ctypes
import os
import random
from ctypes import (CFUNCTYPE, POINTER, Structure, byref, c_char_p, c_double, c_int, c_int64, c_void_p,
                    cast, memmove, memset, sizeof, string_at)

from .core import HarnessError, SimKilled, SimStuck

SQLITE_OK, SQLITE_BUSY, SQLITE_NOMEM = 0, 5, 7
SQLITE_IOERR, SQLITE_NOTFOUND, SQLITE_FULL, SQLITE_CANTOPEN = 10, 12, 13, 14
IOERR_READ, IOERR_SHORT_READ, IOERR_WRITE = 10 | 1 << 8, 10 | 2 << 8, 10 | 3 << 8
IOERR_FSYNC, IOERR_TRUNCATE, IOERR_DELETE = 10 | 4 << 8, 10 | 6 << 8, 10 | 10 << 8
IOERR_ACCESS, IOERR_LOCK, IOERR_DELETE_NOENT = 10 | 13 << 8, 10 | 15 << 8, 10 | 23 << 8
OPEN_CREATE, OPEN_DELETEONCLOSE, OPEN_READWRITE = 0x4, 0x8, 0x2
OPEN_MAIN_DB = 0x100
IOCAP_PSOW = 0x1000
LOCK_NONE, LOCK_SHARED, LOCK_RESERVED, LOCK_PENDING, LOCK_EXCLUSIVE = range(5)
SECTOR = 512


class SqliteFile(Structure):
    _fields_ = [('pMethods', c_void_p), ('hid', c_int64)]


FP = POINTER(SqliteFile)
_IO = [
    ('xClose', CFUNCTYPE(c_int, FP)),
    ('xRead', CFUNCTYPE(c_int, FP, c_void_p, c_int, c_int64)),
    ('xWrite', CFUNCTYPE(c_int, FP, c_void_p, c_int, c_int64)),
    ('xTruncate', CFUNCTYPE(c_int, FP, c_int64)),
    ('xSync', CFUNCTYPE(c_int, FP, c_int)),
    ('xFileSize', CFUNCTYPE(c_int, FP, POINTER(c_int64))),
    ('xLock', CFUNCTYPE(c_int, FP, c_int)),
    ('xUnlock', CFUNCTYPE(c_int, FP, c_int)),
    ('xCheckReservedLock', CFUNCTYPE(c_int, FP, POINTER(c_int))),
    ('xFileControl', CFUNCTYPE(c_int, FP, c_int, c_void_p)),
    ('xSectorSize', CFUNCTYPE(c_int, FP)),
    ('xDeviceCharacteristics', CFUNCTYPE(c_int, FP)),
]


class IoMethods(Structure):
    _fields_ = [('iVersion', c_int)] + _IO


_VFS = [
    ('xOpen', CFUNCTYPE(c_int, c_void_p, c_void_p, FP, c_int, POINTER(c_int))),
    ('xDelete', CFUNCTYPE(c_int, c_void_p, c_char_p, c_int)),
    ('xAccess', CFUNCTYPE(c_int, c_void_p, c_char_p, c_int, POINTER(c_int))),
    ('xFullPathname', CFUNCTYPE(c_int, c_void_p, c_char_p, c_int, c_void_p)),
    ('xDlOpen', c_void_p), ('xDlError', c_void_p), ('xDlSym', c_void_p), ('xDlClose', c_void_p),
    ('xRandomness', CFUNCTYPE(c_int, c_void_p, c_int, c_void_p)),
    ('xSleep', CFUNCTYPE(c_int, c_void_p, c_int)),
    ('xCurrentTime', CFUNCTYPE(c_int, c_void_p, POINTER(c_double))),
    ('xGetLastError', CFUNCTYPE(c_int, c_void_p, c_int, c_void_p)),
]


class Vfs(Structure):
    _fields_ = [('iVersion', c_int), ('szOsFile', c_int), ('mxPathname', c_int), ('pNext', c_void_p),
                ('zName', c_char_p), ('pAppData', c_void_p)] + _VFS


class SimFile:
    def __init__(self, name):
        self.name = name
        self.data = bytearray()        # what every process sees (page cache)
        self.durable = b''             # what survives a power loss for certain
        self.pending = []              # writes since: (offset, bytes) or ('trunc', size)
        self.handles = set()
        self.reserved = None
        self.pending_lock = None
        self.exclusive = None
        self.shared = set()

    def sync(self):
        if self.pending:
            self.durable = bytes(self.data)
            self.pending = []


class Handle:
    __slots__ = ('hid', 'file', 'proc', 'level', 'delete_on_close', 'temp', 'dead')

    def __init__(self, hid, file, proc, delete_on_close, temp):
        self.hid, self.file, self.proc = hid, file, proc
        self.level = LOCK_NONE
        self.delete_on_close = delete_on_close
        self.temp = temp
        self.dead = False


class SimDisk:
    """ all files of one simulated machine """

    def __init__(self, sim, root):
        self.sim = sim
        self.root = root               # real scratch directory mirrored to
        self.files = {}
        self.handles = {}
        self.capacity = None           # bytes; None: unlimited
        self.rand = random.Random(4711)
        sim.on_kill = self.kill_proc
        sim.on_power_loss = self.power_loss
        self.sync_count = 0
        self.write_count = 0

    # -- mirror ------------------------------------------------------------------------------------
    def _mirror(self, file, offset=None, data=None):
        if file.name is None:
            return
        try:
            if data is None:
                with open(file.name, 'wb', opener=_real_opener) as out:
                    out.write(file.data)
            else:
                fd = os.open(file.name, os.O_WRONLY)
                try:
                    os.pwrite(fd, data, offset)
                finally:
                    os.close(fd)
        except OSError as exc:
            raise HarnessError('mirror: %r' % exc)

    def _unmirror(self, name):
        try:
            os.unlink(name)
        except FileNotFoundError:
            pass

    def short(self, name):
        return os.path.basename(name) if name else 'temp'

    # -- crashes -----------------------------------------------------------------------------------
    def kill_proc(self, proc):
        """ the kernel cleans up after a killed process: locks gone, page cache stays """
        for handle in [h for h in self.handles.values() if h.proc is proc]:
            self._drop(handle)

    def _drop(self, handle):
        self._release(handle, LOCK_NONE)
        handle.dead = True
        handle.file.handles.discard(handle)

    def power_loss(self, fault):
        rand = random.Random(int(fault.get('pick', 0)))
        mode = fault.get('mode', 'random')
        for handle in list(self.handles.values()):
            self._drop(handle)
        for name in sorted(self.files):
            file = self.files[name]
            image = bytearray(file.durable)
            for off, data in file.pending:
                if off == 'trunc':
                    if mode == 'keep' or (mode != 'lose' and rand.random() < 0.5):
                        if data < len(image):
                            del image[data:]
                        else:
                            image.extend(bytes(data - len(image)))
                    continue
                pos = off
                end = off + len(data)
                while pos < end:
                    stop = min(end, (pos // SECTOR + 1) * SECTOR)
                    if mode == 'keep':
                        keep = 0.0
                    elif mode == 'lose':
                        keep = 1.0
                    else:
                        keep = rand.random()
                    if keep < 0.5:
                        piece = data[pos - off:stop - off]
                    elif keep < 0.55 and mode == 'garbage':
                        piece = rand.randbytes(stop - pos)
                        self.sim.probe('sector left with garbage')
                    else:
                        piece = None
                        self.sim.probe('unsynced sector lost')
                    if piece is not None:
                        if len(image) < pos:
                            image.extend(bytes(pos - len(image)))
                        image[pos:stop] = piece
                    pos = stop
            if file.pending:
                self.sim.probe('file with unsynced writes at power loss')
            file.data = image
            file.durable = bytes(image)
            file.pending = []
            self._mirror(file)
        self.sim.log('POWER', ' '.join('%s:%d:%s' % (self.short(n), len(f.data), hash_bytes(f.data))
                                       for n, f in sorted(self.files.items())))

    def settle(self):
        """ everything written so far becomes durable (used for the state a scenario starts from) """
        for file in self.files.values():
            file.sync()

    def save_state(self):
        """ for checks that must not leave traces (recovery of a hot journal) """
        return {n: (bytes(f.data), f.durable, list(f.pending)) for n, f in self.files.items()}

    def restore_state(self, state):
        for name in list(self.files):
            if name not in state:
                self.files.pop(name)
                self._unmirror(name)
        for name, (data, durable, pending) in state.items():
            file = SimFile(name)
            file.data, file.durable, file.pending = bytearray(data), durable, list(pending)
            self.files[name] = file
            self._mirror(file)

    # -- locks -------------------------------------------------------------------------------------
    def _release(self, handle, level):
        file = handle.file
        if level <= LOCK_SHARED:
            if file.reserved is handle:
                file.reserved = None
            if file.pending_lock is handle:
                file.pending_lock = None
            if file.exclusive is handle:
                file.exclusive = None
        if level == LOCK_NONE:
            file.shared.discard(handle)
        handle.level = min(handle.level, level)

    def lock(self, handle, level):
        file = handle.file
        if handle.level >= level:
            return SQLITE_OK
        if level == LOCK_SHARED:
            if (file.pending_lock not in (None, handle)) or (file.exclusive not in (None, handle)):
                return SQLITE_BUSY
            file.shared.add(handle)
            handle.level = LOCK_SHARED
            return SQLITE_OK
        if level == LOCK_RESERVED:
            if file.reserved not in (None, handle) or file.pending_lock not in (None, handle) \
                    or file.exclusive not in (None, handle):
                return SQLITE_BUSY
            file.reserved = handle
            handle.level = LOCK_RESERVED
            return SQLITE_OK
        # EXCLUSIVE (through PENDING)
        if file.pending_lock not in (None, handle) or file.exclusive not in (None, handle):
            return SQLITE_BUSY
        if file.reserved not in (None, handle):
            # hot journal rollback by another process while somebody holds RESERVED
            return SQLITE_BUSY
        file.pending_lock = handle
        handle.level = max(handle.level, LOCK_PENDING)
        if file.shared - {handle}:
            return SQLITE_BUSY
        file.exclusive = handle
        handle.level = LOCK_EXCLUSIVE
        return SQLITE_OK


def _real_opener(path, flags):
    return os.open(path, flags, 0o644)


def hash_bytes(data):
    import zlib
    return '%08x' % zlib.crc32(bytes(data))


class SimVfs:
    """ the ctypes side; one per worker process, `disk` is exchanged for every run """

    def __init__(self):
        self.disk = None
        self.next_hid = 1
        self.gone = Handle(0, None, None, False, False)
        self.gone.dead = True
        self.lib = ctypes.CDLL('libsqlite3.so.0')
        self.error = None
        self.io = IoMethods()
        self.io.iVersion = 1
        self.vfs = Vfs()
        self._keep = []
        for name, proto in _IO:
            self._bind(self.io, name, proto)
        for name, proto in _VFS:
            if name.startswith('xDl'):
                continue
            self._bind(self.vfs, name, proto)
        self.vfs.iVersion = 1
        self.vfs.szOsFile = sizeof(SqliteFile)
        self.vfs.mxPathname = 1024
        self.vfs.zName = b'simdisk'
        self.lib.sqlite3_initialize()
        rc = self.lib.sqlite3_vfs_register(byref(self.vfs), 1)
        if rc != 0:
            raise HarnessError('sqlite3_vfs_register: %d' % rc)
        import sqlite3
        probe = sqlite3.sqlite_version
        self.lib.sqlite3_libversion.restype = c_char_p
        if self.lib.sqlite3_libversion().decode() != probe:
            raise HarnessError('the sqlite3 module uses another SQLite library')

    def _bind(self, struct, name, proto):
        method = getattr(self, name)

        def guarded(*args):
            try:
                return method(*args)
            except (SimStuck, SimKilled):
                return SQLITE_IOERR
            except BaseException:  # pylint: disable=broad-except
                import traceback
                self.error = traceback.format_exc()
                return SQLITE_IOERR
        fn = proto(guarded)
        self._keep.append(fn)
        setattr(struct, name, fn)

    def attach(self, disk):
        self.disk = disk
        self.error = None
        self.lib.sqlite3_randomness(0, None)     # re-seed SQLite's own PRNG from xRandomness

    def check(self):
        if self.error:
            raise HarnessError('VFS: ' + self.error)

    def _handle(self, fp):
        # connections that outlive their run (garbage) refer to handles nobody knows any more
        return self.disk.handles.get(fp.contents.hid, self.gone)

    # -- io methods --------------------------------------------------------------------------------
    def xClose(self, fp):
        handle = self._handle(fp)
        if handle is self.gone:
            return SQLITE_OK
        if not handle.dead:
            self.disk._drop(handle)
            if handle.delete_on_close and handle.file.name:
                self.disk.files.pop(handle.file.name, None)
                self.disk._unmirror(handle.file.name)
        self.disk.handles.pop(handle.hid, None)
        return SQLITE_OK

    def _fault(self, handle, op, detail=''):
        """ schedule + fault; returns (rc or None, fault) """
        if handle.dead or (handle.proc is not None and handle.proc.dead):
            return SQLITE_IOERR, None
        if handle.temp:
            return None, None
        fault = self.disk.sim.point(op, self.disk.short(handle.file.name) + ' ' + detail)
        if fault is None:
            return None, None
        if handle.dead:
            return SQLITE_IOERR, None
        kind = fault['kind']
        if kind == 'dead':
            return SQLITE_IOERR, None
        table = {'eio_read': IOERR_READ, 'eio_write': IOERR_WRITE, 'eio_sync': IOERR_FSYNC,
                 'enospc': SQLITE_FULL, 'eio_lock': IOERR_LOCK, 'busy': SQLITE_BUSY,
                 'nomem': SQLITE_NOMEM, 'short_write': IOERR_WRITE}
        if kind in table:
            return table[kind], fault
        if kind in ('eintr', 'short_io'):
            return None, None            # the operating system layer of SQLite retries
        raise HarnessError('fault %r at %s' % (kind, op))

    def xRead(self, fp, buf, amount, offset):
        handle = self._handle(fp)
        rc, _ = self._fault(handle, 'read', '%d@%d' % (amount, offset))
        if rc is not None:
            return rc
        data = bytes(handle.file.data[offset:offset + amount])
        if data:
            memmove(buf, data, len(data))
        if len(data) < amount:
            memset(buf + len(data), 0, amount - len(data))
            return IOERR_SHORT_READ
        return SQLITE_OK

    def xWrite(self, fp, buf, amount, offset):
        handle = self._handle(fp)
        rc, fault = self._fault(handle, 'write', '%d@%d' % (amount, offset))
        data = string_at(buf, amount)
        if rc is not None:
            if fault is not None and fault['kind'] == 'short_write' and amount > 1:
                self._store(handle.file, offset, data[:amount // 2])
            return rc
        disk = self.disk
        if disk.capacity is not None and not handle.temp:
            grow = max(0, offset + amount - len(handle.file.data))
            used = sum(len(f.data) for f in disk.files.values())
            if grow and used + grow > disk.capacity:
                disk.sim.fire('disk_full')
                return SQLITE_FULL
        self._store(handle.file, offset, data)
        disk.write_count += 1
        return SQLITE_OK

    def _store(self, file, offset, data):
        if len(file.data) < offset:
            file.data.extend(bytes(offset - len(file.data)))
        file.data[offset:offset + len(data)] = data
        file.pending.append((offset, data))
        self.disk._mirror(file, offset, data)

    def xTruncate(self, fp, size):
        handle = self._handle(fp)
        rc, _ = self._fault(handle, 'trunc', str(size))
        if rc is not None:
            return IOERR_TRUNCATE if rc not in (SQLITE_FULL,) else rc
        file = handle.file
        if size < len(file.data):
            del file.data[size:]
        else:
            file.data.extend(bytes(size - len(file.data)))
        file.pending.append(('trunc', size))
        self.disk._mirror(file)
        return SQLITE_OK

    def xSync(self, fp, flags):
        handle = self._handle(fp)
        rc, _ = self._fault(handle, 'sync')
        if rc is not None:
            return rc
        handle.file.sync()
        self.disk.sync_count += 1
        return SQLITE_OK

    def xFileSize(self, fp, out):
        handle = self._handle(fp)
        if handle.dead:
            return SQLITE_IOERR
        out[0] = len(handle.file.data)
        return SQLITE_OK

    def xLock(self, fp, level):
        handle = self._handle(fp)
        rc, _ = self._fault(handle, 'lock', str(level))
        if rc is not None:
            return rc
        rc = self.disk.lock(handle, level)
        if rc == SQLITE_BUSY:
            self.disk.sim.probe('lock contention')
            if self.disk.sim.active:
                self.disk.sim.log('BUSY', level)
        return rc

    def xUnlock(self, fp, level):
        handle = self._handle(fp)
        if handle.dead:
            return SQLITE_OK
        rc, _ = self._fault(handle, 'unlock', str(level))
        if handle.dead:
            return SQLITE_OK
        self.disk._release(handle, level)
        if level == LOCK_SHARED:
            handle.file.shared.add(handle)
        return SQLITE_OK

    def xCheckReservedLock(self, fp, out):
        handle = self._handle(fp)
        if handle.dead:
            return SQLITE_IOERR
        file = handle.file
        out[0] = int(any(x is not None for x in (file.reserved, file.pending_lock, file.exclusive)))
        return SQLITE_OK

    def xFileControl(self, fp, op, arg):
        return SQLITE_NOTFOUND

    def xSectorSize(self, fp):
        return SECTOR

    def xDeviceCharacteristics(self, fp):
        return IOCAP_PSOW

    # -- vfs methods -------------------------------------------------------------------------------
    def xOpen(self, _vfs, zname, fp, flags, out_flags):
        fp.contents.pMethods = None
        disk = self.disk
        name = os.fsdecode(cast(zname, c_char_p).value) if zname else None
        proc = disk.sim.proc()
        if proc is not None and proc.dead:
            return SQLITE_CANTOPEN
        temp = name is None or not flags & (OPEN_MAIN_DB | 0x800 | 0x4000)  # db, journal, super-journal
        if not temp:
            fault = disk.sim.point('open', disk.short(name))
            if fault is not None:
                if fault['kind'] == 'nomem':
                    return SQLITE_NOMEM
                return SQLITE_CANTOPEN
        if name is None:
            file = SimFile(None)
        else:
            file = disk.files.get(name)
            if file is None:
                if not flags & OPEN_CREATE:
                    return SQLITE_CANTOPEN
                if not os.path.isdir(os.path.dirname(name)):
                    return SQLITE_CANTOPEN
                file = SimFile(name)
                disk.files[name] = file
                disk._mirror(file)
        hid = self.next_hid
        self.next_hid += 1
        handle = Handle(hid, file, proc, bool(flags & OPEN_DELETEONCLOSE), temp)
        disk.handles[hid] = handle
        file.handles.add(handle)
        fp.contents.hid = hid
        fp.contents.pMethods = ctypes.addressof(self.io)
        if out_flags:
            out_flags[0] = flags
        return SQLITE_OK

    def xDelete(self, _vfs, zname, sync_dir):
        disk = self.disk
        name = os.fsdecode(zname)
        proc = disk.sim.proc()
        if proc is not None and proc.dead:
            return IOERR_DELETE
        fault = disk.sim.point('delete', disk.short(name))
        if fault is not None:
            return IOERR_DELETE
        if name not in disk.files:
            return IOERR_DELETE_NOENT
        del disk.files[name]
        disk._unmirror(name)
        return SQLITE_OK

    def xAccess(self, _vfs, zname, flags, out):
        disk = self.disk
        proc = disk.sim.proc()
        if proc is not None and proc.dead:
            return IOERR_ACCESS
        name = os.fsdecode(zname)
        file = disk.files.get(name)
        if flags == 0:
            out[0] = int(file is not None and len(file.data) > 0)
        else:
            out[0] = int(file is not None)
        return SQLITE_OK

    def xFullPathname(self, _vfs, zname, size, out):
        name = os.fsencode(os.path.abspath(os.fsdecode(zname)))
        if len(name) + 1 > size:
            return SQLITE_CANTOPEN
        memmove(out, name + b'\0', len(name) + 1)
        return SQLITE_OK

    def xRandomness(self, _vfs, amount, out):
        data = self.disk.rand.randbytes(amount) if self.disk else bytes(amount)
        memmove(out, data, amount)
        return amount

    def xSleep(self, _vfs, micros):
        if self.disk:
            self.disk.sim.sleep(micros)
        return micros

    def xCurrentTime(self, _vfs, out):
        out[0] = 2460000.5 + (self.disk.sim.now if self.disk else 0) / 86400e6
        return SQLITE_OK

    def xGetLastError(self, *_args):
        return 0


_INSTANCE = None


def instance():
    global _INSTANCE  # pylint: disable=global-statement
    if _INSTANCE is None:
        _INSTANCE = SimVfs()
    return _INSTANCE
