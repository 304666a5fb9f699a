"""
Simulated files: the seam for everything that is not the database.

builtins.open/io.open are replaced once per process.  While a FileWorld is attached, files below its
root directory are opened as ordinary Python file objects whose raw layer is FaultyRaw: every raw read,
write, open and close is one scheduling and fault point of the simulator; buffer sizes come from the
plan.  The bytes themselves are in real files of a scratch directory, so any other file system call the
code makes on them works.  Everything else goes to the real open.
"""
import builtins
import errno
import io
import os
import sys
import time

from .core import SimKilled

_real_open = io.open
_real_sleep = time.sleep
_WORLD = None


class FileWorld:
    def __init__(self, sim, root, bufsize=None, chunks=None, capacity=None):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.bufsize = bufsize
        self.chunks = chunks or []      # lengths of short raw reads, used cyclically
        self.chunk_pos = 0
        self.chunks_out = []            # the same for raw writes
        self.capacity = capacity        # bytes that may still be written
        self.faults_on = None           # predicate(path) -> inject and schedule here?
        self.open_files = 0
        self.read_errors = 0
        self.before_read = None         # called before each raw read: another process may change the file
        self.after_end = None           # called after each raw read that found the end of the file

    def limit(self, size):
        if not self.chunks or size <= 1:
            return size
        value = self.chunks[self.chunk_pos % len(self.chunks)]
        self.chunk_pos += 1
        return max(1, min(size, value))

    def watched(self, path):
        if isinstance(path, int):
            return False
        try:
            full = os.path.realpath(os.fsdecode(path))
        except TypeError:
            return False
        return full.startswith(self.root + os.sep)


def attach(world):
    global _WORLD  # pylint: disable=global-statement
    _WORLD = world


def _short(path):
    return os.path.basename(os.fsdecode(path))


def _os_error(code):
    return OSError(code, os.strerror(code))


class FaultyRaw(io.FileIO):
    """ raw file whose operations are points of the simulator """

    def __init__(self, path, mode, world):
        self.world = world
        self.label = _short(path)
        self.dead = False
        self.fail_next = None
        world.open_files += 1
        super().__init__(path, mode)

    def _point(self, op, detail=''):
        world = self.world
        if self.dead:
            return {'kind': 'dead'}
        fault = world.sim.point(op, self.label + ' ' + str(detail))
        if fault is not None and fault['kind'] == 'dead':
            self.dead = True
        return fault

    def _read(self, size):
        fault = self._point('read', size)
        if fault is not None:
            kind = fault['kind']
            if kind == 'dead':
                raise SimKilled()
            if kind == 'eio_read':
                self.world.read_errors += 1
                raise _os_error(errno.EIO)
            if kind == 'nomem':
                self.world.read_errors += 1
                raise MemoryError()
            if kind == 'eintr':
                return self._read(size)          # Python repeats the system call (PEP 475)
            if kind == 'short_io':
                size = max(1, size // 2)
        if self.world.before_read is not None:
            self.world.before_read(self)
        data = super().read(self.world.limit(size))
        if not data and self.world.after_end is not None:
            self.world.after_end(self)
        return data

    def readinto(self, buf):
        view = memoryview(buf).cast('B')
        data = self._read(len(view))
        view[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        if size == 0:
            return b''
        return self._read(size)

    def readall(self):
        out = bytearray()
        while True:
            data = self._read(4096)
            if not data:
                return bytes(out)
            out += data

    def write(self, data):
        data = bytes(data)
        if self.fail_next and not self.dead:
            code, self.fail_next = self.fail_next, None
            raise _os_error(code)
        fault = self._point('write', len(data))
        world = self.world
        if fault is not None:
            kind = fault['kind']
            if kind == 'dead':
                if fault.get('first'):
                    super().write(data[:int(fault.get('part', 0))])
                    raise SimKilled()
                return len(data)         # a killed process writes nothing any more
            if kind in ('eio_write', 'enospc'):
                if kind == 'enospc' and not fault.get('once'):
                    world.capacity = 0
                part = len(data) * int(fault.get('part', 0)) // 100
                if part:
                    # the kernel reports a partial write first, the error with the next call
                    if world.capacity is None:
                        self.fail_next = errno.EIO if kind == 'eio_write' else errno.ENOSPC
                    return super().write(data[:part])
                raise _os_error(errno.EIO if kind == 'eio_write' else errno.ENOSPC)
            if kind == 'eintr':
                return self.write(data)
            if kind in ('short_io', 'short_write') and len(data) > 1:
                return super().write(data[:len(data) // 2])
        if world.capacity is not None and world.sim.active:
            if len(data) > world.capacity:
                if world.capacity > 0:
                    done = super().write(data[:world.capacity])
                    world.capacity = 0
                    return done
                world.sim.fire('disk_full')
                raise _os_error(errno.ENOSPC)
            world.capacity -= len(data)
        if world.chunks_out and len(data) > 1:
            size = world.chunks_out[world.chunk_pos % len(world.chunks_out)]
            world.chunk_pos += 1
            data = data[:max(1, size)]
        return super().write(data)

    def close(self):
        if self.closed:
            return
        self.world.open_files -= 1
        fault = None
        try:
            fault = self._point('close')
        finally:
            super().close()
        if fault is not None:
            if fault['kind'] == 'dead':
                if fault.get('first'):
                    raise SimKilled()
            elif fault['kind'] == 'eio_close':
                raise _os_error(errno.EIO)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    world = _WORLD
    if world is None or opener is not None or not world.watched(file):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    fault = world.sim.point('open', _short(file) + ' ' + mode)
    if fault is not None:
        if fault['kind'] == 'dead':
            raise SimKilled()
        if fault['kind'] == 'nomem':
            raise MemoryError()
        raise _os_error(errno.EMFILE if 'r' in mode else errno.EACCES)
    binary = 'b' in mode
    raw_mode = mode.replace('b', '').replace('t', '')
    raw = FaultyRaw(file, raw_mode, world)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = world.bufsize or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
    if '+' in mode:
        buffered = io.BufferedRandom(raw, size)
    elif 'r' in mode:
        buffered = io.BufferedReader(raw, size)
    else:
        buffered = io.BufferedWriter(raw, size)
    if binary:
        return buffered
    text = io.TextIOWrapper(buffered, encoding or 'utf-8', errors, newline)
    text.mode = mode
    return text


class _MemRaw(io.RawIOBase):
    """ standard output of a simulated process """

    def __init__(self, world):
        self.world = world
        self.data = bytearray()

    def writable(self):
        return True

    def write(self, data):
        data = bytes(data)
        fault = self.world.sim.point('write', 'stdout %d' % len(data))
        if fault is not None:
            kind = fault['kind']
            if kind == 'dead':
                if fault.get('first'):
                    raise SimKilled()
                return len(data)
            if kind in ('eio_write',):
                raise _os_error(errno.EIO)
            if kind == 'enospc':
                raise _os_error(errno.EPIPE)
            if kind == 'eintr':
                return self.write(data)
            if kind in ('short_io', 'short_write') and len(data) > 1:
                self.data += data[:len(data) // 2]
                return len(data) // 2
        self.data += data
        return len(data)


class Stdout:
    """ context: sys.stdout becomes a simulated stream (watched) or a sink """

    def __init__(self, world=None):
        self.world = world
        self.raw = None
        self.flush_error = None

    def __enter__(self):
        self.saved = sys.stdout
        if self.world is None:
            self.stream = io.StringIO()
        else:
            self.raw = _MemRaw(self.world)
            self.stream = io.TextIOWrapper(io.BufferedWriter(self.raw, self.world.bufsize or 8192),
                                           'utf-8', write_through=False)
        sys.stdout = self.stream
        return self

    def finish(self):
        """ what the interpreter does at exit: flush; a failure turns into exit code 120 """
        self.stream.flush()

    def text(self):
        if self.raw is None:
            return self.stream.getvalue()
        return bytes(self.raw.data).decode('utf-8')

    def __exit__(self, *exc):
        sys.stdout = self.saved
        if self.raw is not None:
            try:
                self.stream.detach().detach()
            except (OSError, ValueError, SimKilled):
                pass
        return False


class MemFile(io.BytesIO):
    """ in-memory source whose reads are points of the simulator """

    def __init__(self, data, sim, label='mem'):
        super().__init__(data)
        self.sim = sim
        self.label = label

    def _hit(self, size):
        fault = self.sim.point('read', '%s %s' % (self.label, size))
        if fault is not None:
            if fault['kind'] == 'dead':
                raise SimKilled()
            if fault['kind'] == 'eio_read':
                raise _os_error(errno.EIO)
            if fault['kind'] == 'nomem':
                raise MemoryError()

    def read(self, size=-1):
        self._hit(size)
        return super().read(size)

    def readinto(self, buf):
        self._hit(len(buf))
        return super().readinto(buf)

    def read1(self, size=-1):
        self._hit(size)
        return super().read1(size)


def install():
    builtins.open = sim_open
    io.open = sim_open

    def sleep(seconds):
        if _WORLD is not None:
            _WORLD.sim.sleep(int(seconds * 1e6))
        else:
            _real_sleep(seconds)
    time.sleep = sleep
