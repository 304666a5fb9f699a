""" shared by all scenarios """
import contextlib
import io
import os
import sys

from .. import content as C
from .. import recorder as R
from .. import simio
from ..core import SimKilled, SimStuck, Violation
from ..engine import shrink_list


class Scenario:
    id = None
    rule = ''
    real = []
    stub = []
    assumptions = []
    state_measure = ''
    case_seconds = 120
    quick_cases = 100
    thorough_cases = 2000

    def cases(self, tier):
        return self.quick_cases if tier == 'quick' else self.thorough_cases

    def plans(self, rng, run, tier):
        raise NotImplementedError

    def execute(self, plan, env):
        raise NotImplementedError

    def all_plans(self, rng, run, tier):
        return self.plans(rng, run, tier)

    def finish(self, plan, env):
        """ after a run without a violation """


def canon(log, datasets=None):
    """ what the log shows; anything that cannot be read out is a violation """
    try:
        return C.canon(log, datasets)
    except (Violation, SimStuck, SimKilled):
        raise
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation('unreadable-result', '%s: %s' % (type(exc).__name__, exc)) from None


@contextlib.contextmanager
def switching_at_lines(sim):
    """ the scheduler may switch at every source line of pyulog that the calling task runs """
    import pyulog
    inside = os.path.realpath(os.path.dirname(pyulog.__file__)) + os.sep

    def local(_frame, what, _arg):
        if what == 'line':
            sim.point('line')
        return local

    def tracer(frame, _event, _arg):
        return local if frame.f_code.co_filename.startswith(inside) else None
    sys.settrace(tracer)
    try:
        yield
    finally:
        sys.settrace(None)


def require_same(want, got, kind, ignore=(), what=''):
    found = C.diff(want, got, ignore)
    if found:
        raise Violation(kind, '%s%s' % (what, found))


def outcome(fn, *args, **kwargs):
    """ ('ok', value) or ('error', type name, text); keeps no traceback alive """
    try:
        return ('ok', fn(*args, **kwargs))
    except SystemExit as exc:
        return ('ok', None) if exc.code in (None, 0) else ('error', 'SystemExit', str(exc.code))
    except Exception as exc:  # pylint: disable=broad-except
        result = ('error', type(exc).__name__, str(exc)[:300])
        exc.__traceback__ = None
        del exc
        return result


def write_file(path, data):
    with io.FileIO(path, 'w') as out:
        out.write(data)


def read_file(path):
    with io.FileIO(path, 'r') as inp:
        return inp.readall()


# ------------------------------------------------------------------------------- sources of a log's bytes
def random_source(rng, modes=('path', 'file', 'mem', 'raw')):
    src = {'mode': rng.choice(modes), 'bufsize': rng.choice([16, 64, 100, 512, 8192, 8192])}
    if rng.random() < 0.5 or src['mode'] == 'raw':
        src['chunks'] = [rng.choice([1, 2, 3, 7, 50, 511, 4096]) for _ in range(rng.choice([1, 2, 5]))]
    return src


def open_source(world, env, src, data, name='log.ulg'):
    """ -> (argument for ULog, path) ; the file is real, its raw layer simulated """
    path = os.path.join(env.root, name)
    write_file(path, data)
    world.bufsize = src.get('bufsize')
    world.chunks = src.get('chunks') or []
    mode = src['mode']
    if mode == 'path':
        return path, path
    if mode == 'mem':
        return simio.MemFile(data, world.sim), path
    if mode == 'raw':
        return simio.sim_open(path, 'rb', buffering=0), path
    return simio.sim_open(path, 'rb'), path


def shrink_recording(rec):
    """ smaller well-formed recordings """
    for part in ('data', 'defs'):
        for items in shrink_list(rec[part]):
            cand = R.normalize(dict(rec, **{part: items}))
            if cand is not None and len(cand['data']) + len(cand['defs']) < len(rec['data']) + len(rec['defs']):
                yield cand
    # fewer fields
    for i, m in enumerate(rec['defs']):
        if m[0] == 'F' and len(m[2]) > 1:
            for k, field in enumerate(m[2]):
                if field[2] == 'timestamp':
                    continue
                yield drop_field(rec, m[1], k)


def drop_field(rec, name, k):
    """ remove field k of format `name` and rebuild the samples accordingly """
    formats = {m[1]: m[2] for m in rec['defs'] if m[0] == 'F'}
    new = {n: (f[:k] + f[k + 1:] if n == name else f) for n, f in formats.items()}
    subs, data = {}, []
    for m in rec['data']:
        if m[0] == 'A':
            subs[m[2]] = m[3]
        if m[0] == 'D' and m[1] in subs:
            old_fields, _ = R.flatten(formats, subs[m[1]])
            new_fields, keep = R.flatten(new, subs[m[1]])
            raw = bytes.fromhex(m[2])
            values, pos = {}, 0
            for fname, ftype in old_fields:
                values[fname] = raw[pos:pos + R.WIDTH[ftype]]
                pos += R.WIDTH[ftype]
            out = b''.join(values[f].ljust(R.WIDTH[t], b'\0') for f, t in new_fields[:keep])
            m = ['D', m[1], out.hex()]
        data.append(m)
    defs = [['F', m[1], new[m[1]]] if m[0] == 'F' else m for m in rec['defs']]
    return dict(rec, defs=defs, data=data)


def interleaved(rec):
    """ number of times consecutive samples belong to different streams """
    last, n = None, 0
    for m in rec['data']:
        if m[0] == 'D':
            if last is not None and m[1] != last:
                n += 1
            last = m[1]
    return n
