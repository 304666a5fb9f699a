""" L10, L11: the definitions of a log alone; what is not a log this version can read """
import hashlib
import os
import random as _random
import re
import struct

from .. import content as C
from .. import recorder as R
from ..core import Violation
from .base import canon, open_source, outcome, random_source, read_file, require_same, write_file
from .loads import DISK, READERS, Load, ULog, complete_part

TOOLS = ['csv', 'info', 'params', 'kml', 'gps', 'messages', 'rosbag']


def first_data(rec, ends):
    """ where the header of the first message of the data section ends """
    base = ends[len(rec['defs']) - 1] if rec['defs'] else (16 + (43 if rec.get('flags') else 0))
    for k, m in enumerate(rec['data']):
        if m[0] in 'ALC':
            return base + 3
        base = ends[len(rec['defs']) + k]
    return base


class HeaderOnly(Load):
    id = 'L10'
    rule = ('a flight whose log is complete, cut, damaged or overgrown with foreign bytes behind the header of its first data section '
            'message, or cut before it, loaded with parse_header_only through several sources; a share has failing reads; non-trivial: '
            'the file was changed or a fault fired; distinct by event log and workload')
    quick_cases = 4200
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = R.generate(rng, {'append': rng.random() < 0.3, 'msgs': rng.choice([5, 30]), 'modest': rng.random() < 0.7})
        raw, ends = R.encode(rec)
        low = first_data(rec, ends)
        for _ in range(6):
            src = random_source(rng)
            change = {'how': rng.choice(['none', 'cut', 'cut', 'zero', 'random', 'bits', 'grow', 'early', 'early']),
                      'pick': rng.getrandbits(32)}
            if change['how'] == 'early':
                near = rng.choice(ends[:len(rec['defs'])] or [16]) + rng.choice([-1, 0, 0, 1, 2, 3])
                change['at'] = rng.choice([rng.randrange(16, low + 1), max(16, near)])
            elif change['how'] in ('cut', 'zero', 'random', 'bits'):
                change['at'] = rng.choice([low, rng.randrange(low, len(raw) + 1)])
                change['len'] = rng.choice([1, 20, 500, len(raw)])
            else:
                change['len'] = rng.choice([1, 20, 3000])
            plan = {'rec': rec, 'src': src, 'change': change, 'appended': rng.random() < 0.5}
            if rng.random() < 0.4:
                probe = run(plan)
                reads = [op[0] for op in probe.ops if op[1] == 'read']
                if reads:
                    kind = rng.choice(['eio_read', 'eio_read', 'nomem', 'short_io', 'eintr'])
                    if src['mode'] == 'mem' and kind in ('eintr', 'short_io'):
                        kind = 'eio_read'
                    plan = dict(plan, faults=[{'step': rng.choice(reads + reads[-1:]), 'kind': kind}])
            yield plan

    def shrink(self, plan):
        yield dict(plan, change={'how': 'none', 'pick': 0})
        yield from super().shrink(plan)

    @staticmethod
    def changed(rec, raw, ends, low, change):
        """ -> file content, messages of the definitions that are in it """
        how = change['how']
        rng = _random.Random(change['pick'])
        image = bytearray(raw)
        part = rec
        if how == 'early':
            cut = max(16, min(change['at'], low))
            image = image[:cut]
            part = complete_part(rec, ends, cut)
        elif how == 'grow':
            image += rng.randbytes(change['len'])
        elif how != 'none':
            at = max(low, min(change['at'], len(raw)))
            end = min(len(raw), at + change['len'])
            if how == 'cut':
                image = image[:at]
            elif how == 'zero':
                image[at:end] = bytes(end - at)
            elif how == 'random':
                image[at:end] = rng.randbytes(end - at)
            elif end > at:
                for _ in range(1 + (end - at) // 30):
                    image[rng.randrange(at, end)] ^= 1 << rng.randrange(8)
        return bytes(image), part

    def execute(self, plan, env):
        rec = plan['rec']
        raw, ends = R.encode(rec)
        low = first_data(rec, ends)
        if rec.get('flags') and plan.get('appended'):
            # data was appended behind the log
            rec = dict(rec, flags=[rec['flags'][0], [1] + [0] * 7])
            raw, ends = R.encode(rec, (len(raw),))
        how = plan['change']['how']
        image, part = self.changed(rec, raw, ends, low, plan['change'])
        sim, world = self.world(plan, env, max_steps=60 * len(raw) + 20000)
        sim.log('change', how, len(image))
        if how != 'none':
            sim.fire('damage_' + how)
        starts = []
        world.before_read = lambda raw_file: starts.append(raw_file.tell())
        got = self.load(env, sim, world, plan['src'], image, parse_header_only=True)
        hard = [k for k in ('eio_read', 'nomem') if sim.fired.get(k)]
        env.nontrivial = how != 'none' or bool(sim.fired)
        where = '%s: ' % how
        if sim.stuck:
            raise Violation('no-progress', where)
        if got[0] == 'error':
            if not hard:
                raise Violation('load-failed', '%s%s: %s' % (where, got[1], got[2]))
            if got[1] not in ('OSError', 'MemoryError'):
                raise Violation('wrong-error', '%s%s: %s' % (where, got[1], got[2]))
            return
        want = C.model_view(R.fold(part, msgs=part['defs'])['content'])
        require_same(want, canon(got[1]), 'silent-partial' if hard else 'header', ('corrupt',), where)
        # what is behind the definitions is not even asked for
        first = [m for m in rec['data'] if m[0] in 'ALC']
        if first and how != 'early':
            stop = low - 3 + len(R.encode_msg(first[0]))
            far = [at for at in starts if at > stop]
            if far:
                raise Violation('reads-on', '%sread at %d, definitions end at %d' % (where, far[0], low - 3))
        if plan['src']['mode'] == 'path' and world.open_files:
            raise Violation('file-left-open', where)


class Refusal(Load):
    id = 'L11'
    rule = ('a flight whose log has a damaged magic, an unknown file version, unknown compatible or incompatible flags, or is another '
            'kind of file, loaded in full, restricted, header only, into a database object and by the tools; non-trivial: the file was '
            'changed; distinct by event log and workload')
    real = READERS + ['pyulog.db.DatabaseULog', 'the command line tools that read a log']
    stub = DISK + ['SQLite VFS (simulated disk)', 'libevents Parser, rosbag2_py, rclpy and px4_msgs (stand-ins)']
    quick_cases = 2600
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = R.generate(rng, {'msgs': rng.choice([3, 15]), 'modest': True, 'db': True, 'topics': 2, 'max_fields': 4})
        for _ in range(6):
            how = rng.choice(['magic', 'magic', 'incompat', 'incompat', 'incompat', 'compat', 'version', 'other'])
            if how in ('incompat', 'compat') and not rec.get('flags'):
                rec = dict(rec, flags=[[0] * 8, [0] * 8])
            yield {'rec': rec, 'src': random_source(rng), 'change': {'how': how, 'pick': rng.getrandbits(32)},
                   'what': rng.choice(['full', 'full', 'filter', 'header', 'db', rng.choice(['csv', 'info']), rng.choice(TOOLS)]),
                   'there': rng.random() < 0.3}

    @staticmethod
    def changed(rec, change):
        """ -> file content or None, what is recorded in it """
        how = change['how']
        rng = _random.Random(change['pick'])
        raw, _ = R.encode(rec)
        image = bytearray(raw)
        if how == 'magic':
            if rng.random() < 0.6:
                image[rng.randrange(7)] ^= 1 << rng.randrange(8)
            else:
                i, j = rng.sample(range(7), 2)
                image[i], image[j] = image[j], image[i]
        elif how == 'version':
            image[7] = rng.choice([0, 2, 3, 255, rng.randrange(256)])
            rec = dict(rec, version=image[7])
        elif how == 'other':
            image = bytearray(rng.choice([
                b'', b'timestamp,x\n1,2\n' * 5, b'SQLite format 3\0' + bytes(200), bytes(500), rng.randbytes(300),
                raw[:1] + rng.randbytes(50), raw[1:], raw[16:], b'\0' + raw, b'\xef\xbb\xbf' + raw, raw[:rng.randrange(16)]]))
            if image[:7] == raw[:7] and len(image) >= 16:
                return None, rec
        elif not rec.get('flags'):
            return None, rec
        elif how == 'incompat':
            flags = bytearray(8)
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(8)
                flags[k] |= 1 << (rng.randrange(1, 8) if k == 0 else rng.randrange(8))
            flags[0] |= rng.randrange(2)         # with and without appended data
            image[27:35] = flags
        else:
            flags = bytes(rng.choice([0, 1, 2, 0x80, 0xff, rng.randrange(256)]) for _ in range(8))
            image[19:27] = flags
            rec = dict(rec, flags=[list(flags), rec['flags'][1]])
        return bytes(image), rec

    def execute(self, plan, env):
        how = plan['change']['how']
        image, rec = self.changed(plan['rec'], plan['change'])
        if image is None:
            return
        refused = how in ('magic', 'incompat', 'other')
        sim, world = self.world(plan, env, max_steps=60 * len(image) + 20000)
        sim.log('change', how, hashlib.sha256(image).hexdigest()[:12])
        sim.fire('damage_' + how)
        env.nontrivial = True
        what = plan['what']
        where = '%s, %s: ' % (how, what)
        if what in TOOLS:
            self.tool(plan, env, sim, world, image, refused, where)
        else:
            self.loads(plan, env, sim, world, image, rec, refused, where)
        # a refused log leaves nothing behind: the next one is read as ever
        raw, _ = R.encode(plan['rec'])
        again = self.load(env, sim, world, {'mode': 'path', 'bufsize': 8192}, raw)
        if again[0] == 'error':
            raise Violation('load-failed', '%snext log: %s: %s' % ((where,) + again[1:]))
        require_same(C.model_view(R.expected(plan['rec'])), canon(again[1]), 'content', what=where + 'next log: ')

    def loads(self, plan, env, sim, world, image, rec, refused, where):
        from pyulog.db import DatabaseULog
        from .dbase import template_db
        what = plan['what']
        names = sorted({m[3] for m in rec['data'] if m[0] == 'A'})[:1]
        handle = template_db(sim, env) if what == 'db' else None

        def work(arg):
            if what == 'db':
                return DatabaseULog(handle, log_file=arg)
            if what == 'filter':
                return ULog(arg, message_name_filter_list=names)
            return ULog(arg, parse_header_only=what == 'header')
        arg, _ = open_source(world, env, plan['src'], image)
        got = sim.run_inline(lambda: outcome(work, arg))
        if sim.stuck:
            raise Violation('no-progress', where)
        if refused:
            if got[0] == 'ok':
                raise Violation('not-refused', where)
            return
        if got[0] == 'error':
            raise Violation('load-failed', '%s%s: %s' % (where, got[1], got[2]))
        if what == 'header':
            want = R.fold(rec, msgs=rec['defs'])['content']
        elif what == 'filter':
            want = R.expected(rec, names)
        else:
            want = R.expected(rec)
        require_same(C.model_view(want), canon(got[1]), 'content', what=where)

    def tool(self, plan, env, sim, world, image, refused, where):
        from .tools import Tool
        folder = os.path.join(env.root, 'in')
        os.mkdir(folder)
        path = os.path.join(folder, 'log.ulg')
        write_file(path, image)
        what = plan['what']
        module = {'csv': 'ulog2csv', 'kml': 'ulog2kml', 'gps': 'extract_gps_dump', 'rosbag': 'ulog2ros2bag'}.get(what, what)
        target = os.path.join(folder, 'output')
        args = {'csv': [path], 'kml': [path, '-o', target], 'gps': [path, '-o', folder], 'params': [path, target],
                'rosbag': [path, '-o', target]}.get(what, [path])
        if what == 'messages':
            from .events import install_stub
            install_stub()
        elif what == 'rosbag':
            from . import ros
            ros.install({})
            ros.STATE.update(version=ros.VERSIONS[0], out=folder, used={})
        if plan.get('there'):
            write_file(target, b'an older one')
        before = {n: read_file(os.path.join(folder, n)) for n in os.listdir(folder)}
        res, text, _ = Tool.run_main(self, sim, world, module, args)
        made = {n: read_file(os.path.join(folder, n)) for n in os.listdir(folder)}
        if sim.stuck:
            raise Violation('no-progress', where)
        if refused:
            if res[0] == 'ok':
                raise Violation('not-refused', where + text[:200])
            if made != before:
                raise Violation('output-for-refused-log', where + ' '.join(n for n in sorted(made) if made[n] != before.get(n)))
        elif res[0] == 'error' and module in ('info', 'params'):     # not every log can be converted to CSV
            raise Violation('tool-failed', '%s%s: %s' % ((where,) + res[1:]))


class Definitions(Load):
    id = 'L12'
    rule = ('a flight whose log is damaged in its definitions (behind the flags): zeroed, flipped or random bytes anywhere, only within '
            'the content of one definition, or whole definitions zeroed; non-trivial: at least one definition is not touched; distinct '
            'by event log and workload')
    quick_cases = 3600
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = R.generate(rng, {'msgs': rng.choice([3, 20, 60]), 'modest': rng.random() < 0.8, 'topics': rng.choice([2, 4])})
        raw, ends = R.encode(rec)
        msgs, count = self.section(rec)
        if count < 2 or len(raw) > 200000:
            return
        src = random_source(rng, ('path', 'path', 'mem', 'file'))
        if len(raw) > 20000:
            src = {'mode': 'path', 'bufsize': 8192}
        for _ in range(6):
            how = rng.choice(['content', 'content', 'hole', 'hole', 'any'])
            i = rng.randrange(count)
            plan = {'rec': rec, 'src': src, 'change': {'how': how, 'first': i, 'pick': rng.getrandbits(32)}}
            if how == 'hole':
                plan['change']['last'] = min(count - 1, i + rng.choice([0, 0, 1, 2, 5, 20]))
            else:
                plan['change'].update(bytes=rng.choice(['zero', 'bits', 'random', 'digit'] + ['nest'] * (how == 'content' and msgs[i][0] == 'F')), at=rng.choice([0, 0, 1, 2, 3, rng.randrange(200)]),
                                      len=rng.choice([1, 1, 2, 4, 20, 300]))
                if how == 'content' and plan['change']['bytes'] != 'nest' and rng.random() < 0.4:
                    others = [k for k in range(count) if k != i]
                    plan['change']['more'] = sorted(rng.sample(others, min(len(others), rng.choice([1, 1, 2, 4]))))
            yield plan

    def shrink(self, plan):
        change = plan['change']
        for k in range(len(change.get('more', ()))):
            yield dict(plan, change=dict(change, more=change['more'][:k] + change['more'][k + 1:]))
        if change.get('more'):
            return
        msgs, count = self.section(plan['rec'])
        last = change.get('last', change['first'])
        for k in range(len(plan['rec']['defs']) - 1, -1, -1):
            if k > last or k < change['first']:
                rec = dict(plan['rec'], defs=plan['rec']['defs'][:k] + plan['rec']['defs'][k + 1:])
                new = R.normalize(rec)
                if new is not None and len(new['defs']) == len(rec['defs']):
                    moved = dict(change)
                    if k < change['first']:
                        moved['first'] -= 1
                        if 'last' in moved:
                            moved['last'] -= 1
                    yield dict(plan, rec=new, change=moved)
        for k in range(len(plan['rec']['data']) - 1, -1, -1):
            new = R.normalize(dict(plan['rec'], data=plan['rec']['data'][:k] + plan['rec']['data'][k + 1:]))
            if new is not None and len(new['defs']) == len(plan['rec']['defs']):
                yield dict(plan, rec=new)
        for size in (change.get('len', 1) // 2, change.get('len', 1) - 1):
            if size > 0:
                yield dict(plan, change=dict(change, len=size))
        yield dict(plan, src={'mode': 'path', 'bufsize': 8192})

    @staticmethod
    def section(rec):
        """ all messages, how many of them belong to the definitions """
        msgs = rec['defs'] + rec['data']
        for count, m in enumerate(msgs):
            if m[0] in 'ALC':
                return msgs, count
        return msgs, len(msgs)

    @staticmethod
    def spoil(rng, image, low, high, change):
        at = min(low + change['at'], high - 1)
        end = min(at + change['len'], high)
        how = change['bytes']
        if how == 'zero':
            image[at:end] = bytes(end - at)
        elif how == 'random':
            image[at:end] = rng.randbytes(end - at)
        elif how == 'digit':
            # numbers, separators and brackets of the texts
            for k in range(at, end):
                image[k] = rng.choice(b'0123456789[]:; _')
        else:
            for _ in range(1 + (end - at) // 30):
                image[rng.randrange(at, end)] ^= 1 << rng.randrange(8)
        return at, end

    def execute(self, plan, env):
        rec, change = plan['rec'], plan['change']
        how = change['how']
        raw, ends = R.encode(rec)
        msgs, count = self.section(rec)
        starts = [16 + (43 if rec.get('flags') else 0)] + ends[:-1]
        first, last = change['first'], change.get('last', change['first'])
        if last >= count:
            return
        image = bytearray(raw)
        rng = _random.Random(change['pick'])
        low, high = starts[first], ends[last]
        if how == 'hole':
            image[low:high] = bytes(high - low)
            if last + 1 < len(msgs) and ends[last + 1] - starts[last + 1] >= 3 + 256:
                return      # the first bytes behind the hole could be taken for a message of an unknown type
        elif how == 'content' and change['bytes'] == 'nest':
            if msgs[first][0] != 'F':
                return
            # a format that contains itself
            _, name, fields = msgs[first]
            k = rng.randrange(len(fields) + 1)
            fields = fields[:k] + [[name, rng.choice([0, 1, 3]), 'itself']] + fields[k:]
            new = R.encode_msg(['F', name, fields])
            image[low:high] = new
            high = low + len(new)
        elif how == 'content':
            if any(starts[k] + 3 >= ends[k] or k >= count for k in [first] + change.get('more', [])):
                return
            low, high = self.spoil(rng, image, low + 3, high, change)
            for k in change.get('more', ()):
                self.spoil(rng, image, starts[k] + 3, ends[k], change)
        else:
            low, high = self.spoil(rng, image, low, ends[count - 1], change)
        near = bytes(image[max(0, low - 300):high + 300]) + b''.join(bytes(image[starts[k]:ends[k]]) for k in change.get('more', ()))
        if any(int(n) > 5000 for n in re.findall(rb'\[(\d+)\]?', near)):
            return          # arrays of any length: as much memory
        sim, world = self.world(plan, env, max_steps=60 * len(raw) + 20000)
        sim.log('damage', how, low, high, hashlib.sha256(image).hexdigest()[:12])
        sim.fire('damage_' + (how if how == 'hole' else change['bytes']))
        hit = list(range(first, last + 1)) + change.get('more', [])
        env.nontrivial = count > len(hit)
        got = self.load(env, sim, world, plan['src'], bytes(image))
        where = '%s [%d,%d) of %d: ' % (how, low, high, len(raw))
        if sim.stuck:
            raise Violation('no-progress', where)
        if got[0] == 'error':
            if how == 'any' and self.more_flags(image, starts[0]):
                return      # the damage looks like flags: these say whether the log can be read
            raise Violation('load-failed', '%s%s: %s' % (where, got[1], got[2]))
        view = canon(got[1])
        if how == 'any':
            self.check_before(rec, msgs, [m for m, e in zip(msgs, ends) if e <= low], view, bytes(image[max(0, low - 300):]), where)
            return
        if how == 'hole' and not view['corrupt']:
            raise Violation('damage-not-reported', where)
        bodies = []
        if how == 'content':
            bodies = [bytes(image[starts[first] + 3:max(high, ends[first])])] + [bytes(image[starts[k] + 3:ends[k]]) for k in hit[1:]]
        self.check_rest(rec, msgs, count, hit, view, bodies, where)

    @staticmethod
    def more_flags(image, at):
        """ does a walk over the definitions come across a flags message? """
        while at + 3 <= len(image):
            size, kind = struct.unpack_from('<HB', image, at)
            if kind == ord('B') and size:
                return True
            if kind in b'ALC' and size:
                return False
            if not size or not kind or kind not in b'IMFPQ' and size > 10000:
                at += 1
            else:
                at += 3 + size
        return False

    @staticmethod
    def check_before(rec, msgs, before, view, behind, where):
        want = C.model_view(R.fold(rec, msgs=before)['content'])
        if view['start'] != want['start']:
            raise Violation('before-damage-start', where)
        for part in ('formats', 'info', 'initial'):
            for name, value in want[part].items():
                if view[part].get(name) != value and (name not in view[part] or behind.find(name.encode()) < 0):
                    raise Violation('before-damage-' + part, '%s%s: %s, not %s' % (where, name, view[part].get(name), value))
        for name, lists in want['multi'].items():
            have = view['multi'].get(name, [])
            if have[:len(lists) - 1] != lists[:-1] or len(have) < len(lists) or have[len(lists) - 1][:len(lists[-1])] != lists[-1]:
                raise Violation('before-damage-multi', where + name)

    @staticmethod
    def check_rest(rec, msgs, count, which, view, bodies, where):
        """ everything but what the touched definitions are about """
        hit = [msgs[k] for k in which]
        rest = [m for k, m in enumerate(msgs) if k not in which]
        kinds = {m[0] for m in hit}
        names = set()                      # what damaged content may be about now
        for body in bodies:
            names.add(R.text(body).split(':')[0])
            for skip in (0, 1):
                size = (body[skip:skip + 1] or b'\0')[0]
                names.update(R.text(body[skip + 1:skip + 1 + size]).split(' ')[1:2])
        lost = {m[1] for m in hit if m[0] == 'F'} - {m[1] for m in rest if m[0] == 'F'}
        spoilt = lost | ({m[1] for m in hit if m[0] == 'F'} | names if 'F' in kinds else set())
        # topics that need one of these formats
        away = {m[3] for m in rest if m[0] == 'A' and R.needed_formats(rec, m[3]) & spoilt}
        ids = {m[2] for m in rest if m[0] == 'A' and m[3] in away}
        state = R.fold(rec, msgs=[m for k, m in enumerate(msgs[:count]) if k not in which])
        state['in_data'] = True
        kept = [m for m in msgs[count:] if not (m[0] == 'A' and m[3] in away) and not (m[0] == 'D' and m[1] in ids)]
        want = C.model_view(R.fold(rec, msgs=kept, state=state)['content'])
        ignore = ['corrupt']
        if bodies and 'F' in kinds:
            # its samples may or may not be readable
            ignore.append('last')
            for v in (want, view):
                v['topics'] = {k: t for k, t in v['topics'].items() if k.rsplit('/', 1)[0] not in away}
                v['changed'] = [x[1:] for x in v['changed']]
                v['dropouts'] = [x[1:] for x in v['dropouts']]
                v['formats'] = {k: f for k, f in v['formats'].items() if k not in spoilt}
                v['duplicates'] = []
        if bodies and 'M' in kinds:
            keys = {m[3] for m in hit if m[0] == 'M'} | names
            for v in (want, view):
                v['multi'] = {k: x for k, x in v['multi'].items() if k not in keys}
        if bodies and 'Q' in kinds:
            keys = {m[3] for m in hit if m[0] == 'Q'} | names
            for v in (want, view):
                v['defaults'] = {b: {k: x for k, x in d.items() if k not in keys} for b, d in v['defaults'].items()}
                v['defaults'] = {b: d for b, d in v['defaults'].items() if d}
        for kind, part in (('I', 'info'), ('P', 'initial')):
            if bodies and kind in kinds:
                keys = {m[2] for m in hit if m[0] == kind} | names
                for v in (want, view):
                    v[part] = {k: x for k, x in v[part].items() if k not in keys}
        require_same(want, view, 'rest', ignore, where)
