""" L01-L07: loading logs """
import contextlib
import hashlib
import io
import os
import sqlite3
import struct

from .. import content as C
from .. import recorder as R
from .. import simio
from ..core import Violation
from .base import (Scenario, canon, interleaved, open_source, outcome, random_source,
                   require_same, shrink_recording, switching_at_lines, write_file)

READERS = ['pyulog.core.ULog (parser)', 'CPython io buffering']
DISK = ['raw file layer (simulated: read sizes, errors, scheduling)', 'flight logger and publishers (simulated)']


def ULog(*args, **kwargs):
    from pyulog import ULog as cls
    return cls(*args, **kwargs)


class Load(Scenario):
    real = READERS
    stub = DISK

    def shrink(self, plan):
        for rec in shrink_recording(plan['rec']):
            yield dict(plan, rec=rec)
        if plan.get('src') and (plan['src'].get('chunks') or plan['src']['mode'] != 'path'):
            yield dict(plan, src={'mode': 'path', 'bufsize': 8192})

    def world(self, plan, env, **kwargs):
        sim = env.new_sim(plan, **kwargs)
        world = simio.FileWorld(sim, env.root)
        simio.attach(world)
        return sim, world

    def load(self, env, sim, world, src, raw, *args, **kwargs):
        """ load as the only task; result of outcome() """
        arg, _ = open_source(world, env, src, raw)
        return sim.run_inline(lambda: outcome(ULog, arg, *args, **kwargs))


class Intact(Load):
    id = 'L01'
    rule = ('one simulated flight per case (publishers as discrete-event processes with their own periods and '
            'queueing delays), loaded through several sources with random read sizes; non-trivial: samples of at '
            'least two streams alternate in the file; distinct by event log and workload hash')
    assumptions = ['recordings are well-formed: formats before use, one format per name, timestamps are uint64']
    quick_cases = 10400
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        opts = {'huge_stamps': 0.01}
        if rng.random() < 0.2:
            opts['nonmono'] = True
        if rng.random() < 0.15:
            opts['msgs'] = 400
        rec = R.generate(rng, opts)
        for mode in rng.sample(['path', 'mem', 'file', 'raw'], 2):
            yield {'rec': rec, 'src': random_source(rng, (mode,))}

    def execute(self, plan, env):
        rec = plan['rec']
        raw, _ = R.encode(rec)
        sim, world = self.world(plan, env, max_steps=60 * len(raw) + 20000)
        got = self.load(env, sim, world, plan['src'], raw)
        env.nontrivial = interleaved(rec) > 0
        if got[0] == 'error':
            raise Violation('load-failed', '%s: %s' % got[1:])
        require_same(C.model_view(R.expected(rec)), canon(got[1]), 'content')


class Cut(Load):
    id = 'L02'
    rule = ('one simulated flight per case, power lost at many byte positions of it (random ones and all around '
            'message boundaries); non-trivial: the cut lies inside a message; distinct by event log and workload')
    assumptions = ['a power loss leaves a prefix of the log']
    quick_cases = 2520
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = R.generate(rng, {'msgs': 30})
        raw, ends = R.encode(rec)
        cuts = {0, rng.randrange(17), len(raw), len(raw) - 1}
        if rec['flags']:
            cuts.add(rng.randrange(16, 60))
        data_start = ends[len(rec['defs']) - 1] if rec['defs'] else 16
        for _ in range(6):
            cuts.add(rng.randrange(16, len(raw) + 1))
            cuts.add(rng.randrange(16, max(17, min(len(raw), data_start + 40))))
        for _ in range(8):
            end = rng.choice(ends or [16])
            cuts.add(end + rng.choice([-2, -1, 0, 1, 2, 3, 4, 5]))
        src = random_source(rng)
        for cut in sorted(c for c in cuts if 0 <= c <= len(raw)):
            yield {'rec': rec, 'src': src, 'faults': [{'kind': 'cut', 'at': cut}]}

    def shrink(self, plan):
        yield from super().shrink(plan)

    def execute(self, plan, env):
        rec = plan['rec']
        raw, ends = R.encode(rec)
        faults = plan.get('faults') or [{'at': len(raw)}]
        cut = min(faults[0]['at'], len(raw))
        sim, world = self.world(dict(plan, faults=[]), env, max_steps=20 * len(raw) + 20000)
        sim.log('cut', cut)
        if cut < len(raw):
            sim.fire('power_cut')
        got = self.load(env, sim, world, plan['src'], raw[:cut])
        env.nontrivial = cut not in ends and 0 < cut < len(raw)
        if sim.stuck:
            raise Violation('no-progress', 'cut at %d of %d' % (cut, len(raw)))
        if cut < 16:
            if got[0] == 'ok':
                raise Violation('accepted-without-header', 'cut at %d' % cut)
            return
        if got[0] == 'error':
            raise Violation('load-failed', 'cut at %d of %d: %s: %s' % (cut, len(raw), got[1], got[2]))
        part = complete_part(rec, ends, cut)
        require_same(C.model_view(R.expected(part)), canon(got[1]), 'content',
                     what='cut at %d of %d: ' % (cut, len(raw)))


def complete_part(rec, ends, cut):
    """ the recording made of the messages that end at or before `cut` """
    flags = rec['flags']
    if flags and cut < 16 + 3 + 40:
        flags = None
    msgs = rec['defs'] + rec['data']
    n = sum(1 for e in ends if e <= cut)
    defs = msgs[:min(n, len(rec['defs']))]
    data = msgs[len(rec['defs']):n]
    return dict(rec, flags=flags, defs=defs, data=data)


class Append(Load):
    id = 'L03'
    rule = ('a flight that ends at a simulated power cut (or in a zero-filled tail), followed by one to three appended '
            'sections, each possibly cut as well; non-trivial: at least one section starts behind an unfinished '
            'message or a zeroed tail; distinct by event log and workload')
    assumptions = ['the recorder patches the flags message with the true offsets of the appended sections',
                   'the damaged tail before a section consists of zero bytes (unwritten blocks)']
    quick_cases = 11000
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = R.generate(rng, {'append': True, 'msgs': 30})
        rounds = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            rounds.append(append_section(rng, rec, rounds))
        raw, ends = R.encode(rec)
        src = random_source(rng)
        for _ in range(3):
            tails = []
            for i in range(len(rounds) + 1):
                tails.append([rng.choice(['whole', 'cut', 'cut', 'cut', 'zeros', 'both']),
                              rng.random(), rng.choice([1, 2, 3, 5, 8, 100, 600])])
            if rng.random() < 0.6:
                tails[-1][0] = 'whole'
            yield {'rec': rec, 'rounds': rounds, 'src': src,
                   'faults': [{'kind': 'tail', 'round': i, 'how': t[0], 'at': t[1], 'zeros': t[2]}
                              for i, t in enumerate(tails) if t[0] != 'whole']}

    def shrink(self, plan):
        for items in [plan['rounds'][:-1]] if len(plan['rounds']) > 1 else []:
            yield dict(plan, rounds=items)
        for i, sec in enumerate(plan['rounds']):
            for k in range(len(sec)):
                rounds = list(plan['rounds'])
                rounds[i] = sec[:k] + sec[k + 1:]
                if valid_sections(plan['rec'], rounds):
                    yield dict(plan, rounds=rounds)
        for rec in shrink_recording(plan['rec']):
            if valid_sections(rec, plan['rounds']):
                yield dict(plan, rec=rec)

    def build(self, plan):
        """ -> bytes, list of message lists (per section, only complete ones), unclean? """
        rec = plan['rec']
        tails = {f['round']: f for f in plan.get('faults', ())}
        raw, ends = R.encode(rec)
        out = bytearray()
        kept = []
        offsets = []
        unclean = False
        sections = [(raw, ends, rec['defs'] + rec['data'])]
        for sec in plan['rounds']:
            body, sec_ends = bytearray(), []
            for m in sec:
                body += R.encode_msg(m)
                sec_ends.append(len(body))
            sections.append((bytes(body), sec_ends, sec))
        min_first = 16 + 43
        meant = {m[2]: m[1::2] for m in rec['data'] if m[0] == 'A'}
        for i, (body, sec_ends, msgs) in enumerate(sections):
            if i:
                offsets.append(len(out))
                # formats that were lost in the crash cannot be announced any more
                known = R.usable_formats(kept[0])
                there = {m[2]: m[1::2] for part in kept for m in part if m[0] == 'A'}
                fit = []
                for m in msgs:
                    if m[0] == 'A':
                        meant[m[2]] = m[1::2]
                        if m[3] not in known:
                            continue
                        there[m[2]] = m[1::2]
                    elif m[0] == 'D' and there.get(m[1], meant[m[1]]) != meant[m[1]]:
                        continue            # it lost the announcement as well
                    fit.append(m)
                if fit != msgs:
                    msgs = fit
                    body, sec_ends = bytearray(), []
                    for m in msgs:
                        body += R.encode_msg(m)
                        sec_ends.append(len(body))
            fault = tails.get(i)
            if fault is None:
                out += body
                kept.append(list(msgs))
                continue
            low = min_first if i == 0 else 0
            bounds = [e for e in [low] + list(sec_ends) if e >= low]
            cut = low + int(fault['at'] * max(0, len(body) - low))
            if fault['how'] == 'zeros':
                cut = max(b for b in bounds if b <= cut)
            n = sum(1 for e in sec_ends if e <= cut)
            tail = b''
            if fault['how'] == 'zeros':
                tail = bytes(fault['zeros'])
            elif fault['how'] == 'both':
                # zero bytes instead of the rest of the unfinished message, but not all of it
                nxt = min([e for e in sec_ends if e > cut] or [cut])
                head = max(b for b in bounds if b <= cut)
                tail = bytes(min(fault['zeros'], max(0, nxt - cut - 1))) if cut >= head + 3 else b''
            out += body[:cut] + tail
            if cut not in [low] + list(sec_ends) or tail:
                unclean = unclean or i < len(sections) - 1
            kept.append(list(msgs[:n]))
        flags = [list(rec['flags'][0]), list(rec['flags'][1])]
        flags[1][0] |= 1
        head, _ = R.encode(dict(rec, flags=flags, defs=[], data=[]), offsets)
        out[:len(head)] = head
        return bytes(out), kept, unclean, offsets

    def execute(self, plan, env):
        rec = plan['rec']
        raw, kept, unclean, offsets = self.build(plan)
        sim, world = self.world(dict(plan, faults=[]), env, max_steps=40 * len(raw) + 20000)
        for fault in plan.get('faults', ()):
            sim.fire('crash_then_append_' + fault['how'])
        sim.log('offsets', offsets, len(raw))
        got = self.load(env, sim, world, plan['src'], raw)
        env.nontrivial = unclean
        if sim.stuck:
            raise Violation('no-progress', 'offsets %s' % offsets)
        if got[0] == 'error':
            raise Violation('load-failed', 'offsets %s: %s: %s' % (offsets, got[1], got[2]))
        state = None
        for part in kept:
            state = R.fold(rec, msgs=part, state=state)
            state['in_data'] = True
        want = C.model_view(state['content'])
        got = canon(got[1])
        require_same(want, got, 'content', ('corrupt', 'duplicates'), 'sections at %s: ' % offsets)
        if not plan.get('faults') and got['corrupt']:
            raise Violation('sound-log-reported-corrupt', 'sections at %s' % offsets)


def append_section(rng, rec, rounds):
    """ messages of an appended section: more samples for known topics, new subscriptions, texts, infos """
    formats = {m[1]: m[2] for m in rec['defs'] if m[0] == 'F'}
    subs = {}
    used = set()
    last = {}
    for part in [rec['data']] + rounds:
        for m in part:
            if m[0] == 'A':
                subs[m[2]] = (m[1], m[3])
                used.add((m[1], m[3]))
    out = []
    stamp = rec['start'] + rng.randrange(1 << 26)
    for _ in range(rng.choice([1, 3, 6, 12])):
        stamp += rng.choice([0, 1, 5000])
        pick = rng.randrange(13)
        if pick < 4 and subs:
            mid = rng.choice(sorted(subs))
            layout = R.flatten(formats, subs[mid][1])
            out.append(['D', mid, R.sample_payload(rng, layout, stamp).hex()])
        elif pick == 4:
            names = [n for n in formats if any(f[2] == 'timestamp' and f[0] == 'uint64_t' for f in formats[n])
                     and not n.startswith('nested')]
            mid = rng.randrange(65536)
            multi = rng.randrange(8)
            if names and mid not in subs:
                name = rng.choice(sorted(names))
                if (multi, name) not in used:
                    subs[mid] = (multi, name)
                    used.add((multi, name))
                    out.append(['A', multi, mid, name])
        elif pick == 5 and subs:
            mid = rng.choice(sorted(subs))
            names = sorted(n for n in formats if any(f[2] == 'timestamp' and f[0] == 'uint64_t' for f in formats[n])
                           and not n.startswith('nested'))
            multi = rng.randrange(8)
            name = rng.choice(names) if names else None
            if rng.random() < 0.5:                # the same subscription announced again
                out.append(['A', subs[mid][0], mid, subs[mid][1]])
            elif name and (multi, name) not in used:
                subs[mid] = (multi, name)         # the id now stands for something else
                used.add((multi, name))
                out.append(['A', multi, mid, name])
                for _ in range(rng.choice([1, 1, 2])):
                    out.append(['D', mid, R.sample_payload(rng, R.flatten(formats, name), stamp).hex()])
        elif pick < 7:
            out.append(['L', rng.choice(list(b'01234567')), stamp, R.random_text(rng, {}).hex()])
        elif pick == 7:
            out.append(['C', rng.choice(list(b'01234567')), rng.choice([0, 3]), stamp, R.random_text(rng, {}).hex()])
        elif pick == 8:
            ftype, value = R.random_param(rng)
            out.append(['P', ftype, rng.choice(['MC_P', 'NEW_P']), value.hex()])
        elif pick == 9:
            itype, value = R.random_info(rng, {})
            out.append(['I', itype, rng.choice(['late', 'ver_sw', 'hardfault']), value.hex()])
        elif pick == 10:
            value = R.random_text(rng, {})
            out.append(['M', 0, 'char[%d]' % len(value), rng.choice(['hardfault_plain', 'hf']), value.hex()])
            for _ in range(rng.choice([0, 1, 2])):
                value = R.random_text(rng, {})
                out.append(['M', 1, 'char[%d]' % len(value), out[-1][3], value.hex()])
        elif pick == 11:
            out.append(['O', rng.randrange(100)])
        else:
            out.append(['S'])
    return out


def valid_sections(rec, rounds):
    subs = set()
    formats = {m[1] for m in rec['defs'] if m[0] == 'F'}
    for part in [rec['data']] + rounds:
        cont = False
        for m in part:
            if m[0] == 'A':
                if m[3] not in formats:
                    return False
                subs.add(m[2])
            elif m[0] == 'D' and m[1] not in subs:
                return False
            elif m[0] == 'M' and part is not rec['data']:
                if m[1] and not cont:
                    return False
                cont = True
    return all(part for part in rounds)


UNKNOWN = list(b'XYZz\x01\xfe')          # types of messages this version does not know


class Damage(Load):
    id = 'L04'
    rule = ('a flight whose data section (behind its first message) has a damaged region: zeroed blocks, flipped bits, '
            'random bytes or bytes of another place; non-trivial: the region overlaps at least one complete message; '
            'distinct by event log and workload')
    assumptions = ['random bytes do not form a sync marker (checked by the generator)']
    quick_cases = 4400
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = R.generate(rng, {'sync': 0.9, 'msgs': rng.choice([20, 60, 200])})
        if not rec['data']:
            return
        raw, ends = R.encode(rec)
        low = ends[len(rec['defs'])]
        if low >= len(raw) or len(raw) > 300000:
            return
        src = random_source(rng, ('path', 'path', 'mem', 'file'))
        if len(raw) > 20000:
            src = {'mode': 'path', 'bufsize': 8192}
        for _ in range(6):
            how = rng.choice(['zero', 'zero', 'zero', 'bits', 'random', 'copy'])
            length = rng.choice([1, 2, 3, 4, 8, 11, 20, 64, 200, 512, 2000])
            at = rng.randrange(low, len(raw))
            if rng.random() < 0.5:
                # start exactly at, or just before, a message
                at = max(low, rng.choice(ends[len(rec['defs']):]) - rng.choice([0, 0, 1, 2, 5]))
            yield {'rec': rec, 'src': src, 'faults': [{'kind': 'damage', 'how': how, 'at': at, 'len': length,
                                                      'pick': rng.getrandbits(32)}]}
        for _ in range(3):
            # several regions are wiped out, each beginning at a message
            faults = []
            for _ in range(rng.choice([2, 2, 3])):
                at = rng.choice(ends[len(rec['defs']):])
                faults.append({'kind': 'damage', 'how': 'zero', 'at': max(low, at - rng.choice([0, 0, 1, 7])),
                               'len': rng.choice([8, 20, 64, 200, 512]), 'pick': 0})
            yield {'rec': rec, 'src': src, 'faults': faults}
        for _ in range(2):
            # the header of a message becomes that of a message of a type nobody knows
            i = rng.randrange(len(rec['data']))
            at = ends[len(rec['defs']) + i - 1] if rec['defs'] or i else low
            size = ends[len(rec['defs']) + i] - at - 3
            if at >= low and size >= 0:
                if rng.random() < 0.6:
                    size = rng.choice([rng.randrange(1, 10001), rng.randrange(1, 300), max(1, (len(raw) - at) // 2),
                                       rng.randrange(10001, 65536), 10001])
                yield {'rec': rec, 'src': src, 'faults': [{'kind': 'damage', 'how': 'head', 'at': at, 'len': 3,
                                                          'pick': min(size, 65535) << 8 | rng.choice(UNKNOWN)}]}
        for _ in range(2):
            # messages whose content does not fit their type or topic
            misfits = {}
            for _ in range(rng.choice([1, 1, 2, 4])):
                i = rng.randrange(len(rec['data']))
                body = misfit(rng, rec, i) if any(m[0] in 'ALC' for m in rec['data'][:i]) else None
                if body is not None:
                    misfits[i] = body
            if misfits:
                yield {'rec': rec, 'src': src, 'misfits': [[i, b.hex()] for i, b in sorted(misfits.items())]}

    def shrink(self, plan):
        if plan.get('misfits'):
            misfits = plan['misfits']
            data = plan['rec']['data']
            if len(misfits) > 1:
                for i in range(len(misfits)):
                    yield dict(plan, misfits=misfits[:i] + misfits[i + 1:])
            places = {i for i, _ in misfits}
            for i in range(len(data) - 1, 0, -1):
                if data[i][0] != 'A' and i not in places:
                    yield dict(plan, rec=dict(plan['rec'], data=data[:i] + data[i + 1:]), misfits=[[k - (k > i), b] for k, b in misfits])
            return
        for i, fault in enumerate(plan.get('faults', ())):
            if fault['len'] > 1:
                for size in (fault['len'] // 2, fault['len'] - 1):
                    faults = list(plan['faults'])
                    faults[i] = dict(fault, len=size)
                    yield dict(plan, faults=faults)
        raw, _ = R.encode(plan['rec'])
        for rec in shrink_recording(plan['rec']):
            yield dict(plan, rec=rec)
            new, _ = R.encode(rec)
            yield dict(plan, rec=rec, faults=[dict(f, at=f['at'] - (len(raw) - len(new)))
                                              for f in plan.get('faults', ())])
        yield dict(plan, src={'mode': 'path', 'bufsize': 8192})

    def execute_misfits(self, plan, env):
        rec = plan['rec']
        bodies = {i: bytes.fromhex(b) for i, b in plan['misfits']}
        kept = [m for i, m in enumerate(rec['data']) if i not in bodies]
        if not any(m[0] in 'ALC' for m in rec['data'][:min(bodies)]):
            return                     # not in the data section
        raw = bytearray(R.encode(dict(rec, data=[]))[0])
        for i, m in enumerate(rec['data']):
            raw += R.encode_msg(m) if i not in bodies else struct.pack('<HB', len(bodies[i]), ord(m[0])) + bodies[i]
        sim, world = self.world(plan, env, max_steps=40 * len(raw) + 20000)
        for i in sorted(bodies):
            sim.log('misfit', i, rec['data'][i][0], len(bodies[i]))
            sim.fire('damage_misfit')
        got = self.load(env, sim, world, plan['src'], bytes(raw))
        env.nontrivial = any(i > min(bodies) and m[0] in 'DLCP' for i, m in enumerate(rec['data']) if i not in bodies)
        where = 'misfits %s: ' % [(i, rec['data'][i][0], len(b)) for i, b in sorted(bodies.items())]
        if sim.stuck:
            raise Violation('no-progress', where)
        if got[0] == 'error':
            raise Violation('load-failed', '%s%s: %s' % (where, got[1], got[2]))
        view = canon(got[1])
        require_same(C.model_view(R.fold(rec, msgs=rec['defs'] + kept)['content']), view, 'misfit', ('corrupt',), where)
        if not view['corrupt']:
            raise Violation('damage-not-reported', where)

    @staticmethod
    def check_foreign(rec, raw, starts, ends, fault, view, where):
        """ one header says: unknown type, some length """
        msgs = rec['defs'] + rec['data']
        if fault['at'] not in starts or ends[starts.index(fault['at'])] - fault['at'] < 3 or fault['at'] + 3 > len(raw):
            return
        i = starts.index(fault['at'])
        size, kind = fault['pick'] >> 8, fault['pick'] & 255
        if not size or kind not in UNKNOWN:
            return
        stop = fault['at'] + 3 + size
        if size > 10000:
            # longer than any message: what follows is searched for the next marker
            if stop <= len(raw):
                if not view['corrupt']:
                    raise Violation('damage-not-reported', where)
                sync = [k for k in range(i + 1, len(msgs)) if msgs[k][0] == 'S']
                if sync:
                    check_parts(rec, [msgs[:i], msgs[sync[0]:]], msgs, view, where, counts=True)
            return
        if stop == ends[i]:
            # skipped like any message of a newer version
            want = C.model_view(R.fold(rec, msgs=msgs[:i] + msgs[i + 1:])['content'])
            require_same(want, view, 'after-unknown', ('corrupt',), where)
            return
        sync = [k for k in range(i + 1, len(msgs)) if msgs[k][0] == 'S' and ends[k] <= stop]
        if stop <= len(raw) and sync:
            # the marker within what would be skipped shows that this is not a message
            if not view['corrupt']:
                raise Violation('damage-not-reported', where)
            check_parts(rec, [msgs[:i], msgs[sync[0]:]], msgs, view, where, counts=True)

    def execute(self, plan, env):
        import random as _random
        if plan.get('misfits'):
            self.execute_misfits(plan, env)
            return
        rec = plan['rec']
        raw, ends = R.encode(rec)
        if len(ends) <= len(rec['defs']):
            return
        low = ends[len(rec['defs'])]
        image = bytearray(raw)
        faults = plan.get('faults', ())
        zero_only = True
        begin, stop = len(raw), low
        regions = []
        for fault in faults:
            at = max(low, min(fault['at'], len(raw)))
            size = min(fault['len'], len(raw) - at)
            rng = _random.Random(fault['pick'])
            if fault['how'] == 'zero':
                new = bytes(size)
            elif fault['how'] == 'head':
                new = struct.pack('<HB', fault['pick'] >> 8, fault['pick'] & 255)[:size]
                zero_only = False
            elif fault['how'] == 'bits':
                new = bytearray(raw[at:at + size])
                for _ in range(1 + len(new) // 40):
                    if new:
                        new[rng.randrange(len(new))] ^= 1 << rng.randrange(8)
                zero_only = False
            elif fault['how'] == 'copy':
                other = rng.randrange(16, max(17, len(raw) - size))
                new = raw[other:other + size].ljust(size, b'\xff')
                zero_only = False
            else:
                new = rng.randbytes(size)
                zero_only = False
            image[at:at + size] = new
            if size:
                begin, stop = min(begin, at), max(stop, at + size)
                regions.append((at, at + size))
        if begin >= stop:
            return
        sim, world = self.world(dict(plan, faults=[]), env, max_steps=40 * len(raw) + 20000)
        sim.log('damage', begin, stop)
        for fault in faults:
            sim.fire('damage_' + fault['how'])
        msgs = rec['defs'] + rec['data']
        starts = [16 + (43 if rec['flags'] else 0)] + ends[:-1]
        got = self.load(env, sim, world, plan['src'], bytes(image))
        touched = [i for i in range(len(msgs)) if starts[i] < stop and ends[i] > begin]
        env.nontrivial = any(begin <= starts[i] and ends[i] <= stop for i in touched)
        where = 'damage [%d,%d) of %d: ' % (begin, stop, len(raw))
        if sim.stuck:
            raise Violation('no-progress', where)
        if got[0] == 'error':
            raise Violation('load-failed', '%s%s: %s' % (where, got[1], got[2]))
        log = got[1]
        before = [m for m, e in zip(msgs, ends) if e <= begin]
        want = R.fold(rec, msgs=before)['content']
        entries = topic_entries(log)
        view = canon(log)
        # keys that are written again, or that the damage could have forged a message for
        after_keys = {m[2] for m in msgs if m[0] == 'I' and
                      bytes(image).find((' ' + m[2]).encode(), max(low, begin - 300)) >= 0}
        check_prefix(want, view, entries, where, zero_only, after_keys)
        regions = merge(regions)
        if [f['how'] for f in faults] == ['head']:
            self.check_foreign(rec, raw, starts, ends, faults[0], view, where)
            return
        # the type byte decides: without it the message cannot be read, and the reader is still aligned when it gets there
        wiped = [any(a <= starts[i] + 2 < b for i in range(len(msgs))) for a, b in regions]
        if zero_only and wiped[0]:
            sim.probe('message header wiped')
            if not view['corrupt']:
                raise Violation('damage-not-reported', where)
        if zero_only and all(wiped):
            # what is certain to be read: everything before the first region, and behind each region
            # everything from the next intact sync marker on, up to the next region
            parts = [before]
            for k, (_, b) in enumerate(regions):
                end = regions[k + 1][0] if k + 1 < len(regions) else len(raw)
                sync = [i for i in range(len(msgs)) if msgs[i][0] == 'S' and starts[i] >= b and ends[i] <= end]
                if sync:
                    sim.probe('sync marker behind wiped header' if k + 1 == len(regions) else
                              'sync marker between wiped headers')
                    last = max(i for i in range(len(msgs)) if ends[i] <= end)
                    parts.append(msgs[sync[0]:last + 1])
                elif k + 1 == len(regions):
                    parts.append([])
            check_parts(rec, parts, msgs, view, where, counts=bool(parts[-1]) or len(parts) == 1)


def misfit(rng, rec, index):
    """ a body for a data section message that does not fit its type or topic, or None """
    m = rec['data'][index]
    body = R.encode_msg(m)[3:]
    if m[0] == 'D':
        subs = {a[2]: a[3] for a in rec['data'][:index] if a[0] == 'A'}
        if m[1] not in subs:
            return body[:rng.randrange(2)]
        fields, keep = R.flatten({f[1]: f[2] for f in rec['defs'] if f[0] == 'F'}, subs[m[1]])
        low = sum(R.WIDTH[t] for _, t in fields[:keep])
        high = sum(R.WIDTH[t] for _, t in fields)
        if rng.random() < 0.4:
            return body + rng.randbytes(2 + high - len(body) + rng.choice([1, 1, 2, 8, 40]))
        return body[:rng.choice([0, 1, 2, 2 + low // 2, 2 + low - 1, rng.randrange(2 + low)])]
    limit = {'L': 9, 'C': 11, 'O': 2}.get(m[0])
    if limit:
        return body[:rng.randrange(limit)]
    if m[0] == 'P' or m[0] == 'I' and m[1] in R.WIDTH:
        value = R.WIDTH[m[1]]
        return rng.choice([body[:-1], body[:len(body) - value], body + b'x', body[:1 + len(m[1])], b''])
    return None


def merge(regions):
    out = []
    for a, b in sorted(regions):
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def topic_entries(log):
    out = {}
    for data in log.data_list:
        out.setdefault('%s/%d' % (data.name, data.multi_id), []).append(C.canon_topic(data))
    return out


def check_prefix(want, got, entries, where, zero_only, later_keys):
    for key in ('start', 'formats'):
        require_same(want[key], got[key], 'before-damage-' + key, what=where)
    for name, value in want['initial'].items():
        if got['initial'].get(name) != value:
            raise Violation('before-damage-initial', '%s%s' % (where, name))
    for name, value in want['info'].items():
        if name not in got['info'] or (got['info'][name] != value and name not in later_keys):
            raise Violation('before-damage-info', '%s%s: expected %s, got %s' % (where, name, value,
                                                                                got['info'].get(name)))
    for key in ('changed', 'text', 'dropouts'):
        if got[key][:len(want[key])] != want[key]:
            raise Violation('before-damage-' + key, where)
    for tag, items in want['tagged'].items():
        if got['tagged'].get(tag, [])[:len(items)] != items:
            raise Violation('before-damage-tagged', where)
    for name, lists in want['multi'].items():
        have = got['multi'].get(name, [])
        ok = have[:len(lists) - 1] == lists[:-1] and len(have) >= len(lists) and \
            have[len(lists) - 1][:len(lists[-1])] == lists[-1]
        if not ok:
            raise Violation('before-damage-multi', where + name)
    if got['last'] < want['last']:
        raise Violation('before-damage-last', where)
    for key, topic in want['topics'].items():
        for entry in entries.get(key, []):
            if entry['fields'] == topic['fields'] and entry['n'] >= topic['n'] and \
                    all(entry['cols'][f].startswith(v) for f, v in topic['cols'].items()):
                break
        else:
            raise Violation('before-damage-samples', '%s%s: %d samples recorded before' % (where, key, topic['n']))


def rows_of(topic):
    """ the samples of a topic, one string each """
    if not topic['n']:
        return []
    width = {f: len(v) // topic['n'] for f, v in topic['cols'].items()}
    return [tuple(v[i * width[f]:(i + 1) * width[f]] for f, v in topic['cols'].items()) for i in range(topic['n'])]


def in_order(parts, have):
    """ `have` begins with the first part, ends with the last one, and holds those between them in order """
    first, last = parts[0], parts[-1]
    if have[:len(first)] != first or have[max(0, len(have) - len(last)):] != last:
        return False
    at = len(first)
    stop = len(have) - len(last)
    if at > stop:
        return False
    for part in parts[1:-1]:
        while at + len(part) <= stop and have[at:at + len(part)] != part:
            at += 1
        if at + len(part) > stop:
            return False
        at += len(part)
    return True


def check_parts(rec, parts, msgs, got, where, counts):
    """ wiped regions: the messages of every part arrived, in order and once """
    reached = [m for part in parts for m in part]
    rest = list(msgs)
    for m in reached:
        rest.remove(m)
    full = R.fold(rec, msgs=reached)['content']
    state = None
    views = []          # what each part adds
    for part in parts:
        known = []
        if state is not None:
            known = [m for p in parts[:len(views)] for m in p if m[0] in 'FA']
        views.append(R.fold(rec, msgs=known + part)['content'])
        state = True
    for key, topic in full['topics'].items():
        have = got['topics'].get(key)
        want = [rows_of(v['topics'][key]) if key in v['topics'] else [] for v in views]
        if have is None or not in_order(want, rows_of(have)):
            raise Violation('after-sync-samples', '%s%s: expected runs of %s samples' % (
                where, key, [len(x) for x in want]))
        extra = sum(1 for m in rest if m[0] == 'D' and m[1] == topic['id'])
        if counts and not topic['n'] <= have['n'] <= topic['n'] + extra:
            raise Violation('after-sync-count', '%s%s: %d samples, expected %d to %d' % (
                where, key, have['n'], topic['n'], topic['n'] + extra))
    for key in ('text', 'changed', 'dropouts'):
        strip = (lambda x: x) if key == 'text' else (lambda x: x[1:])
        extra = sum(1 for m in rest if m[0] == {'text': 'L', 'changed': 'P', 'dropouts': 'O'}[key])
        if not in_order([[strip(x) for x in v[key]] for v in views], [strip(x) for x in got[key]]):
            raise Violation('after-sync-' + key, where)
        if counts and not len(full[key]) <= len(got[key]) <= len(full[key]) + extra:
            raise Violation('after-sync-count-' + key, where)
    for tag in full['tagged']:
        if not in_order([v['tagged'].get(tag, []) for v in views], got['tagged'].get(tag, [])):
            raise Violation('after-sync-tagged', where)
    for name, value in views[-1]['info'].items():
        if got['info'].get(name) != value:
            raise Violation('after-sync-info', where + name)


class Source(Load):
    id = 'L05'
    rule = ('one flight per case, loaded through a path, an open file, a raw file with short reads and a memory buffer, '
            'with an error injected at one of the reads (I/O error, out of memory, interrupted call, short read), plus '
            'content hash and database object from the same sources; non-trivial: a fault fired or reads were split; '
            'distinct by event log and workload')
    real = READERS + ['pyulog.db.DatabaseULog (hash, construction)', 'SQLite library']
    stub = DISK + ['SQLite VFS (simulated disk)']
    assumptions = ['an interrupted system call (EINTR) is retried by the Python runtime']
    quick_cases = 1800
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = R.generate(rng, {'modest': True, 'db': True, 'max_fields': 4, 'msgs': rng.choice([10, 40, 150])})
        for _ in range(3):
            src = random_source(rng)
            what = rng.choice(['load', 'load', 'hash', 'db'])
            plan = {'rec': rec, 'src': src, 'what': what}
            probe = run(plan)
            reads = [op[0] for op in probe.ops if op[1] == 'read']
            opens = [op[0] for op in probe.ops if op[1] == 'open']
            for _ in range(4):
                if not reads:
                    break
                kind = rng.choice(['eio_read', 'eio_read', 'nomem', 'eintr', 'short_io'])
                step = rng.choice(reads + reads[-1:] * 2 + reads[:2])
                if opens and rng.random() < 0.1:
                    kind, step = 'eio_open', rng.choice(opens)
                if src['mode'] == 'mem' and kind in ('eintr', 'short_io'):
                    kind = 'eio_read'
                yield dict(plan, faults=[{'step': step, 'kind': kind}])

    def execute(self, plan, env):
        from pyulog.db import DatabaseULog
        from .dbase import template_db
        rec = plan['rec']
        raw, _ = R.encode(rec)
        want = C.model_view(R.expected(rec))
        sim, world = self.world(plan, env, max_steps=60 * len(raw) + 20000)
        what = plan['what']
        handle = None
        if what == 'db':
            handle = template_db(sim, env)
            disk_ops = []
            del disk_ops
        arg, path = open_source(world, env, plan['src'], raw)
        if plan['src']['mode'] == 'raw' and what == 'load':
            sim.probe('raw unbuffered source')

        def work():
            if what == 'hash':
                digest = DatabaseULog.calc_sha256sum(arg)
                return digest, ULog(arg)
            if what == 'db':
                log = DatabaseULog(handle, log_file=arg)
                return log.sha256sum, log
            return None, ULog(arg)
        before = dict(sim.fired)
        got = sim.run_inline(lambda: outcome(work))
        hard = [k for k in sim.fired if k in ('eio_read', 'nomem', 'eio_open') and sim.fired[k] > before.get(k, 0)]
        env.nontrivial = bool(sim.fired) or bool(world.chunks)
        if sim.stuck:
            raise Violation('no-progress', what)
        import hashlib
        good_hash = hashlib.sha256(raw).hexdigest()
        if got[0] == 'error':
            if not hard:
                raise Violation('load-failed', '%s from %s: %s: %s' % (what, plan['src']['mode'], got[1], got[2]))
            names = {'eio_read': ('OSError',), 'nomem': ('MemoryError', 'OperationalError'),
                     'eio_open': ('OSError', 'PermissionError', 'OperationalError')}
            if got[1] not in names[hard[0]] and got[1] not in ('DatabaseError', 'OperationalError'):
                raise Violation('wrong-error', '%s fault gave %s: %s' % (hard[0], got[1], got[2]))
        else:
            digest, log = got[1]
            require_same(want, canon(log), 'silent-partial' if hard else 'content',
                         what='%s from %s%s: ' % (what, plan['src']['mode'], ' after fault' if hard else ''))
            if digest is not None and digest != good_hash:
                raise Violation('hash', '%s from %s' % (what, plan['src']['mode']))
        del got
        # the source works again
        again = outcome(ULog, path)
        if again[0] == 'error':
            raise Violation('load-failed', 'retry: %s: %s' % again[1:])
        require_same(want, canon(again[1]), 'content', what='retry: ')
        if what != 'load':
            digest = outcome(DatabaseULog.calc_sha256sum, path)
            if digest != ('ok', good_hash):
                raise Violation('hash', 'path: %r' % (digest,))


class Filter(Load):
    id = 'L06'
    rule = ('a flight (complete, cut at a random byte, or with appended sections) loaded unrestricted and restricted to '
            'random topic lists; non-trivial: some recorded topic with samples is not selected and another one is; '
            'distinct by event log and workload')
    quick_cases = 7500
    thorough_cases = 1000000
    assumptions = ['values of parameter changes are compared without their time stamps, which come from the loaded samples']

    def plans(self, rng, run, tier):
        shape = rng.choice(['whole', 'whole', 'cut', 'append'])
        rec = R.generate(rng, {'append': shape == 'append', 'topics': 6, 'msgs': 40, 'modest': True})
        names = sorted({m[3] for m in rec['data'] if m[0] == 'A'})
        if not names:
            return
        rounds = []
        if shape == 'append':
            rounds = [append_section(rng, rec, [])]
        src = random_source(rng)
        faults = []
        raw, _ = R.encode(rec)
        if shape == 'cut':
            faults = [{'kind': 'cut', 'at': rng.randrange(16, len(raw) + 1)}]
        for _ in range(3):
            pick = [n for n in names if rng.random() < 0.5]
            if rng.random() < 0.2:
                pick.append('not_there')
            rng.shuffle(pick)
            yield {'rec': rec, 'rounds': rounds, 'src': src, 'names': pick, 'faults': faults}

    def shrink(self, plan):
        for i in range(len(plan['names'])):
            yield dict(plan, names=plan['names'][:i] + plan['names'][i + 1:])
        for rec in shrink_recording(plan['rec']):
            if not plan['rounds'] or valid_sections(rec, plan['rounds']):
                yield dict(plan, rec=rec)

    def execute(self, plan, env):
        rec = plan['rec']
        if plan['rounds']:
            raw, _, _, _ = Append().build(dict(plan, faults=[]))
        else:
            raw, _ = R.encode(rec)
        for fault in plan.get('faults', ()):
            raw = raw[:max(16, fault['at'])]
        sim, world = self.world(dict(plan, faults=[]), env, max_steps=80 * len(raw) + 40000)
        if plan.get('faults'):
            sim.fire('power_cut')
        names = plan['names']
        full = self.load(env, sim, world, plan['src'], raw)
        part = self.load(env, sim, world, plan['src'], raw, list(names))
        for res, what in ((full, 'unrestricted'), (part, 'restricted to %s' % names)):
            if res[0] == 'error':
                raise Violation('load-failed', '%s: %s: %s' % ((what,) + res[1:]))
        full, part = canon(full[1]), canon(part[1])
        want = {k: v for k, v in full['topics'].items() if k.rsplit('/', 1)[0] in names}
        env.nontrivial = bool(want) and len(want) < len(full['topics'])
        require_same(want, part['topics'], 'topics', what='restricted to %s: ' % names)
        for key in ('start', 'formats', 'info', 'multi', 'initial', 'defaults', 'text', 'tagged'):
            require_same(full[key], part[key], key, what='restricted to %s: ' % names)
        require_same([x[1:] for x in full['changed']], [x[1:] for x in part['changed']], 'changed')
        require_same([x[1:] for x in full['dropouts']], [x[1:] for x in part['dropouts']], 'dropouts')
        if part['corrupt'] and not full['corrupt']:
            raise Violation('corrupt', 'restricted to %s' % names)
        if not plan.get('faults'):
            expect = R.expected(rec) if not plan['rounds'] else None
            if part['corrupt']:
                raise Violation('corrupt', 'sound log, restricted to %s' % names)
            if expect is not None:
                good = {k: v for k, v in expect['topics'].items() if k.rsplit('/', 1)[0] in names}
                require_same(good, part['topics'], 'topics-model', what='restricted to %s: ' % names)


class Concurrent(Load):
    id = 'L07'
    rule = ('two or three loads of different logs with different options in simulated threads of one process, switched at '
            'reads and at line boundaries inside pyulog; non-trivial: at least two context switches while several loads '
            'were in progress; distinct by event log (the schedule) and workload')
    stub = DISK + ['thread scheduler (simulated, switches at reads and source lines of pyulog)']
    assumptions = ['a context switch happens between source lines or at reads, not inside one line']
    quick_cases = 780
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        loads = []
        for _ in range(rng.choice([2, 2, 3])):
            rec = R.generate(rng, {'large': 0, 'invalid': rng.choice([0, 0.4, 0.8]), 'msgs': 12, 'topics': 3, 'max_fields': 3})
            names = None
            if rng.random() < 0.3:
                names = sorted({m[3] for m in rec['data'] if m[0] == 'A'})[:1]
            loads.append({'rec': rec, 'strict': rng.random() < 0.5, 'names': names,
                          'mode': rng.choice(['path', 'mem', 'file'])})
        plan = {'loads': loads, 'bufsize': rng.choice([16, 64, 512]), 'preempt': []}
        probe = run(plan)
        total = max(1, probe.steps)
        reads = [op[0] for op in probe.ops if op[1] == 'read'] or [1]
        for _ in range(6):
            count = rng.choice([1, 2, 4, 10, 30])
            steps = set()
            for _ in range(count):
                steps.add(rng.choice(reads) if rng.random() < 0.4 else rng.randrange(1, total + 1))
            yield dict(plan, preempt=[[s, rng.randrange(3)] for s in sorted(steps)])

    def shrink(self, plan):
        for i in range(len(plan['loads'])):
            if len(plan['loads']) > 1:
                yield dict(plan, loads=plan['loads'][:i] + plan['loads'][i + 1:])
        for i, item in enumerate(plan['loads']):
            for rec in shrink_recording(item['rec']):
                loads = list(plan['loads'])
                loads[i] = dict(item, rec=rec)
                yield dict(plan, loads=loads)

    def execute(self, plan, env):
        sim, world = self.world(plan, env, max_steps=2000000)
        world.bufsize = plan['bufsize']
        results = {}
        from pyulog import ULog as cls

        def client(i, item):
            raw, _ = R.encode(item['rec'])
            path = os.path.join(env.root, 'log%d.ulg' % i)
            write_file(path, raw)

            def body():
                if item['mode'] == 'path':
                    arg = path
                elif item['mode'] == 'mem':
                    arg = simio.MemFile(raw, sim, 'mem%d' % i)
                else:
                    arg = simio.sim_open(path, 'rb')
                with switching_at_lines(sim):
                    results[i] = outcome(cls, arg, item['names'], not item['strict'])
            return body
        for i, item in enumerate(plan['loads']):
            sim.spawn('load%d' % i, client(i, item))
        sim.run()
        if sim.stuck:
            raise Violation('no-progress', '')
        env.nontrivial = sim.switches >= len(plan['loads']) + 1 and len(plan['loads']) > 1
        for i, item in enumerate(plan['loads']):
            res = results[i]
            bad = item['strict'] and has_invalid(item['rec'])
            if bad:
                if res[0] == 'ok':
                    raise Violation('strict-load-tolerated', 'load %d' % i)
                if res[1] != 'UnicodeDecodeError':
                    raise Violation('wrong-error', 'load %d: %s: %s' % ((i,) + res[1:]))
                continue
            if res[0] == 'error':
                raise Violation('load-failed', 'load %d: %s: %s' % ((i,) + res[1:]))
            require_same(C.model_view(R.expected(item['rec'], item['names'])), canon(res[1]), 'content',
                         what='load %d: ' % i)


class Growing(Load):
    id = 'L08'
    rule = ('a logger process appends to the log (in blocks that end anywhere) while another one loads or hashes it, each appended '
            'block placed before a random raw read; non-trivial: the log grew during the load and ended inside a message at least once '
            'when the loader looked; distinct by event log and workload')
    stub = DISK + ['logger process (simulated, appends between the raw reads of the loader)']
    assumptions = ['the logger only appends', 'what has been written is visible to readers at once']
    quick_cases = 5000
    thorough_cases = 1000000

    def plans(self, rng, run, tier):
        rec = R.generate(rng, {'modest': True, 'msgs': rng.choice([10, 30]), 'max_fields': 3})
        raw, ends = R.encode(rec)
        first = ends[len(rec['defs'])] if len(ends) > len(rec['defs']) else len(raw)
        src = random_source(rng, ('path', 'file', 'raw'))
        src['bufsize'] = rng.choice([16, 64, 100, 512, 8192])
        for k in range(6):
            # where the log ends when the load begins
            start = rng.choice([rng.randrange(16, len(raw) + 1), rng.randrange(16, first + 1),
                                min(len(raw), rng.choice(ends or [16]) + rng.choice([-1, 0, 1, 2, 3]))])
            yield {'rec': rec, 'src': src, 'start': max(16, start), 'what': rng.choice(['load', 'load', 'load', 'hash', 'import'] if src['mode'] == 'path' else ['load', 'load', 'hash']),
                   'faults': self.growth(rng, raw, max(16, start), src)}

    @staticmethod
    def growth(rng, raw, start, src):
        """ blocks, each before one of the reads; most of them where the loader has reached the end of the file """
        rest = len(raw) - start
        reads = max(2, start // max(1, min([src['bufsize']] + src.get('chunks', []))))
        out = []
        for _ in range(rng.choice([1, 2, 4, 10])):
            size = min(rest, rng.choice([1, 2, 3, 5, 17, 64, 300]))
            if size <= 0:
                break
            rest -= size
            fault = {'kind': 'grow', 'bytes': size}
            pick = rng.random()
            if pick < 0.2:
                fault['after'] = rng.choice([1, 1, 1, 2, 2, 3])
            elif pick < 0.65:
                fault['eof'] = rng.choice([1, 1, 2, 2, 3, 4])
            else:
                fault['read'] = rng.randrange(reads + 2)
            out.append(fault)
        return out

    def execute(self, plan, env):
        rec = plan['rec']
        raw, ends = R.encode(rec)
        sim, world = self.world(dict(plan, faults=[]), env, max_steps=100 * len(raw) + 20000)
        sizes = [min(plan['start'], len(raw))]
        count = {'read': 0, 'eof': 0, 'after': 0}
        torn = []

        def logger(reader, after=False):
            count['after' if after else 'read'] += 1
            at_end = os.lseek(reader.fileno(), 0, os.SEEK_CUR) >= sizes[-1]
            if at_end and not after:
                count['eof'] += 1
            for fault in plan.get('faults', ()):
                if fault.get('after') == count['after'] if after else \
                        fault.get('read') == count['read'] or at_end and fault.get('eof') == count['eof']:
                    block = raw[sizes[-1]:sizes[-1] + fault['bytes']]
                    if not block:
                        continue
                    if at_end and sizes[-1] not in ends:
                        torn.append(sizes[-1])
                    with io.FileIO(path, 'a') as out:
                        out.write(block)
                    sizes.append(sizes[-1] + len(block))
                    sim.fire('log_grows')
                    sim.log('grow', sizes[-1])
        arg, path = open_source(world, env, plan['src'], raw[:sizes[0]])
        world.before_read = logger
        world.after_end = lambda reader: logger(reader, True)
        act = {'load': self.only_load, 'hash': self.only_hash, 'import': self.import_log}[plan['what']]
        got = sim.run_inline(lambda: outcome(act, arg))
        world.before_read = world.after_end = None
        env.nontrivial = bool(torn)
        if sim.stuck:
            raise Violation('no-progress', 'sizes %s' % sizes)
        if got[0] == 'error':
            if plan['what'] == 'import' and len(sizes) > 1:
                return          # it may refuse a log that changes while it is imported
            raise Violation('fails', 'sizes %s: %s: %s' % ((sizes,) + got[1:]))
        digest, log = got[1]
        moments = sizes
        if digest is not None:
            moments = [s for s in sizes if hashlib.sha256(raw[:s]).hexdigest() == digest]
            if not moments:
                raise Violation('hash', 'of none of the states %s of the log' % sizes)
        if log is not None:
            have = canon(log)
            found = None
            for size in moments:
                want = C.model_view(R.expected(complete_part(rec, ends, size)))
                found = C.diff(want, have)
                if not found:
                    return
            raise Violation('content', 'none of the states %s of the log: %s' % (moments, found))

    @staticmethod
    def only_load(source):
        return None, ULog(source)

    @staticmethod
    def only_hash(source):
        from pyulog.db import DatabaseULog
        return DatabaseULog.calc_sha256sum(source), None

    @staticmethod
    def import_log(source):
        from pyulog.db import DatabaseULog

        @contextlib.contextmanager
        def handle():
            con = sqlite3.connect(':memory:')
            con.execute('PRAGMA user_version = %d' % DatabaseULog.SCHEMA_VERSION)
            yield con
            con.close()
        log = DatabaseULog(handle, log_file=source)
        return log.sha256sum, log


def has_invalid(rec):
    for m in rec['defs'] + rec['data']:
        raws = []
        if m[0] == 'I' and m[1].startswith('char['):
            raws = [m[3]]
        elif m[0] == 'M' and m[2].startswith('char['):
            raws = [m[4]]
        elif m[0] == 'L':
            raws = [m[3]]
        elif m[0] == 'C':
            raws = [m[4]]
        for raw in raws:
            try:
                bytes.fromhex(raw).decode('utf-8')
            except UnicodeDecodeError:
                return True
    return False


