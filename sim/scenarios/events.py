""" E01: event messages in spite of a failing network and damaged definitions """
import json
import lzma
import os
import random
import struct
import sys
import types
import urllib.error
import urllib.request

from .. import recorder as R
from .. import simio
from ..core import SimKilled, SimStuck, Violation
from .base import Scenario, outcome, shrink_list, shrink_recording, write_file
from .loads import ULog


# ------------------------------------------------------------------------ stand-in for the absent libevents
class StubEvent:
    def __init__(self, group, message):
        self._group = group
        self._message = message

    def group(self):
        return self._group

    def message(self):
        return self._message


class StubParser:
    """ same calls as libevents' Parser; definitions are loaded one by one, so a failure leaves some behind """

    def __init__(self):
        self.events = {}
        self.profile = None

    def load_definitions(self, definitions):
        if definitions['version'] != 1:
            raise RuntimeError('unsupported version')
        for key, item in definitions['events'].items():
            self.events[int(key)] = (item['group'], item['message'])

    def set_profile(self, profile):
        self.profile = profile

    def parse(self, event_id, arguments):
        if int(event_id) not in self.events or self.profile != 'dev':
            return None
        group, message = self.events[int(event_id)]
        return StubEvent(group, message.replace('{args}', bytes(arguments).hex()))


def install_stub():
    package = types.ModuleType('pyulog.libevents_parse')
    package.__path__ = []
    module = types.ModuleType('pyulog.libevents_parse.parser')
    module.Parser = StubParser
    package.parser = module
    sys.modules['pyulog.libevents_parse'] = package
    sys.modules['pyulog.libevents_parse.parser'] = module


def make_definitions(tag, ids, hidden=()):
    return {'version': 1, 'events': {str(i): {'group': 'arming_check' if i in hidden else 'default',
                                              'message': '%s %d {args}' % (tag, i)} for i in ids}}


def damaged(kind, definitions, rng):
    """ compressed definitions as they may arrive """
    text = json.dumps(definitions).encode()
    data = lzma.compress(text)
    if kind == 'cut':
        return data[:rng.randrange(len(data))]
    if kind == 'flip':
        data = bytearray(data)
        for _ in range(3):
            data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
        try:
            json.loads(lzma.decompress(bytes(data)))
        except Exception:  # pylint: disable=broad-except
            return bytes(data)
        return data[:-5]
    if kind == 'empty':
        return b''
    if kind == 'html':
        return b'<html>moved</html>'
    if kind == 'nojson':
        return lzma.compress(text[:rng.randrange(1, len(text))])
    if kind == 'version':
        return lzma.compress(json.dumps(dict(definitions, version=2)).encode())
    if kind == 'entry':
        # one entry in the middle is not what it should be
        items = list(definitions['events'].items())
        items.insert(rng.randrange(1, len(items) + 1), ('99', {'group': 'default'}))
        return lzma.compress(json.dumps({'version': 1, 'events': dict(items)}).encode())
    if kind == 'list':
        return lzma.compress(b'[1, 2]')
    assert kind == 'nothing'
    return lzma.compress(b'{}')


DAMAGE = ['cut', 'flip', 'empty', 'html', 'nojson', 'version', 'entry', 'entry', 'list', 'nothing']
LEVELS = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']
GARBAGE_KINDS = ['cut', 'flip', 'html', 'nojson', 'version', 'entry', 'entry', 'list', 'empty']


class Network:
    """ urllib's urlopen: the server has the default definitions, the way to it may fail """

    def __init__(self, sim, definitions):
        self.sim = sim
        self.definitions = definitions
        self.requests = 0
        self.failed = 0

    def urlopen(self, url, data=None, timeout=None, **kwargs):  # pylint: disable=unused-argument
        self.requests += 1
        fault = self.sim.point('net', 'connect')
        if fault is not None:
            self.fail(fault, timeout)
        return Response(self, timeout)

    def fail(self, fault, timeout):
        self.failed += 1
        if fault['kind'] == 'dead':
            raise SimKilled()
        if fault['kind'] == 'net_slow':
            if not isinstance(timeout, (int, float)) or not 0 < timeout <= 60:
                raise Violation('no-progress', 'waits for the server without a time limit')
            self.sim.sleep(int(timeout * 1e6))
            raise TimeoutError('timed out')
        if fault['kind'] == 'net_fail' or fault['kind'] in ('net_cut', 'net_garbage'):
            how = fault.get('how', 0) % 4
            if how == 0:
                raise urllib.error.URLError('no route to host')
            if how == 1:
                raise ConnectionResetError(104, 'Connection reset by peer')
            if how == 2:
                raise urllib.error.HTTPError(None, 503, 'busy', None, None)
            raise urllib.error.URLError(TimeoutError('timed out'))


class Response:
    def __init__(self, net, timeout):
        self.net = net
        self.timeout = timeout
        self.status = 200
        self.code = 200
        self.done = False

    def getcode(self):
        return 200

    def read(self, amount=None):
        if self.done:
            return b''
        fault = self.net.sim.point('net', 'receive')
        data = lzma.compress(json.dumps(self.net.definitions).encode())
        if fault is not None:
            rng = random.Random(fault.get('how', 0))
            if fault['kind'] == 'net_cut':
                self.net.failed += 1
                if rng.random() < 0.5:
                    import http.client
                    raise http.client.IncompleteRead(data[:10], 100)
                data = data[:rng.randrange(len(data))]
            elif fault['kind'] == 'net_garbage':
                self.net.failed += 1
                data = damaged(rng.choice(GARBAGE_KINDS), self.net.definitions, rng)
            else:
                self.net.fail(fault, self.timeout)
        if amount is not None and amount >= 0:
            self.data = getattr(self, 'data', data)
            data, self.data = self.data[:amount], self.data[amount:]
            if not self.data:
                self.done = True
            return data
        self.done = True
        return data

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def close(self):
        self.done = True


class Events(Scenario):
    id = 'E01'
    real = ['pyulog.px4_events', 'pyulog.messages', 'pyulog.core.ULog (parser)', 'lzma and json of CPython']
    stub = ['network (urlopen: failing, slow, cutting or corrupting server)',
            'libevents Parser (not installed here: a stand-in with the same calls that loads definitions one by one)',
            'standard output (simulated)', 'flight logger and publishers (simulated)']
    rule = ('a sequence of up to six logs with and without (sound or damaged) embedded definitions read with one reader object, or listed '
            'with ulog_messages, while requests to the server fail, time out, are cut or return damaged content; non-trivial: at least '
            'one request or embedded definition failed and one event was decoded later; distinct by event log and workload')
    assumptions = ['the stand-in for libevents behaves like libevents: a failed load leaves a parser that knows some events',
                   'where definitions are not available the events of that log may be left out or marked as unknown']
    quick_cases = 4000
    thorough_cases = 1000000

    def recording(self, rng, ids):
        def make(rng, begin, count, multi):
            at = begin
            for n in range(count):
                at += rng.choice([0, 1, 1000, 400000, 1000000])
                yield at, struct.pack('<QIH', at, rng.choice(ids), n) + bytes(rng.choice([0, 1, 255]) for _ in range(size)) + \
                    bytes([rng.randrange(11) << 4 | rng.randrange(11)])
        size = rng.choice([1, 3, 25])
        special = []
        if rng.random() < 0.9:
            special = [{'name': 'event', 'make': make, 'min': rng.choice([1, 3, 8]),
                        'fields': [['uint64_t', 0, 'timestamp'], ['uint32_t', 0, 'id'], ['uint16_t', 0, 'event_sequence'],
                                   ['uint8_t', size, 'arguments'], ['uint8_t', 0, 'log_levels']]}]
        rec = R.generate(rng, {'modest': True, 'msgs': 12, 'topics': 1, 'max_fields': 2, 'special': special})
        # one instance of the topic only
        extra = {m[2] for m in rec['data'] if m[0] == 'A' and m[3] == 'event' and m[1] != 0}
        rec['data'] = [m for m in rec['data'] if not (m[0] == 'A' and m[2] in extra or m[0] in 'DR' and m[1] in extra)]
        rec['defs'] = [m for m in rec['defs'] if not (m[0] in 'IM' and any(k in ('sys_name', 'metadata_events', 'metadata_events_sha256')
                                                                           for k in m))]
        if rng.random() < 0.85:
            rec['defs'].append(['I', 'char[3]', 'sys_name', b'PX4'.hex()])
        for m in rec['data']:
            if m[0] == 'L' and rng.random() < 0.3:
                m[3] = rng.choice([b'dup of event\t'] * 5 + [b'', b'\t', b'no dup\t ', b'two\t\t', b'\tlead', b'in\tside']).hex()
            elif m[0] == 'L':
                m[3] = bytes(b if b != 10 else 32 for b in bytes.fromhex(m[3])).hex()
        return rec

    def embed(self, rng, rec, data, sha):
        if sha is not None:
            rec['defs'].append(['I', 'char[%d]' % len(sha), 'metadata_events_sha256', sha.encode().hex()])
        cuts = sorted(rng.randrange(len(data) + 1) for _ in range(rng.choice([0, 1, 3])))
        for n, (a, b) in enumerate(zip([0] + cuts, cuts + [len(data)])):
            rec['defs'].append(['M', 1 if n else 0, 'uint8_t[%d]' % (b - a), 'metadata_events', data[a:b].hex()])

    def plans(self, rng, run, tier):
        ids = rng.sample(range(60), 7) + [rng.choice([0, 60]), 2 ** 31 + 5]
        server = make_definitions('server', ids[:rng.choice([4, 8])], ids[:1])
        logs = []
        for n in range(rng.choice([1, 2, 3, 6])):
            rec = self.recording(rng, ids)
            kind = rng.choice(['none', 'none', 'none', 'good', 'good', 'bad', 'nosha', 'badsha', 'shaonly'])
            log = {'rec': rec, 'kind': kind, 'definitions': None, 'cut': None}
            if kind == 'shaonly':
                rec['defs'].append(['I', 'char[64]', 'metadata_events_sha256', ('%064x' % 17).encode().hex()])
            elif kind != 'none':
                own = make_definitions('log%d' % n, rng.sample(ids, rng.choice([2, 6])), ids[1:2])
                log['definitions'] = own
                data = lzma.compress(json.dumps(own).encode())
                if kind == 'bad':
                    data = damaged(rng.choice(DAMAGE), own, rng)
                self.embed(rng, rec, data, {'nosha': None, 'badsha': rng.choice(['../etc', 'a' * 65, ''])}.get(kind, '%064x' % 17))
            if rng.random() < 0.15:
                raw, _ = R.encode(rec)
                log['cut'] = rng.randrange(len(raw) // 2, len(raw) + 1)
            logs.append(log)
        plan = {'server': server, 'logs': logs, 'mode': rng.choice(['object', 'object', 'callback', 'main'])}
        if plan['mode'] == 'main':
            plan['bufsize'] = rng.choice([16, 64, 8192])
            for log in logs:
                log['ignore'] = rng.random() < 0.4
                if rng.random() < 0.15 and log['rec']['data']:
                    log['broken'] = True
                    log['cut'] = None
                    at = rng.randrange(1, len(log['rec']['data']) + 1)
                    stamps = [m[2] for m in log['rec']['data'][:at] if m[0] == 'L']
                    log['rec']['data'].insert(at, ['L', 54, max(stamps + [log['rec']['start']]), rng.choice([b'bad\xff', b'a\x80\xfeb']).hex()])
        probe = run(plan)
        # while the network fails, more requests follow: the steps shift, so windows of failure instead of single steps
        for _ in range(4):
            faults = [{'step': s + 1, 'kind': rng.choice(['net_fail', 'net_fail', 'net_slow', 'net_cut', 'net_garbage', 'net_garbage']),
                       'how': rng.randrange(1000)} for s in range(rng.choice([0, 0, 1, 2]), probe_limit(rng))]
            if plan['mode'] == 'main':
                # steps are shared with the files: faults wait for the next request
                faults = faults[:rng.randrange(1, len(logs) + 1)]
                if rng.random() < 0.4:
                    places = [s for s, op, _, d in probe.ops if op == 'write' and d.startswith('stdout')]
                    if places:
                        faults.append({'step': rng.choice(places), 'kind': rng.choice(['eio_write', 'enospc', 'short_write'])})
            yield dict(plan, faults=faults)

    def shrink(self, plan):
        for logs in shrink_list(plan['logs']):
            if logs:
                yield dict(plan, logs=logs)
        for i, log in enumerate(plan['logs']):
            if log['cut'] is not None:
                yield dict(plan, logs=plan['logs'][:i] + [dict(log, cut=None)] + plan['logs'][i + 1:])
            for rec in shrink_recording(log['rec']):
                if log['kind'] == 'none' or sum(m[0] == 'M' for m in rec['defs']) == sum(m[0] == 'M' for m in log['rec']['defs']):
                    yield dict(plan, logs=plan['logs'][:i] + [dict(log, rec=rec)] + plan['logs'][i + 1:])

    # -- the model
    @staticmethod
    def raw_events(content):
        """ [(time, level, id, argument bytes)] of the events meant for the user """
        topic = content['topics'].get('event/0')
        out = []
        if topic is None or 'id' not in topic['cols']:
            return out
        cols = {n: struct.unpack('<%d%s' % (topic['n'], R.CODE[t]), bytes.fromhex(topic['cols'][n])) for n, t in topic['fields']}
        size = sum(1 for n, _ in topic['fields'] if n.startswith('arguments['))
        for i in range(topic['n']):
            level = cols['log_levels'][i] >> 4
            if level < 8:
                out.append((cols['timestamp'][i], LEVELS[level], cols['id'][i], bytes(cols['arguments[%d]' % k][i] for k in range(size))))
        return out

    @staticmethod
    def decoded(events, definitions):
        out = []
        for t, level, ident, args in events:
            item = definitions['events'].get(str(ident)) if definitions else None
            if item is None:
                out.append((t, level, '[Unknown event with ID %d]' % ident))
            elif item['group'] == 'default':
                out.append((t, level, item['message'].replace('{args}', args.hex())))
        return out

    def execute(self, plan, env):
        from pyulog import messages, px4_events
        sim = env.new_sim(plan)
        net = Network(sim, plan['server'])
        world = None
        if plan['mode'] == 'main':
            world = simio.FileWorld(sim, env.root, bufsize=plan.get('bufsize'))
            simio.attach(world)
        saved = urllib.request.urlopen
        urllib.request.urlopen = net.urlopen
        try:
            sim.run_inline(lambda: self.sequence(plan, env, sim, net, world, px4_events, messages))
        finally:
            urllib.request.urlopen = saved
        if sim.stuck:
            raise Violation('no-progress', '')

    def sequence(self, plan, env, sim, net, world, px4_events, messages):
        reader = px4_events.PX4Events()
        has_default = False
        calls = []

        def callback(already):
            calls.append(already)
            if already:
                return None
            fault = sim.point('net', 'callback')
            if fault is None:
                return json.loads(json.dumps(plan['server']))
            net.failed += 1
            rng = random.Random(fault.get('how', 0))
            if fault['kind'] == 'net_garbage':
                bad = lzma.decompress(damaged(rng.choice(['entry', 'version', 'list', 'nothing']), plan['server'], rng))
                return json.loads(bad)
            if fault['kind'] == 'net_cut':
                return None
            raise OSError('offline')
        if plan['mode'] == 'callback':
            reader.set_default_json_definitions_cb(callback)
        trouble = decoded_later = False
        for n, log in enumerate(plan['logs']):
            raw, _ = R.encode(log['rec'])
            if log['cut'] is not None:
                raw = raw[:max(16, min(log['cut'], len(raw)))]
            path = os.path.join(env.root, 'log%d.ulg' % n)
            write_file(path, raw)
            sim.active = False
            ulog = ULog(path)
            content = self.view(ulog)
            sim.active = True
            events = self.raw_events(content)
            any_events = content['topics'].get('event/0', {}).get('n', 0) > 0
            failed, requests = net.failed, net.requests
            usable = log['kind'] == 'good' and 'metadata_events' in content['multi'] and 'metadata_events_sha256' in content['info'] \
                and self.whole(content, log)
            embedded = log['kind'] in ('good', 'bad') and 'metadata_events' in content['multi'] and \
                'metadata_events_sha256' in content['info']
            if plan['mode'] == 'main':
                has_default = False
                self.listing(plan, sim, net, world, messages, path, content, events, log, embedded, usable, failed)
                if net.failed == failed and any(e for e in events) and n:
                    decoded_later = trouble or decoded_later
                trouble = trouble or net.failed > failed
                continue
            got = outcome(reader.get_logged_events, ulog)
            if got[0] == 'error':
                raise Violation('fails', 'log %d: %s: %s' % (n, got[1], got[2]))
            got = [(int(t), str(level), str(text)) for t, level, text in got[1]]
            sim.log('events', len(got))
            unknown = self.decoded(events, None)
            ok_now = net.failed == failed
            if usable:
                allowed = [self.decoded(events, log['definitions'])]
                if net.requests > requests or calls:
                    raise Violation('needless-request', 'log %d has definitions' % n)
            elif embedded:
                allowed = [[], unknown]
                if has_default or net.requests > requests or calls:
                    allowed.append(self.decoded(events, plan['server']))     # falling back is fine
            elif has_default or ok_now and events:
                allowed = [self.decoded(events, plan['server'])]
            else:
                allowed = [[], unknown]
            if got not in allowed:
                raise Violation('events', 'log %d: expected %s, got %s' % (n, allowed[-1], got))
            if has_default and net.requests > requests:
                raise Violation('fetched-again', 'log %d' % n)
            if plan['mode'] == 'callback' and net.requests > requests:
                raise Violation('needless-request', 'log %d: the caller provides the definitions' % n)
            if calls and calls[0] != has_default:
                raise Violation('callback-argument', 'log %d: called with %r' % (n, calls[0]))
            if trouble and got:
                decoded_later = True
            if not embedded and any_events and ok_now:
                has_default = True
            trouble = trouble or not ok_now or (embedded and not usable)
            del calls[:]
        env.nontrivial = trouble and decoded_later

    @staticmethod
    def view(ulog):
        from .base import canon
        return canon(ulog)

    @staticmethod
    def whole(content, log):
        """ are the embedded definitions completely in the (possibly cut) log? """
        parts = content['multi']['metadata_events'][0]
        try:
            return json.loads(lzma.decompress(b''.join(bytes.fromhex(p[1]) for p in parts))) == log['definitions']
        except Exception:  # pylint: disable=broad-except
            return False

    def listing(self, plan, sim, net, world, messages, path, content, events, log, embedded, usable, failed):
        saved = sys.argv
        sys.argv = ['ulog_messages', path] + (['-i'] if log.get('ignore') else [])
        before = dict(sim.fired)
        try:
            with simio.Stdout(world) as stdout:
                try:
                    result = outcome(messages.main)
                except SystemExit as exc:
                    result = ('error', 'SystemExit', str(exc.code))
                flushed = outcome(stdout.finish)
                if result[0] == 'ok':
                    result = flushed
                text = stdout.text()
        except (SimKilled, SimStuck):
            raise
        finally:
            sys.argv = saved
        if log.get('broken') and not log.get('ignore') and any(m[0] == 'L' and m[3] in ('626164ff', '6180fe62') for m in log['rec']['data']):
            if result[0] == 'ok':
                raise Violation('broken-text-accepted', '')
            if result[1] == 'UnicodeDecodeError':
                return
        if result[0] == 'error':
            if any(sim.fired.get(k, 0) > before.get(k, 0) for k in ('eio_write', 'enospc')):
                return
            raise Violation('fails', '%s: %s' % result[1:])
        px4 = content['info'].get('sys_name') == ['s', 'PX4']
        texts = [(t, self.level_name(level), body) for level, t, body in content['text'] if not (px4 and body.endswith('\t'))]
        unknown = self.decoded(events, None)
        if not px4:
            allowed = [[]]
        elif usable:
            allowed = [self.decoded(events, log['definitions'])]
        elif embedded:
            allowed = [[], unknown, self.decoded(events, plan['server'])]
        elif net.failed == failed:
            allowed = [self.decoded(events, plan['server'])]
        else:
            allowed = [[], unknown]
        have = text.split('\n')
        if have[-1] != '':
            raise Violation('incomplete', have[-1])
        have = [line for line in have[:-1] if not line.startswith('Failed to get event parser')]
        wanted = []
        for shown in allowed:
            groups = {}
            for which, entries in enumerate((shown, texts)):
                for t, level, body in entries:
                    groups.setdefault(t, ([], []))[which].append('%d:%02d:%02d %s: %s' % (
                        t // 10 ** 6 // 3600, t // 10 ** 6 // 60 % 60, t // 10 ** 6 % 60, level, body))
            wanted.append([groups[t] for t in sorted(groups)])
        if not any(self.matches(have, groups) for groups in wanted):
            raise Violation('listing', 'expected %s, got %s' % (wanted[-1], have))

    @staticmethod
    def matches(have, groups):
        """ in order of time; of equal times the events in their order and the texts in theirs, interleaved anyhow """
        pos = 0
        for events, texts in groups:
            part = have[pos:pos + len(events) + len(texts)]
            taken = {0}         # numbers of events that the lines so far can consist of
            for n, line in enumerate(part):
                taken = {e + 1 for e in taken if e < len(events) and events[e] == line} | \
                    {e for e in taken if n - e < len(texts) and texts[n - e] == line}
            if len(part) != len(events) + len(texts) or len(events) not in taken:
                return False
            pos += len(part)
        return pos == len(have)

    @staticmethod
    def level_name(level):
        return LEVELS[level - ord('0')] if ord('0') <= level <= ord('7') else 'UNKNOWN'


def probe_limit(rng):
    return rng.choice([1, 2, 3, 6])


install_stub()
