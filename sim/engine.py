"""
Running plans, searching over seeds, shrinking, replay files, evidence.

A scenario (one per property) is a module-level object with
  id, title, rule (what counts as non-trivial), components (real / stub)
  cases(tier) -> number of cases           a case: one workload and several runs of it
  plans(rng, run) -> generator of plans    `run(plan)` executes a plan and returns its Result, so that
                                           the generator can place faults relative to a fault-free run
  execute(plan, env)                       one run; raises Violation
  shrink(plan) -> iterator of smaller plans (optional)
Every case derives from (VERIF_SEED, property, case number) only.
"""
import gc
import hashlib
import json
import multiprocessing
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import core, simio

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYULOG_REPO', '/repo')
SCRATCH = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
HANG_S = 60


class Result:
    __slots__ = ('violation', 'detail', 'digest', 'steps', 'simtime', 'fired', 'probes', 'ops', 'trace',
                 'switches', 'nontrivial', 'states', 'info')


class Env:
    """ what a scenario may use during one run """

    def __init__(self, root, keep_trace):
        self.root = root
        self.keep_trace = keep_trace
        self.sim = None
        self.nontrivial = False
        self.states = []
        self.info = {}

    def new_sim(self, plan, **kwargs):
        self.sim = core.Sim(preempt=plan.get('preempt', ()), faults=plan.get('faults', ()),
                            keep_trace=self.keep_trace, **kwargs)
        work = json.dumps({k: v for k, v in plan.items() if k not in ('preempt', 'faults')}, sort_keys=True)
        self.sim.log('WORKLOAD', hashlib.blake2b(work.encode(), digest_size=8).hexdigest())
        return self.sim


_WORKER = {}


def setup_worker():
    """ once per process that executes plans """
    if _WORKER:
        return
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    simio.install()
    root = tempfile.mkdtemp(prefix='pyulog-sim-', dir=SCRATCH)
    _WORKER['root'] = root
    import numpy
    numpy.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    import pyulog
    where = os.path.realpath(os.path.dirname(pyulog.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'pyulog')):
        raise core.HarnessError('pyulog imported from %s' % where)
    sys.unraisablehook = lambda *_: None
    gc.collect()
    gc.freeze()
    gc.disable()


def cleanup_worker():
    if _WORKER:
        shutil.rmtree(_WORKER['root'], ignore_errors=True)


def run_plan(scenario, plan, keep_trace=False):
    setup_worker()
    root = os.path.join(_WORKER['root'], 'run')
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    env = Env(root, keep_trace)
    res = Result()
    res.violation = None
    res.detail = ''
    try:
        scenario.execute(plan, env)
        scenario.finish(plan, env)
        if env.sim is not None and env.sim.stuck:
            raise core.Violation('no-progress', 'step budget used up')
    except core.Violation as exc:
        res.violation, res.detail = exc.kind, exc.detail
        del exc
    except core.SimStuck:
        res.violation, res.detail = 'no-progress', 'the code under test does not come to an end'
    except core.SimKilled as exc:
        raise core.HarnessError('SimKilled escaped') from exc
    except (core.HarnessError, KeyboardInterrupt):
        raise
    except Exception as exc:  # pylint: disable=broad-except
        # an error that comes out of the code under test where the scenario expects none,
        # or that the scenario runs into when it looks at a result of an unexpected kind
        frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(exc.__traceback__)]
        inside = os.path.realpath(os.path.join(REPO, 'pyulog'))
        looking = os.path.realpath(os.path.join(VERIF, 'sim', 'scenarios')), os.path.realpath(os.path.join(VERIF, 'sim', 'content.py'))
        if any(f.startswith(inside) for f in frames):
            res.violation = 'unexpected-' + type(exc).__name__
        elif isinstance(exc, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)) and \
                [f for f in frames if f.startswith(os.path.realpath(VERIF))][-1].startswith(looking):
            res.violation = 'unusable-result-' + type(exc).__name__
        else:
            raise
        res.detail = ''.join(traceback.format_exception(exc)[-3:])
        del exc
    finally:
        simio.attach(None)
    from . import vfs
    if vfs._INSTANCE is not None:  # pylint: disable=protected-access
        vfs._INSTANCE.check()  # pylint: disable=protected-access
    sim = env.sim
    if sim is not None and sim.stuck and res.violation is None:
        res.violation, res.detail = 'no-progress', 'step budget used up'
    res.digest = sim.digest.hexdigest() if sim else ''
    res.steps = sim.step if sim else 0
    res.simtime = sim.now if sim else 0
    res.fired = sim.fired if sim else {}
    res.probes = sim.probes if sim else {}
    res.ops = sim.ops if sim else []
    res.trace = sim.trace if sim else None
    res.switches = sim.switches if sim else 0
    res.nontrivial = env.nontrivial
    res.states = env.states
    res.info = env.info
    env.sim = None
    _WORKER['runs'] = _WORKER.get('runs', 0) + 1
    if _WORKER['runs'] % 20 == 0:
        gc.collect()
    return res


def case_rng(seed, scenario, case):
    key = '%s/%s/%d' % (seed, scenario.id, case)
    return random.Random(int.from_bytes(hashlib.blake2b(key.encode(), digest_size=8).digest(), 'big'))


def run_case(scenario, seed, tier, case, announce=None, stop_at=None):
    """ all runs of one case; returns a JSON-able summary """
    rng = case_rng(seed, scenario, case)
    out = {'case': case, 'runs': 0, 'digests': [], 'nontrivial': [], 'fired': {}, 'probes': {}, 'steps': 0,
           'simtime': 0, 'switches': 0, 'violation': None, 'sample': None, 'states': [], 'slowest': 0}
    faults_samples = []

    class Found(Exception):
        pass

    def run(plan):
        if announce:
            announce(plan)
        began = time.monotonic()
        res = run_plan(scenario, plan)
        out['slowest'] = max(out['slowest'], round(time.monotonic() - began, 2))
        index = out['runs']
        out['runs'] += 1
        out['digests'].append(res.digest)
        if res.nontrivial:
            out['nontrivial'].append(res.digest)
        for key, n in res.fired.items():
            out['fired'][key] = out['fired'].get(key, 0) + n
        for key, n in res.probes.items():
            out['probes'][key] = out['probes'].get(key, 0) + n
        out['steps'] += res.steps
        out['simtime'] += res.simtime
        out['switches'] += res.switches
        out['states'].extend(res.states)
        if res.nontrivial and len(faults_samples) < 2:
            faults_samples.append({'case': case, 'run': index, 'faults': plan.get('faults', []),
                                   'preempt': plan.get('preempt', [])[:8],
                                   'workload': brief(plan), 'log_digest': res.digest,
                                   'steps': res.steps})
        if res.violation is not None:
            out['violation'] = {'kind': res.violation, 'detail': res.detail, 'plan': plan, 'run': index}
            raise Found()
        if stop_at is not None and index >= stop_at:
            raise Found()
        return res
    gen = scenario.all_plans(rng, run, tier)
    try:
        for plan in gen:
            run(plan)
    except Found:
        pass
    finally:
        gen.close()
    if faults_samples:
        out['sample'] = faults_samples[-1]
    out['states'] = sorted(set(out['states']))[:200]
    return out


def brief(plan):
    text = json.dumps({k: v for k, v in plan.items() if k not in ('faults', 'preempt')})
    return text if len(text) < 700 else text[:600] + '...(%d bytes)' % len(text)


# ---------------------------------------------------------------------------------------- worker pool
def _worker_main(scenario_id, seed, tier, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        from .scenarios import get
        scenario = get(scenario_id)
        setup_worker()
        while True:
            case = conn.recv()
            if case is None:
                break
            try:
                out = run_case(scenario, seed, tier, case)
            except BaseException:  # pylint: disable=broad-except
                out = {'case': case, 'error': traceback.format_exc()}
            conn.send(out)
    except (EOFError, BrokenPipeError):
        pass
    except BaseException:  # pylint: disable=broad-except
        try:
            conn.send({'case': -1, 'error': traceback.format_exc()})
        except OSError:
            pass
    cleanup_worker()
    os._exit(0)  # pylint: disable=protected-access


def search(scenario, seed, tier, workers, budget_s, cases, results):
    """ runs every case that 'results' does not hold yet, and adds what it found there
    -> (first violation or None, hang case or None, error or None) """
    ctx = multiprocessing.get_context('fork')
    procs = {}
    started = time.monotonic()

    def start():
        ours, theirs = ctx.Pipe()
        proc = ctx.Process(target=_worker_main, args=(scenario.id, seed, tier, theirs), daemon=True)
        proc.start()
        theirs.close()
        procs[ours.fileno()] = [ours, proc, None, 0.0]
        return ours.fileno()
    for _ in range(workers):
        start()
    todo = [c for c in range(cases) if c not in results]
    nxt = 0
    bad = None              # lowest case with a violation so far
    hang = None
    error = None
    case_limit = HANG_S + scenario.case_seconds
    try:
        def feed(fd):
            nonlocal nxt
            slot = procs[fd]
            if nxt < len(todo) and (bad is None or todo[nxt] < bad) and \
                    time.monotonic() - started < budget_s and error is None and hang is None:
                slot[2] = todo[nxt]
                slot[3] = time.monotonic()
                slot[0].send(todo[nxt])
                nxt += 1
            else:
                slot[2] = None
        for fd in list(procs):
            feed(fd)
        while any(s[2] is not None for s in procs.values()):
            ready, _, _ = select.select([s[0] for s in procs.values()], [], [], 1.0)
            for conn in ready:
                fd = conn.fileno()
                try:
                    out = conn.recv()
                except EOFError:
                    error = 'a worker process died in case %s (exit code %s)' % (
                        procs[fd][2], procs[fd][1].exitcode)
                    procs[fd][2] = None
                    procs.pop(fd)
                    break
                if 'error' in out:
                    error = 'case %s: %s' % (out['case'], out['error'])
                    procs[fd][2] = None
                    continue
                results[out['case']] = out
                if out['violation'] and (bad is None or out['case'] < bad):
                    bad = out['case']
                feed(fd)
            now = time.monotonic()
            for slot in procs.values():
                if slot[2] is not None and now - slot[3] > case_limit:
                    hang = slot[2]
                    slot[1].kill()
                    slot[2] = None
            if error:
                break
            if hang is not None:
                break
    finally:
        for slot in procs.values():
            try:
                if slot[2] is None and error is None and hang is None:
                    slot[0].send(None)
                else:
                    slot[1].kill()
            except OSError:
                pass
        for slot in procs.values():
            slot[1].join(5)
            if slot[1].is_alive():
                slot[1].kill()
                slot[1].join()
    violation = results[bad]['violation'] if bad is not None else None
    if violation:
        violation['case'] = bad
    return violation, hang, error


# -------------------------------------------------------------------------------------------- shrinking
def child(args, timeout):
    """ run this program again in a fresh process """
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    cmd = [sys.executable, os.path.join(VERIF, 'run.py')] + args
    try:
        proc = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                              check=False)
    except subprocess.TimeoutExpired:
        return None, ''
    return proc.returncode, proc.stdout.decode('utf-8', 'replace')


def shrink_plan(scenario, plan, kind, budget_s):
    """ greedy: take the first smaller plan with the same kind of violation, repeat """
    deadline = time.monotonic() + budget_s
    tries = 0
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        for smaller in candidates(scenario, plan):
            if time.monotonic() > deadline:
                break
            tries += 1
            try:
                res = run_plan(scenario, smaller)
            except core.HarnessError:
                continue
            except Exception:  # pylint: disable=broad-except
                continue        # a malformed candidate, not a finding
            if res.violation == kind:
                plan = smaller
                improved = True
                break
    return plan, tries


def candidates(scenario, plan):
    for key in ('faults', 'preempt'):
        items = plan.get(key, [])
        size = len(items)
        while size:
            for i in range(0, len(items), size):
                yield dict(plan, **{key: items[:i] + items[i + size:]})
            size //= 2
    if hasattr(scenario, 'shrink'):
        for cand in scenario.shrink(plan):
            yield cand
            # the fault may now sit at another step: look for it nearby
            faults = cand.get('faults', [])
            if len(faults) == 1 and 'step' in faults[0]:
                step = faults[0]['step']
                for pos in sorted(set([step - 1, step - 2, step - 4, step - 8, step // 2, step * 3 // 4,
                                       step * 7 // 8])):
                    if pos > 0:
                        yield dict(cand, faults=[dict(faults[0], step=pos)])


def shrink_list(items):
    """ sublists of items: halves, quarters, ..., single elements removed """
    size = len(items) // 2
    while size >= 1:
        for i in range(0, len(items), size):
            yield items[:i] + items[i + size:]
        size //= 2


# ------------------------------------------------------------------------------------------------ main
def replay_path(scenario, plan, kind):
    name = hashlib.blake2b(json.dumps([plan, kind], sort_keys=True).encode(), digest_size=6).hexdigest()
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    return os.path.join(folder, '%s-%s.json' % (scenario.id, name))


def write_replay(scenario, plan, kind, detail, extra, trace):
    path = replay_path(scenario, plan, kind)
    with open(path, 'w', encoding='utf-8') as out:
        json.dump(dict({'property': scenario.id, 'kind': kind, 'detail': detail, 'plan': plan, 'trace': trace},
                       **extra), out, indent=1)
    return path


def do_replay(scenario, path):
    """ exit code 1 if the violation of the file happens again """
    with open(path, encoding='utf-8') as inp:
        rep = json.load(inp)
    setup_worker()
    with simio.Stdout():
        if rep.get('case_replay'):
            spec = rep['case_replay']
            out = run_case(scenario, spec['seed'], spec['tier'], spec['case'])
            found = out['violation']
            kind, detail, digest = (found['kind'], found['detail'], '') if found else (None, '', '')
        else:
            res = run_plan(scenario, rep['plan'], keep_trace=True)
            kind, detail, digest = res.violation, res.detail, res.digest
    cleanup_worker()
    print('replay of %s: violation=%s digest=%s' % (path, kind, digest))
    if kind is None:
        return 0
    print(detail)
    if kind != rep['kind']:
        print('(recorded: %s)' % rep['kind'])
    return 1


def known_findings(scenario):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path, encoding='utf-8') as inp:
        data = json.load(inp)
    return [f for f in data['findings'] if f['property'] == scenario.id]


def main_check(scenario, seed, tier, workers=None):
    started = time.monotonic()
    workers = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    cases = scenario.cases(tier)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    cases = max(1, int(cases * scale))
    budget = float(os.environ.get('VERIF_BUDGET_S', '300' if tier == 'quick' else '780'))
    results, slow = {}, []
    while True:
        violation, hang, error = search(scenario, seed, tier, workers, budget - (time.monotonic() - started),
                                        cases, results)
        if error:
            print('HARNESS-ERROR %s' % error, file=sys.stderr)
            return 2
        if hang is None or violation:
            break
        violation = resolve_hang(scenario, seed, tier, hang)
        if violation:
            break
        # a busy machine: the case ends when it runs alone. It is left out, and the search goes on
        slow.append(hang)
        results[hang] = None
    results = {c: out for c, out in results.items() if out is not None}
    done = [results[c] for c in sorted(results) if not violation or c <= violation['case']]
    wall_search = time.monotonic() - started
    code = 0
    if violation:
        code = 1
        path = report(scenario, seed, tier, violation)
    write_evidence(scenario, seed, tier, done, violation, wall_search, time.monotonic() - started, workers, cases,
                   slow)
    if violation:
        print('%s: %s' % (violation['kind'], violation['detail'][:1500]))
        print('seed=%s case=%s run=%s' % (seed, violation.get('case'), violation.get('run')))
        print('VIOLATION property=%s replay=%s' % (scenario.id, path))
    else:
        for line in finding_lines(scenario):
            print(line)
        total = sum(o['runs'] for o in done)
        print('%s: held in %d simulated runs (%d cases, seed %s, %.1f s)' %
              (scenario.id, total, len(done), seed, time.monotonic() - started))
    return code


def finding_lines(scenario):
    """ every listed finding is demonstrated again, in a fresh process """
    lines = []
    if known_findings(scenario):
        code, text = child([scenario.id, '--findings'], 120)
        if code == 0:
            lines = [l for l in text.splitlines() if l.startswith('KNOWN-FINDING:')]
    return lines


def resolve_hang(scenario, seed, tier, case):
    """ find the run of the case that does not end (fresh process, each run announced in a file) """
    fd, note = tempfile.mkstemp(prefix='pyulog-sim-note-', dir=SCRATCH)
    os.close(fd)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    proc = subprocess.Popen([sys.executable, os.path.join(VERIF, 'run.py'), scenario.id, '--tier', tier,
                             '--seed', str(seed), '--case', str(case), '--announce', note],
                            env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    last, since = None, time.monotonic()
    try:
        while proc.poll() is None:
            time.sleep(0.5)
            with open(note, encoding='utf-8') as inp:
                text = inp.read()
            if text != last:
                last, since = text, time.monotonic()
            if time.monotonic() - since > HANG_S and last:
                proc.kill()
                proc.wait()
                try:
                    plan = json.loads(last)
                except ValueError:
                    return None
                return {'kind': 'hang', 'detail': 'a run does not end within %d s without any intercepted '
                        'operation limit being reached' % HANG_S, 'plan': plan, 'case': case, 'run': None}
    finally:
        if proc.poll() is None:
            proc.kill()
        os.unlink(note)
    return None


def report(scenario, seed, tier, violation):
    """ shrink in a fresh process, verify the replay in another one; returns the path of the replay file """
    extra = {'seed': seed, 'case': violation.get('case'), 'tier': tier}
    path = write_replay(scenario, violation['plan'], violation['kind'], violation['detail'], extra, None)
    if violation['kind'] == 'hang':
        return path
    code, text = child([scenario.id, '--shrink', path], 150)
    if code == 0 and text.strip():
        smaller = text.strip().splitlines()[-1]
        if os.path.exists(smaller):
            code, _ = child([scenario.id, '--replay', smaller], 120)
            if code == 1:
                return smaller
    code, _ = child([scenario.id, '--replay', path], 120)
    if code == 1:
        return path
    # depends on what ran before in the same process: replay the whole case
    extra['case_replay'] = {'seed': seed, 'tier': tier, 'case': violation['case']}
    return write_replay(scenario, violation['plan'], violation['kind'], violation['detail'], extra, None)


def do_shrink(scenario, path):
    with open(path, encoding='utf-8') as inp:
        rep = json.load(inp)
    setup_worker()
    with simio.Stdout():
        plan, tries = rep['plan'], 0
        res = run_plan(scenario, plan)
        if res.violation != rep['kind']:
            cleanup_worker()
            return 3
        plan, tries = shrink_plan(scenario, plan, rep['kind'], 40)
        res = run_plan(scenario, plan, keep_trace=True)
    cleanup_worker()
    extra = {k: rep[k] for k in ('seed', 'case', 'tier') if k in rep}
    extra['shrink_runs'] = tries
    extra['digest'] = res.digest
    print(write_replay(scenario, plan, res.violation, res.detail, extra, (res.trace or [])[-400:]))
    return 0


def write_evidence(scenario, seed, tier, done, violation, wall_search, wall, workers, cases, slow):
    runs = sum(o['runs'] for o in done)
    digests, nontrivial, states = set(), set(), set()
    fired, probes = {}, {}
    for out in done:
        digests.update(out['digests'])
        nontrivial.update(out['nontrivial'])
        states.update(out['states'])
        for key, n in out['fired'].items():
            fired[key] = fired.get(key, 0) + n
        for key, n in out['probes'].items():
            probes[key] = probes.get(key, 0) + n
    samples = [o['sample'] for o in done if o['sample']][:3]
    coverage = {
        'evaluations': runs,
        'distinct_nontrivial': len(nontrivial),
        'rule': scenario.rule,
        'samples': samples,
        'cases': len(done),
        'cases_planned': cases,
        'distinct_event_logs': len(digests),
        'faults_injected': dict(sorted(fired.items())),
        'rare_conditions_reached': dict(sorted(probes.items())),
        'intercepted_operations': sum(o['steps'] for o in done),
        'context_switches': sum(o['switches'] for o in done),
        'simulated_seconds': round(sum(o['simtime'] for o in done) / 1e6, 3),
        'runs_per_hour': int(runs * 3600 / max(wall_search, 0.001)),
        'seeds_per_hour': int(len(done) * 3600 / max(wall_search, 0.001)),
        'workers': workers,
        'cases_left_out_for_time': slow,
        'slowest_run_s': max([o['slowest'] for o in done] or [0]),
        'real_components': scenario.real,
        'stub_components': scenario.stub,
    }
    if states:
        coverage['distinct_states'] = len(states)
        coverage['state_measure'] = scenario.state_measure
    data = {'property': scenario.id, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
            'coverage': coverage, 'assumptions': scenario.assumptions, 'wall_s': round(wall, 2),
            'violations': 1 if violation else 0}
    folder = os.path.join(VERIF, 'evidence')
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, scenario.id + '.json'), 'w', encoding='utf-8') as out:
        json.dump(data, out, indent=1)
