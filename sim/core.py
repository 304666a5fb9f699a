"""
Core of the simulator: violations, the cooperative scheduler, simulated time, the event log.

One Sim object is one run.  It executes a *plan* (plain JSON data) and draws no random numbers of its
own: which task runs next, which operation fails and how, is looked up in the plan by the global step
number.  Tasks are real threads, but exactly one of them is ever released; the hand-over happens only
inside point()/sleep(), which the seams (SQLite VFS, file objects) call.
"""
import hashlib
import threading


class Violation(BaseException):
    """
    The property does not hold.  kind: stable class of the violation (used while shrinking).
    Not an Exception: the code under test must not be able to handle it.
    """

    def __init__(self, kind, detail=''):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class HarnessError(BaseException):
    """The machinery itself is broken: never reported as a violation."""


class SimKilled(BaseException):
    """Unwinds a simulated process that has been killed."""


class SimStuck(BaseException):
    """Unwinds a run that used up its step budget (the code under test does not terminate)."""


class Task:
    def __init__(self, index, name, fn):
        self.index = index
        self.name = name
        self.fn = fn
        self.gate = threading.Semaphore(0)
        self.wake_at = None      # simulated time until which the task sleeps
        self.done = False
        self.dead = False        # its process has been killed
        self.found = None
        self.error = None        # exception of the harness, not of the code under test
        self.thread = None
        self.busy_slept = 0


class Sim:
    STEP_US = 7                  # simulated cost of one intercepted operation

    def __init__(self, preempt=(), faults=(), max_steps=400000, keep_trace=False):
        self.step = 0
        self.now = 0             # simulated microseconds
        self.preempt = {}
        for step, choice in preempt:
            self.preempt.setdefault(int(step), int(choice))
        self.faults = {}         # step -> fault dict (global step numbers)
        for fault in faults:
            if 'step' in fault:
                self.faults.setdefault(int(fault['step']), fault)
        self.pending = []        # faults whose step has passed and that wait for a fitting operation
        self.tasks = []
        self.current = None
        self.active = False      # scheduling and fault injection on?
        self.max_steps = max_steps
        self.max_quiet = 4 * max_steps
        self.stuck = False
        self.fired = {}          # fault kind -> how often it took effect
        self.probes = {}         # rare condition -> how often it was reached
        self.switches = 0
        self.digest = hashlib.blake2b(digest_size=12)
        self.trace = [] if keep_trace else None
        self.power_lost = False
        self.on_power_loss = None
        self.on_kill = None
        self.observers = []      # called after every point while active: invariants during the run
        self.ops = []            # (step, op, task name, detail) of every intercepted operation
        self.quiet_ops = 0       # operations outside of simulated execution (set-up, checks)
        self._finished = threading.Semaphore(0)

    # -- event log ---------------------------------------------------------------------------------
    def log(self, *what):
        line = ' '.join(str(w) for w in what)
        who = self.current.name if self.current is not None else '-'
        text = '%d t=%d %s %s' % (self.step, self.now, who, line)
        self.digest.update(text.encode() + b'\n')
        if self.trace is not None:
            self.trace.append(text)

    def probe(self, name, count=1):
        self.probes[name] = self.probes.get(name, 0) + count

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.log('FAULT', kind)

    # -- scheduling --------------------------------------------------------------------------------
    def spawn(self, name, fn):
        task = Task(len(self.tasks), name, fn)
        self.tasks.append(task)
        return task

    def _body(self, task):
        task.gate.acquire()
        try:
            task.fn()
        except SimKilled:
            pass
        except SimStuck:
            self.stuck = True
        except Violation as exc:
            task.found = exc
        except BaseException as exc:  # pylint: disable=broad-except
            import traceback
            task.error = '%r\n%s' % (exc, traceback.format_exc())
            del exc
        task.done = True
        self._leave(task)

    def _ready(self, exclude=None):
        return [t for t in self.tasks
                if not t.done and t is not exclude and (t.wake_at is None or t.wake_at <= self.now)]

    def _pick_after(self, task):
        """ who runs when `task` cannot: next ready one in cyclic order; jumps the clock if needed """
        while True:
            ready = [t for t in self.tasks
                     if not t.done and (t.wake_at is None or t.wake_at <= self.now)]
            if ready:
                ready.sort(key=lambda t: ((t.index - task.index - 1) % len(self.tasks)))
                return ready[0]
            sleeping = [t for t in self.tasks if not t.done]
            if not sleeping:
                return None
            self.now = min(t.wake_at for t in sleeping)

    def _handover(self, nxt):
        nxt.wake_at = None
        self.current = nxt
        self.switches += 1
        nxt.gate.release()

    def _leave(self, task):
        nxt = self._pick_after(task)
        if nxt is None:
            self.current = None
            self._finished.release()
        else:
            self._handover(nxt)

    def run(self):
        """ run all spawned tasks to the end """
        tasks = [t for t in self.tasks if not t.done]
        if not tasks:
            return
        for task in tasks:
            task.thread = threading.Thread(target=self._body, args=(task,), daemon=True)
            task.thread.start()
        self.active = True
        self.current = tasks[0]
        tasks[0].gate.release()
        self._finished.acquire()
        self.active = False
        for task in tasks:
            task.thread.join()
        self.tasks = []
        for task in tasks:
            if task.found is not None:
                raise task.found
            if task.error:
                raise HarnessError('task %s: %s' % (task.name, task.error))

    def run_inline(self, fn, name='main'):
        """ run one function as the only task, in the calling thread (no other tasks) """
        task = Task(0, name, fn)
        self.tasks = [task]
        self.current = task
        self.active = True
        try:
            return fn()
        finally:
            self.active = False
            self.current = None
            self.tasks = []

    # -- called by the seams -----------------------------------------------------------------------
    def point(self, op, detail=''):
        """
        One intercepted operation of the current task.  Returns the fault to inject, or None.
        op: 'open' 'read' 'write' 'sync' 'trunc' 'delete' 'lock' 'unlock' 'close' 'net' 'line'
        """
        if not self.active:
            self.quiet_ops += 1
            if self.quiet_ops > self.max_quiet:
                self.stuck = True
                raise SimStuck()
            return None
        task = self.current
        if task.dead:
            return {'kind': 'dead'}
        self.step += 1
        self.now += self.STEP_US
        if self.step > self.max_steps:
            self.stuck = True
            raise SimStuck()
        self.log(op, detail)
        self.ops.append((self.step, op, task.name, detail))
        for obs in self.observers:
            obs(op, detail)
        # preemption first: the operation itself happens when the task is scheduled again
        if self.step in self.preempt:
            others = self._ready(exclude=task)
            if others:
                choice = others[self.preempt[self.step] % len(others)]
                self.log('PREEMPT to', choice.name)
                self._handover(choice)
                task.gate.acquire()
                if task.dead:
                    return {'kind': 'dead'}
        fault = self.faults.get(self.step)
        if fault is not None:
            self.pending.append(fault)
        for i, fault in enumerate(self.pending):
            if self._fits(fault, op, task):
                del self.pending[i]
                return self._apply(fault, op, task)
        return None

    FITS = {
        'kill': None, 'power': None, 'stall': None,      # fit every operation
        'eio_read': ('read',), 'eio_write': ('write', 'trunc'), 'eio_sync': ('sync',),
        'enospc': ('write', 'trunc'), 'eio_open': ('open',), 'eio_delete': ('delete',),
        'eio_lock': ('lock',), 'busy': ('lock',), 'eio_close': ('close',),
        'short_write': ('write',), 'nomem': ('open', 'read'),
        'short_io': ('read', 'write'), 'eintr': ('read', 'write'), 'eio_seek': ('seek',),
        'net_fail': ('net',), 'net_garbage': ('net',), 'net_cut': ('net',), 'net_slow': ('net',),
    }

    def _fits(self, fault, op, task):
        if 'task' in fault and fault['task'] != task.name:
            return False
        ops = self.FITS[fault['kind']]
        return ops is None or op in ops

    def _apply(self, fault, op, task):
        kind = fault['kind']
        self.fire(kind)
        if kind == 'kill':
            self.kill(task)
            return {'kind': 'dead', 'first': True, 'part': fault.get('part', 0)}
        if kind == 'power':
            self.power_loss(fault)
            return {'kind': 'dead'}
        if kind == 'stall':
            self.sleep(int(fault.get('us', 1000000)))
            if task.dead:
                return {'kind': 'dead'}
            return None
        return fault

    def kill(self, task):
        task.dead = True
        if self.on_kill:
            self.on_kill(task)

    def power_loss(self, fault):
        self.power_lost = True
        for task in self.tasks:
            if not task.done:
                task.dead = True
        if self.on_power_loss:
            self.on_power_loss(fault)

    def sleep(self, micros):
        """ the current task waits on the simulated clock """
        if not self.active:
            self.now += micros
            return
        task = self.current
        if task.dead:
            return
        self.step += 1
        if self.step > self.max_steps:
            self.stuck = True
            raise SimStuck()
        self.log('sleep', micros)
        task.wake_at = self.now + max(1, int(micros))
        task.busy_slept += micros
        nxt = self._pick_after(task)
        if nxt is task:
            self.now = max(self.now, task.wake_at)
            task.wake_at = None
            return
        self._handover(nxt)
        task.gate.acquire()

    def proc(self):
        """ the process (task) an operation belongs to; None outside of a run """
        return self.current if self.active else None
