"""Deterministic cooperative scheduler.

Every simulated client is a real thread, but exactly one runs at any instant: the others are parked on a private
semaphore.  The running client hands the baton over only at *ticks*, the LINE (optionally INSTRUCTION) events that
sys.monitoring raises inside the code under test (/repo/frm) and nowhere else, and at operation boundaries.  Who runs
next, and which fault strikes at which tick, is decided by a PRNG seeded from the plan or by an explicit switch list
(replay), so one plan is one exactly repeatable execution.
"""
import gc
import hashlib
import io
import os
import random
import sys
import threading
import _thread
import types
import warnings

REPO_FRM = os.environ.get('PROJECT_DIR_FRM', '/repo').rstrip('/') + '/frm/'
TOOL_ID = 4
SIM = None  # the running simulator of this process, if any


class SimLivelock(BaseException):
    """An operation ran far beyond every bound of its undisturbed execution."""


class SimDeadlock(BaseException):
    """Every unfinished client waits for a lock held by another."""


class SimCancelled(KeyboardInterrupt):
    """Injected cancellation (the user interrupts, or the caller's thread is torn down)."""


class SimMemoryError(MemoryError):
    """Injected allocation failure."""


class SimIOError(OSError):
    """Injected I/O error."""


class SimTimeLimit(TimeoutError):
    """Injected deadline: a caller's time limit (a signal handler) fires in the middle of a call."""


TICK_FAULTS = {'cancel': SimCancelled, 'memory': SimMemoryError, 'deadline': SimTimeLimit}


# ---------------------------------------------------------------------------------------------- instrumentation
def frm_code_objects():
    seen, out = set(), []

    def walk(code):
        if id(code) in seen:
            return
        seen.add(id(code))
        out.append(code)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                walk(const)

    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType) and obj.__code__.co_filename.startswith(REPO_FRM):
            walk(obj.__code__)
    return out


def instrument(instruction_level=False):
    """Turn on tick events for all code of the package that is loaded now."""
    mon = sys.monitoring
    if mon.get_tool(TOOL_ID) is None:
        mon.use_tool_id(TOOL_ID, 'frm-sim')
        mon.register_callback(TOOL_ID, mon.events.LINE, _on_event)
        mon.register_callback(TOOL_ID, mon.events.INSTRUCTION, _on_event)
    events = mon.events.LINE
    if instruction_level:
        events |= mon.events.INSTRUCTION
    codes = frm_code_objects()
    for code in codes:
        mon.set_local_events(TOOL_ID, code, events)
    return len(codes)


def _on_event(code, where):
    sim = SIM
    if sim is None:
        return
    client = sim.by_tid.get(_thread.get_ident())
    if client is None or not client.in_op:
        return
    sim.tick(client)


# ---------------------------------------------------------------------------------------------- locks of the package
_real_lock, _real_rlock = threading.Lock, threading.RLock


class SimLock:
    """Stand-in for locks created by the code under test: waiting parks the client in the simulator."""

    def __init__(self, reentrant):
        self.reentrant, self.owner, self.count = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        sim = SIM
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner, self.count = me, self.count + 1
                return True
            if not blocking:
                return False
            client = sim.by_tid.get(me) if sim else None
            if client is None:
                raise SimDeadlock('lock wait outside the simulation')
            client.waiting = self
            try:
                sim.yield_blocked(client)
            finally:
                client.waiting = None

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def install_lock_seam():
    def factory(real, reentrant):
        def make(*args, **kwargs):
            if sys._getframe(1).f_globals.get('__name__', '').startswith('frm'):
                return SimLock(reentrant)
            return real(*args, **kwargs)
        return make
    threading.Lock = factory(_real_lock, False)
    threading.RLock = factory(_real_rlock, True)


# ---------------------------------------------------------------------------------------------- output sink
class SimStdout(io.TextIOBase):
    """Swallows what the code under test prints; may fail like a closed pipe or a full disk."""

    def writable(self):
        return True

    def write(self, text):
        sim = SIM
        if sim is not None:
            client = sim.by_tid.get(_thread.get_ident())
            if client is not None and client.in_op:
                sim.printed += 1
                client.prints += 1
                f = client.fault
                if f and f['kind'] == 'stdout' and not client.fired and client.prints > f.get('nth', 0):
                    sim.fire(client, 'stdout')
                    raise SimIOError(28, 'No space left on device (injected)')
        return len(text)

    def flush(self):
        pass


# ---------------------------------------------------------------------------------------------- warning filters
def warning_context():
    return warnings.filters, warnings.showwarning


def enter_warning_context(w):
    """Each client has its own warning filters, as threads have from Python 3.14 on: warnings.catch_warnings, which SciPy
    uses around callbacks, is not safe under switches and what it would leave behind says nothing about this package."""
    if w[0] is not warnings.filters or w[1] is not warnings.showwarning:
        warnings.filters, warnings.showwarning = w
        warnings._filters_mutated()


# ---------------------------------------------------------------------------------------------- the simulator
class Client:
    def __init__(self, index, ops):
        self.index, self.ops = index, ops
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done = False
        self.waiting = None
        self.in_op = False
        self.op = None
        self.ticks = 0
        self.prints = 0
        self.fault = None
        self.fired = False
        self.poison = None
        self.seam_count = {}


class Sim:
    def __init__(self, plan, run_op, faults=(), schedule=None, step_bound=None, only=None):
        """run_op(client_index, op) -> result; faults: list of dicts {client, op, kind, ...};
        schedule: {'policy': ..., 'seed': ..., 'gap': ...} or {'explicit': [[client, op, tick, next], ...]}"""
        self.plan = plan
        self.run_op = run_op
        self.clients = [Client(i, ops) for i, ops in enumerate(plan['clients'])]
        if only is not None:
            for c in self.clients:
                if c.index != only:
                    c.ops = []
        self.faults = {}
        for f in faults:
            self.faults[(f['client'], f['op'])] = f
        self.by_tid = {}
        self.steps = 0
        self.printed = 0
        self.switches = []
        self.fired = []
        self.records = {}
        self.order = []
        self.step_bound = step_bound
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.schedule = schedule or {'policy': 'serial'}
        self.explicit = None
        if 'explicit' in self.schedule:
            self.explicit = {(a, b, t): n for a, b, t, n in self.schedule['explicit']}
        self.rng = random.Random(self.schedule.get('seed', 0))
        self.policy = self.schedule.get('policy', 'serial')
        self.gap = max(1.0, float(self.schedule.get('gap', 10)))
        self.next_switch = self._draw_gap()
        self.harness_error = None
        self.sink = None
        if self.policy == 'priority':
            self.prio = [self.rng.random() for _ in self.clients]
        self.hooks = []   # called with (sim, client) at each tick: invariants checked while the run proceeds
        self.hook_every = 0

    # -- choosing who runs
    def _draw_gap(self):
        return max(1, int(self.rng.expovariate(1.0 / self.gap)))

    def runnable(self, exclude=None):
        out = []
        for c in self.clients:
            if c.done or c is exclude:
                continue
            if c.waiting is not None and not (c.waiting.owner is None):
                continue
            out.append(c)
        return out

    def _pick(self, candidates):
        if self.policy == 'priority':
            return max(candidates, key=lambda c: self.prio[c.index])
        return candidates[self.rng.randrange(len(candidates))]

    def tick(self, client):
        client.ticks += 1
        self.steps += 1
        if client.poison is not None:
            exc, client.poison = client.poison, None
            raise exc
        if self.step_bound is not None and client.ticks > self.step_bound:
            raise SimLivelock(f'operation {client.op["id"]} passed {self.step_bound} steps')
        f = client.fault
        if f is not None and not client.fired and client.ticks == f.get('tick') and f['kind'] in TICK_FAULTS:
            self.fire(client, f['kind'])
            raise TICK_FAULTS[f['kind']](f'injected {f["kind"]} at step {client.ticks}')
        if self.hook_every and self.steps % self.hook_every == 0:
            for hook in self.hooks:
                hook(self, client)
        self.maybe_switch(client, client.ticks)

    def fire(self, client, kind):
        client.fired = True
        self.fired.append([client.index, client.op['id'], kind, client.ticks])

    def maybe_switch(self, client, tick):
        if self.explicit is not None:
            nxt = self.explicit.get((client.index, client.op['id'] if client.op else None, tick))
            if nxt is not None:
                target = self.clients[nxt]
                if target is not client and not target.done and target in self.runnable():
                    self._handover(client, target, tick)
            return
        if self.policy == 'serial':
            return
        if self.policy == 'boundary' and tick != 0:
            return
        if tick != 0 or self.policy == 'priority':
            self.next_switch -= 1
            if self.next_switch > 0:
                return
        self.next_switch = self._draw_gap()
        if self.policy == 'priority':
            self.prio[client.index] = min(self.prio) - self.rng.random()  # a priority change point
        others = self.runnable()
        if not others:
            return
        target = self._pick(others)
        if target is not client:
            self._handover(client, target, tick)

    def _choose(self, candidates, key):
        """Forced hand-over: somebody else has to run."""
        if self.explicit is not None:
            want = self.explicit.get(key)
            target = next((c for c in candidates if c.index == want), candidates[0])
        elif self.policy == 'serial':
            target = candidates[0]
        else:
            target = self._pick(candidates)
        self.switches.append([*key, target.index])
        return target

    def _handover(self, client, target, tick):
        self.switches.append([client.index, client.op['id'] if client.op else None, tick, target.index])
        self._wait_for(client, target)

    def _wait_for(self, client, target):
        context = warning_context()
        target.sem.release()
        client.sem.acquire()
        enter_warning_context(context)

    def yield_blocked(self, client):
        others = self.runnable(exclude=client)
        if not others:
            raise SimDeadlock(f'client {client.index} waits for a lock nobody can release')
        self._wait_for(client, self._choose(others, (client.index, client.op['id'], -1 - client.ticks)))

    # -- client threads
    def _main_of(self, client):
        client.sem.acquire()
        enter_warning_context(self.warning_context)
        self.by_tid[_thread.get_ident()] = client
        try:
            for op in client.ops:
                client.op = op
                self.maybe_switch(client, 0)
                self._do(client, op)
        except BaseException as e:  # never expected: a fault of the harness itself
            import traceback
            self.harness_error = ''.join(traceback.format_exception(e))
        client.done = True
        client.op = None
        nxt = self.runnable()
        if nxt:
            target = self._choose(nxt, (client.index, '__end__', 0))
            target.sem.release()
        else:
            self.main_sem.release()

    def _do(self, client, op):
        client.ticks, client.prints, client.fired, client.seam_count = 0, 0, False, {}
        client.fault = self.faults.get((client.index, op['id']))
        rec = {'status': None}
        invoked = self.steps
        client.in_op = True
        try:
            rec['value'] = self.run_op(client.index, op)
            rec['status'] = 'ok'
        except BaseException as e:
            rec['status'] = 'exc'
            rec['exc'] = type(e).__name__
            rec['bases'] = [t.__name__ for t in type(e).__mro__]
            rec['msg'] = str(e)[:300]
        finally:
            client.in_op = False
        if client.fired and client.fault.get('retry', True):
            # the caller retries: once the fault is over the same call must succeed and be right
            client.fault = None
            retry = {'status': None}
            client.in_op = True
            client.ticks = 0
            try:
                retry['value'] = self.run_op(client.index, op)
                retry['status'] = 'ok'
            except BaseException as e:
                retry['status'] = 'exc'
                retry['exc'] = type(e).__name__
                retry['bases'] = [t.__name__ for t in type(e).__mro__]
                retry['msg'] = str(e)[:300]
            finally:
                client.in_op = False
            rec['retry'] = retry
        rec['fired'] = client.fired
        rec['ticks'] = client.ticks
        rec['prints'] = client.prints
        rec['seams'] = dict(client.seam_count)
        rec['span'] = [invoked, self.steps]
        self.records[(client.index, op['id'])] = rec
        self.order.append([client.index, op['id']])

    def run(self):
        global SIM
        self.warning_context = warning_context()
        threads = []
        for c in self.clients:
            t = threading.Thread(target=self._main_of, args=(c,), daemon=True)
            threads.append(t)
        old_out = sys.stdout
        SIM = self
        sys.stdout = self.sink or SimStdout()
        try:
            for t in threads:
                t.start()
            live = self.clients
            if live:
                first = self._choose(live, (-1, '__start__', 0))
                first.sem.release()
                self.main_sem.acquire()
            for t in threads:
                t.join()
        finally:
            SIM = None
            sys.stdout = old_out
            enter_warning_context(self.warning_context)
        if self.harness_error:
            raise RuntimeError('harness error in client thread:\n' + self.harness_error)
        return self

    def trace_hash(self):
        h = hashlib.sha256()
        h.update(repr(self.switches).encode())
        h.update(repr(self.fired).encode())
        h.update(repr(self.order).encode())
        return h.hexdigest()[:16]

    def summary(self):
        return {'records': self.records, 'switches': self.switches, 'fired': self.fired, 'steps': self.steps,
                'printed': self.printed, 'order': self.order, 'trace': self.trace_hash()}


def current_client():
    sim = SIM
    if sim is None:
        return None
    c = sim.by_tid.get(_thread.get_ident())
    return c if c is not None and c.in_op else None
