"""A simulated property: how plans are made, how one plan runs, how a run is judged."""
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

from . import core
from .canon import canon, same, digest


class HarnessError(Exception):
    pass


class BuildFailed(Exception):
    """The library refused to build the world of a plan from valid inputs."""


class Stuck(Exception):
    """A phase did not come to an end."""


def warm(fn):
    """Run fn() once before any fork, to compile what it needs; if it fails, the runs will say so."""
    try:
        fn()
    except Exception:
        pass


def in_child(fn, timeout=240.0):
    """Run fn() in a forked child and return its result: nothing it does leaks into the next phase."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            try:
                payload = pickle.dumps(('ok', fn()), protocol=4)
            except (BuildFailed, Stuck) as e:
                payload = pickle.dumps(('raise', e))
            except BaseException as e:
                payload = pickle.dumps(('err', ''.join(traceback.format_exception(e))))
            with os.fdopen(w, 'wb') as f:
                f.write(payload)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], time.monotonic() + timeout
    timed_out = False
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed_out = True
                os.kill(pid, signal.SIGKILL)
                break
            ready, _, _ = select.select([r], [], [], min(left, 5.0))
            if ready:
                data = os.read(r, 1 << 20)
                if not data:
                    break
                chunks.append(data)
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if timed_out:
        raise Stuck(f'a simulated phase ran over {timeout} s of wall time')
    if not chunks:
        raise HarnessError(f'a simulated phase died without an answer (status {status})')
    kind, value = pickle.loads(b''.join(chunks))
    if kind == 'err':
        raise HarnessError(value)
    if kind == 'raise':
        raise value
    return value


SCHED_POLICIES = ['random', 'random', 'random', 'priority', 'boundary']


def gen_schedule(rng):
    return {'policy': rng.choice(SCHED_POLICIES), 'seed': rng.randrange(1 << 30),
            'switches': rng.choice([2, 4, 8, 16, 40, 120, 400])}


def gen_faults(rng, clients, kinds, rate, solver_modes=('raise', 'limit', 'flag', 'value')):
    """Place faults inside operations: which operation, how far into it, what kind."""
    out = []
    if not kinds:
        return out
    for ci, ops in enumerate(clients):
        for op in ops:
            if op.get('nofault'):
                continue
            if rng.random() < rate:
                kind = rng.choice(kinds)
                f = {'client': ci, 'op': op['id'], 'kind': kind, 'frac': rng.random()}
                if kind == 'solver':
                    f['mode'] = rng.choice(solver_modes)
                    f['sticky'] = rng.random() < 0.3
                    f['wide'] = f['sticky'] and f['frac'] * 1000 % 1 < 0.6
                if kind == 'stdout':
                    f['nth'] = rng.choice([0, 0, 1, 3])
                out.append(f)
    return out


class Prop:
    id = None
    title = ''
    quick = 200
    thorough = 4000
    rtol, atol = 1e-9, 1e-12
    fault_kinds = ('cancel', 'memory', 'deadline')
    real_components = 'all code under /repo/frm reached by the workload, numpy, pandas, scipy, numba'
    stub_components = 'thread scheduling (cooperative, seeded), standard output (sink), fault injection'
    rule = ''
    assumptions = ()
    step_factor = 30
    phase_timeout = 240.0
    skip_solo = False
    independent = True   # baseline: every operation alone in a fresh world; else: every client alone, in its order
    instruction_level = False

    # -- to override
    def setup(self):
        """In the parent, once, before any fork: imports and warm-up."""

    def gen(self, rng, index):
        raise NotImplementedError

    def build(self, plan):
        return None

    def run_op(self, world, plan, client, op):
        return getattr(self, 'op_' + op['name'])(world, **op.get('args', {}))

    def before(self, world, plan):
        return None

    def after(self, world, plan, token):
        return []

    def expect(self, plan, solo):
        """Absolute oracle on the fault-free single-client answers: yields violations."""
        return []

    def judge_more(self, plan, solo, conc):
        return []

    def nontrivial(self, plan, outcome):
        return outcome['switch_count'] > 1 or outcome['fired']

    def shrinks(self, plan):
        return []

    # -- phases
    def _build(self, plan):
        try:
            return self.build(plan)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            root = os.path.realpath(os.environ['PROJECT_DIR_FRM']) + '/'
            if any(os.path.realpath(f.filename).startswith(root) for f in tb):
                raise BuildFailed(f'{type(e).__name__}: {str(e)[:300]} at {tb[-1].filename}:{tb[-1].lineno}') from None
            raise

    def _phase(self, plan, only=None, schedule=None, faults=(), bound=None):
        def go():
            if self.instruction_level and plan.get('instr'):
                core.instrument(True)
            world = self._build(plan)
            token = self.before(world, plan)
            sim = core.Sim(plan, lambda ci, op: canon(self.run_op(world, plan, ci, op)), faults=faults,
                           schedule=schedule, step_bound=bound, only=only)
            self.prepare(world, plan, sim)
            sim.run()
            out = sim.summary()
            out['after'] = list(self.after(world, plan, token))
            return out
        return in_child(go, self.phase_timeout)

    def _baseline(self, plan):
        """Every operation alone, each in its own copy (fork) of the freshly built world."""
        def go():
            if self.instruction_level and plan.get('instr'):
                core.instrument(True)
            world = self._build(plan)
            out, after, steps, memo = {}, [], 0, {}
            for ci, ops in enumerate(plan['clients']):
                for op in ops:
                    key = json.dumps([op['name'], op.get('args', {})], sort_keys=True, default=str)
                    if key not in memo:
                        one = {'clients': [[op] if k == ci else [] for k in range(len(plan['clients']))]}

                        def alone():
                            token = self.before(world, plan)
                            sim = core.Sim(one, lambda c, o: canon(self.run_op(world, plan, c, o)))
                            self.prepare(world, plan, sim)
                            sim.run()
                            return sim.records[(ci, op['id'])], sim.steps, list(self.after(world, plan, token))
                        memo[key] = in_child(alone, self.phase_timeout)
                        steps += memo[key][1]
                        after += [dict(v, op=op['id']) for v in memo[key][2]]
                    out[(ci, op['id'])] = memo[key][0]
            return out, after, steps
        return in_child(go, self.phase_timeout)

    def prepare(self, world, plan, sim):
        pass

    def execute(self, plan):
        """Run one plan; returns the outcome with the violations found."""
        try:
            return self._execute(plan)
        except (BuildFailed, Stuck) as e:
            cls = 'build-failed' if isinstance(e, BuildFailed) else 'stuck'
            return {'violations': [{'cls': cls, 'detail': str(e)}], 'steps': 0, 'fired': {}, 'configured': {}, 'trace': cls, 'log': cls,
                    'switches': [], 'switch_count': 0, 'ops': sum(len(c) for c in plan['clients']), 'probes': {}}

    def judged(self, judge, *args):
        """The oracle's violations; an answer it cannot even read is a wrong answer."""
        out = []
        try:
            for v in judge(*args):
                out.append(v)
        except Exception as e:
            if not out:
                last = traceback.extract_tb(e.__traceback__)[-1]
                out.append({'cls': 'malformed-answer', 'detail': f'{type(e).__name__}: {str(e)[:300]} while checking an answer '
                                                                 f'({os.path.basename(last.filename)}:{last.lineno})'})
        return out

    def _execute(self, plan):
        solo = {}
        violations = []
        total = 0
        steps = 0
        if not self.skip_solo:
            if self.independent:
                solo, after, steps = self._baseline(plan)
                violations += [dict(v, phase='alone') for v in after]
                total = sum(r['ticks'] for r in solo.values())
            else:
                for ci in range(len(plan['clients'])):
                    s = self._phase(plan, only=ci)
                    solo.update(s['records'])
                    violations += [dict(v, phase='solo') for v in s['after']]
                    total += s['steps']
                steps += total
            violations += self.judged(self.expect, plan, solo)
        faults = []
        for f in plan.get('faults', []):
            rec = solo.get((f['client'], f['op']))
            if rec is None:
                continue
            f = dict(f)
            if f['kind'] in core.TICK_FAULTS:
                if rec['ticks'] == 0:
                    continue
                f['tick'] = 1 + min(rec['ticks'] - 1, int(f['frac'] * rec['ticks']))
            elif f['kind'] == 'solver':
                seams = [k for k in sorted(rec['seams']) if k not in ('splrep', 'splev', 'quad')]
                if not seams:
                    continue
                flat = [(k, n + 1) for k in seams for n in range(rec['seams'][k])]
                f['seam'], f['nth'] = flat[min(len(flat) - 1, int(f['frac'] * len(flat)))]
            elif f['kind'] == 'stdout':
                if rec['prints'] == 0:
                    continue
                f['nth'] = min(f.get('nth', 0), rec['prints'] - 1)
            faults.append(f)
        sched = dict(plan['sched'])
        if 'explicit' not in sched:
            sched['gap'] = max(1.0, total / max(1, sched.get('switches', 10)))
        most = max([r['ticks'] for r in solo.values()] + [100])
        conc = self._phase(plan, schedule=sched, faults=faults, bound=self.step_factor * most + 20000)
        steps += conc['steps']
        violations += [dict(v, phase='run') for v in conc['after']]
        violations += list(self.compare(plan, solo, conc))
        violations += self.judged(self.judge_more, plan, solo, conc)
        return self.outcome(plan, violations, conc, steps, faults, solo)

    def outcome(self, plan, violations, conc, steps, faults, solo=None):
        fired = {}
        for _, _, kind, _ in conc['fired']:
            fired[kind] = fired.get(kind, 0) + 1
        configured = {}
        for f in faults:
            k = f['kind'] if f['kind'] != 'solver' else 'solver-' + f['mode']
            configured[k] = configured.get(k, 0) + 1
        for k, n in self.environment_faults(plan, solo or {}, conc).items():
            fired[k] = fired.get(k, 0) + n
            configured[k] = configured.get(k, 0) + n
        log = digest(tuple(sorted((repr(k), r['status'], r.get('exc', ''), digest(r['value']) if 'value' in r else '')
                                  for k, r in conc['records'].items())))
        return {'violations': violations, 'steps': steps, 'fired': fired, 'configured': configured,
                'trace': conc['trace'], 'log': log + conc['trace'], 'switches': conc['switches'],
                'switch_count': len([s for s in conc['switches'] if s[1] not in ('__start__', '__end__')]),
                'ops': sum(len(c) for c in plan['clients']),
                'probes': self.probes(plan, solo or {}, conc)}

    def probes(self, plan, solo, conc):
        return {}

    def environment_faults(self, plan, solo, conc):
        """Faults of the simulated environment (storage, feed) that reached the code in this run."""
        return {}

    def op_tol(self, op):
        return self.rtol, self.atol

    def compare(self, plan, solo, conc):
        for ci, ops in enumerate(plan['clients']):
            for op in ops:
                key = (ci, op['id'])
                s, c = solo.get(key), conc['records'].get(key)
                if s is None:
                    continue
                if c is None:
                    yield {'cls': 'lost-operation', 'op': op['id'], 'detail': f'{op["name"]}: never completed'}
                    continue
                yield from self.compare_op(op, s, c)

    def compare_op(self, op, s, c):
        rtol, atol = self.op_tol(op)
        for which in ('', 'retry'):
            r = c if which == '' else c.get('retry')
            if r is None:
                continue
            if r['status'] == 'exc' and r['exc'] in ('SimLivelock', 'SimDeadlock'):
                yield {'cls': 'stuck', 'op': op['id'], 'detail': f'{op["name"]}: {r["exc"]} {r["msg"]}'}
                continue
            if which == '' and c['fired']:
                if r['status'] == 'ok' and s['status'] == 'ok':
                    d = same(s['value'], r['value'], rtol, atol)
                    if d and not self.fault_result_ok(op, s, r):
                        yield {'cls': 'wrong-under-fault', 'op': op['id'],
                               'detail': f'{op["name"]} swallowed an injected fault and answered differently: {d}'}
                continue
            word = 'not-recovered' if which else 'interference'
            what = 'retry after the fault' if which else 'same call next to other clients'
            if s['status'] != r['status']:
                a = s.get('exc', 'an answer'), s.get('msg', '')
                b = r.get('exc', 'an answer'), r.get('msg', '')
                yield {'cls': word, 'op': op['id'],
                       'detail': f'{op["name"]}: alone {a[0]} {a[1][:120]}; {what}: {b[0]} {b[1][:120]}'}
            elif s['status'] == 'ok':
                d = same(s['value'], r['value'], rtol, atol)
                if d:
                    yield {'cls': word, 'op': op['id'], 'detail': f'{op["name"]}: {what} differs: {d}'}
            elif s['exc'] != r['exc']:
                yield {'cls': word, 'op': op['id'],
                       'detail': f'{op["name"]}: alone {s["exc"]}, {what} {r["exc"]} {r["msg"][:120]}'}

    def fault_result_ok(self, op, s, r):
        return False


def solo_ok(plan, solo):
    """Iterate (client, op, record) of the fault-free single-client phase."""
    for ci, ops in enumerate(plan['clients']):
        for op in ops:
            rec = solo.get((ci, op['id']))
            if rec is not None:
                yield ci, op, rec
