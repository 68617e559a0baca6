"""Entry point: run a check, or replay one recorded violation.

Exit status: 0 the property held on everything explored, 1 a violation was found (VIOLATION line), 2 harness error.
"""
import contextlib
import copy
import gc
import importlib
import json
import logging
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

os.environ.setdefault('PROJECT_DIR_FRM', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from . import core  # noqa: E402


def plan_rng(seed, pid, index):
    return random.Random(f'{seed}/{pid}/{index}')


def load_prop(pid):
    mod = importlib.import_module(f'sim.props.{pid.lower()}')
    return mod.PROP()


def boot(prop):
    core.install_lock_seam()
    logging.getLogger().addHandler(logging.NullHandler())  # what the package logs is not under test
    if getattr(prop, 'needs_frm', True):
        import warnings
        warnings.simplefilter('ignore')
        for m in ('frm', 'frm.enums', 'frm.utils', 'frm.term_structures', 'frm.pricing_engine',
                  'frm.term_structures.fx_volatility_surface', 'frm.term_structures.bootstrap_helpers',
                  'frm.term_structures.interest_rate_option_helpers'):
            mod = importlib.import_module(m)
            where = os.path.realpath(mod.__file__)
            assert where.startswith(os.path.realpath(os.environ['PROJECT_DIR_FRM']) + '/'), where
    with contextlib.redirect_stdout(core.SimStdout()):
        prop.setup()
    if getattr(prop, 'needs_frm', True):
        core.instrument(False)
    gc.collect()
    gc.freeze()  # forked phases share these pages


def make_plan(prop, seed, index):
    rng = plan_rng(seed, prop.id, index)
    plan = prop.gen(rng, index)
    plan['property'] = prop.id
    plan['index'] = index
    plan['verif_seed'] = seed
    return plan


# ------------------------------------------------------------------------------------------------ known findings
def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == pid]


def matches(entry, v):
    return all(v.get(k) == x for k, x in entry['match'].items())


# ------------------------------------------------------------------------------------------------ workers
def worker(prop, seed, indexes, wfd, best_path, collect_logs):
    out = os.fdopen(wfd, 'w', buffering=1)
    for i in indexes:
        try:
            stop = int(open(best_path).read() or '999999999')
        except (OSError, ValueError):
            stop = 999999999
        if i > stop:
            break
        try:
            plan = make_plan(prop, seed, i)
            t0 = time.monotonic()
            oc = prop.execute(plan)
            msg = {'i': i, 'violations': oc['violations'][:5], 'steps': oc['steps'], 'fired': oc['fired'],
                   'configured': oc['configured'], 'trace': oc['trace'], 'log': oc['log'], 'ops': oc['ops'],
                   'switches': oc['switch_count'], 'probes': oc['probes'], 'nontrivial': bool(prop.nontrivial(plan, oc)),
                   'wall': time.monotonic() - t0}
        except BaseException as e:
            msg = {'i': i, 'error': ''.join(traceback.format_exception(e))[-6000:]}
        out.write(json.dumps(msg, default=str) + '\n')
    out.close()


def run_batch(prop, seed, n, workers, deadline, known):
    scratch = os.environ.get('FRM_SIM_SCRATCH') or '/tmp'
    best_path = os.path.join(scratch, f'best.{os.getpid()}')
    with open(best_path, 'w') as f:
        f.write('999999999')
    fds, pids = {}, []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for fd in fds:
                    os.close(fd)
                worker(prop, seed, range(w, n, workers), wr, best_path, False)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
        os.close(wr)
        fds[r] = b''
        pids.append(pid)
    results, best, error, timed_out = {}, 999999999, None, False
    open_fds = set(fds)
    try:
        while open_fds:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            ready, _, _ = select.select(list(open_fds), [], [], min(5.0, left))
            for fd in ready:
                data = os.read(fd, 1 << 20)
                if not data:
                    open_fds.discard(fd)
                    continue
                fds[fd] += data
                *lines, fds[fd] = fds[fd].split(b'\n')
                for line in lines:
                    msg = json.loads(line)
                    results[msg['i']] = msg
                    if 'error' in msg:
                        error = error or msg
                        stop_at = msg['i']
                    elif any(not any(matches(k, v) for k in known) for v in msg['violations']):
                        stop_at = msg['i']
                    else:
                        continue
                    if stop_at < best:
                        best = stop_at
                        with open(best_path + '.tmp', 'w') as f:
                            f.write(str(best))
                        os.replace(best_path + '.tmp', best_path)
    finally:
        for pid in pids:
            if timed_out:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        for fd in fds:
            os.close(fd)
        os.unlink(best_path)
    return results, best, error, timed_out


# ------------------------------------------------------------------------------------------------ minimisation
def violation_class(vs):
    return vs[0]['cls'] if vs else None


def minimise(prop, plan, cls, known, max_evals, deadline):
    """Greedy delta debugging over clients, operations, faults and schedule switches."""
    evals = 0

    def fails(p):
        nonlocal evals
        if evals >= max_evals or time.monotonic() > deadline:
            return None
        evals += 1
        try:
            oc = prop.execute(copy.deepcopy(p))
        except BaseException:
            return None
        vs = [v for v in oc['violations'] if not any(matches(k, v) for k in known)]
        return oc if any(v['cls'] == cls for v in vs) else None

    cur = copy.deepcopy(plan)
    best = fails(cur)
    if best is None:
        return cur, None, evals
    changed = True
    while changed:
        changed = False
        for ci in range(len(cur['clients'])):               # whole clients
            if cur['clients'][ci] and sum(1 for c in cur['clients'] if c) > 1:
                p = copy.deepcopy(cur)
                p['clients'][ci] = []
                p['faults'] = [f for f in p.get('faults', []) if f['client'] != ci]
                oc = fails(p)
                if oc:
                    cur, best, changed = p, oc, True
        for ci in range(len(cur['clients'])):               # runs of operations, then single ones
            size = max(1, len(cur['clients'][ci]) // 2)
            while size >= 1:
                k = 0
                while k < len(cur['clients'][ci]):
                    if sum(len(c) for c in cur['clients']) <= size:
                        break
                    p = copy.deepcopy(cur)
                    gone = {o['id'] for o in p['clients'][ci][k:k + size]}
                    p['clients'][ci] = p['clients'][ci][:k] + p['clients'][ci][k + size:]
                    p['faults'] = [f for f in p.get('faults', []) if not (f['client'] == ci and f['op'] in gone)]
                    oc = fails(p)
                    if oc:
                        cur, best, changed = p, oc, True
                    else:
                        k += size
                size //= 2
        for fi in reversed(range(len(cur.get('faults', [])))):  # faults
            p = copy.deepcopy(cur)
            del p['faults'][fi]
            oc = fails(p)
            if oc:
                cur, best, changed = p, oc, True
        for shrunk in prop.shrinks(cur):                     # property specific
            oc = fails(shrunk)
            if oc:
                cur, best, changed = shrunk, oc, True
        if evals >= max_evals or time.monotonic() > deadline:
            break
    if 'sched' in cur:                                       # schedule: explicit list, then thin it out
        p = copy.deepcopy(cur)
        p['sched'] = {'explicit': best['switches']}
        oc = fails(p)
        if oc:
            cur, best = p, oc
            size = max(1, len(cur['sched']['explicit']) // 2)
            while size >= 1:
                k = 0
                while k < len(cur['sched']['explicit']):
                    p = copy.deepcopy(cur)
                    p['sched']['explicit'] = p['sched']['explicit'][:k] + p['sched']['explicit'][k + size:]
                    oc = fails(p)
                    if oc:
                        cur, best = p, oc
                    else:
                        k += size
                size //= 2
    return cur, best, evals


# ------------------------------------------------------------------------------------------------ commands
def cmd_replay(pid, path):
    prop = load_prop(pid)
    boot(prop)
    with open(path) as f:
        rec = json.load(f)
    oc = prop.execute(rec['plan'])
    known = load_known(pid)
    vs = [v for v in oc['violations'] if not any(matches(k, v) for k in known)]
    for v in vs[:5]:
        print(f"  {v['cls']}: {v['detail']}")
    print(f"trace {oc['trace']} recorded {rec.get('trace')}")
    if any(v['cls'] == rec['violation']['cls'] for v in vs):
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print('the recorded violation does not occur on this tree')
    return 0


def cmd_check(pid, tier, n_override=None, workers=None):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    print(f'{pid} {tier}: VERIF_SEED={seed}', flush=True)
    prop = load_prop(pid)
    boot(prop)
    n = n_override or (prop.quick if tier == 'quick' else prop.thorough)
    workers = workers or int(os.environ.get('FRM_SIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    workers = min(workers, n)
    budget = 720 if tier == 'quick' else 6 * 3600
    known = load_known(pid)
    results, best, error, timed_out = run_batch(prop, seed, n, workers, t0 + budget, known)
    if timed_out:
        print(f'HARNESS ERROR: {pid}: the batch of {n} runs did not finish within {budget} s')
        return 2
    first_error = error is not None and error['i'] <= best
    considered = {i: r for i, r in results.items() if i <= best}
    if first_error and considered.get(best, {}).get('error'):
        print('HARNESS ERROR in run', best)
        print(considered[best]['error'])
        return 2
    if best == 999999999 and len(results) != n:
        print(f'HARNESS ERROR: {len(results)} of {n} runs reported')
        return 2
    if best == 999999999 and time.monotonic() - t0 < budget / 2:
        again = [i for i in range(min(2, n)) if 'log' in results.get(i, {})]
        same_log = sum(prop.execute(make_plan(prop, seed, i))['log'] == results[i]['log'] for i in again)
        rerun = {'runs_repeated': len(again), 'repeated_identically': same_log}
    else:
        rerun = {}
    # known findings seen
    seen_known = {}
    for r in considered.values():
        for v in r.get('violations', []):
            for k in known:
                if matches(k, v):
                    seen_known.setdefault(k['id'], k)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rc = 0
    violations = 0
    extra = dict(rerun)
    if best != 999999999:
        violations = 1
        rc = 1
        rec = considered[best]
        v = next(v for v in rec['violations'] if not any(matches(k, v) for k in known))
        print(f"violation in run {best}: {v['cls']}: {v['detail']}", flush=True)
        plan = make_plan(prop, seed, best)
        small, oc, evals = minimise(prop, plan, v['cls'], known, 150, time.monotonic() + (60 if tier == 'quick' else 600))
        if oc is not None:
            vv = next((x for x in oc['violations'] if x['cls'] == v['cls']), v)
            trace = oc['trace']
        else:
            small, vv, trace = plan, v, rec['trace']
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', f'{pid}-{seed}-{best}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'run': best, 'violation': vv, 'trace': trace, 'plan': small,
                       'minimised_in': evals}, f, indent=1)
        env = dict(os.environ)
        env['FRM_SIM_NESTED'] = '1'
        p = subprocess.run([sys.executable, '-m', 'sim.main', pid, 'replay', path], cwd=VERIF, env=env,
                           capture_output=True, text=True, timeout=600)
        confirmed = p.returncode == 1
        print(f"minimised to {sum(len(c) for c in small['clients'])} operations, {len(small.get('faults', []))} faults"
              f" in {evals} runs; replay in a fresh process: {'reproduced' if confirmed else 'NOT reproduced'}")
        print(f"  {vv['cls']}: {vv['detail']}")
        if not confirmed:
            print(p.stdout[-800:], p.stderr[-800:])
        extra = {**rerun, 'violation': vv, 'replay': path, 'replay_confirmed': confirmed}
        print(f'VIOLATION property={pid} replay={path}', flush=True)
    write_evidence(prop, tier, seed, considered, workers, time.monotonic() - t0, violations, n, extra)
    if rc == 0:
        print(f'{pid} {tier}: held on {len(considered)} simulated runs, {time.monotonic() - t0:.1f} s')
    return rc


def write_evidence(prop, tier, seed, results, workers, wall, violations, n, extra):
    ok = [r for r in results.values() if 'error' not in r]
    fired, configured, probes = {}, {}, {}
    for r in ok:
        for src, dst in ((r['fired'], fired), (r['configured'], configured), (r['probes'], probes)):
            for k, x in src.items():
                dst[k] = dst.get(k, 0) + x
    distinct = {r['log'] for r in ok if r['nontrivial']}
    samples = []
    for i in sorted(results)[:2]:
        plan = make_plan(prop, seed, i)
        r = results[i]
        samples.append({'run': i, 'plan': json.loads(json.dumps(plan, default=str)[:20000]) if len(json.dumps(plan, default=str)) < 20000 else
                        json.dumps(plan, default=str)[:3000], 'steps': r.get('steps'), 'switches': r.get('switches'),
                        'fired': r.get('fired'), 'trace': r.get('trace')})
    steps = sum(r['steps'] for r in ok)
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': len(ok), 'distinct_nontrivial': len(distinct),
              'rule': prop.rule or 'one evaluation is one simulated run (one seed); non-trivial: clients were switched inside '
                                   'an operation or an injected fault fired; distinct: hash of the executed switch '
                                   'trace, the fired faults and every answer',
              'samples': samples,
              'runs_planned': n,
              'operations': sum(r['ops'] for r in ok),
              'simulated_steps': steps,
              'simulated_time_s': round(steps * 0.001, 3),
              'simulated_time_note': 'one scheduler step (line of the package executed) is one simulated millisecond; '
                                     'the package has no timers',
              'context_switches': sum(r['switches'] for r in ok),
              'distinct_interleavings': len({r['trace'] for r in ok if r['switches']}),
              'faults_configured': configured, 'faults_fired': fired, 'probes': probes,
              'runs_per_hour': round(3600 * len(ok) / max(wall, 1e-9)),
              'seeds_per_hour': round(3600 * len(ok) / max(wall, 1e-9)),
              'workers': workers,
              'real_components': prop.real_components, 'stub_components': prop.stub_components, **extra},
          'assumptions': list(prop.assumptions), 'wall_s': round(wall, 2), 'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f'{prop.id}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)


def cmd_log(pid, first, count):
    """Print one line per run: used to compare whole batches across interpreters, hash seeds and worker counts."""
    prop = load_prop(pid)
    boot(prop)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    workers = int(os.environ.get('FRM_SIM_WORKERS', '0')) or 8
    results, best, error, timed_out = run_batch(prop, seed, first + count, workers, time.monotonic() + 3600, [])
    for i in sorted(results):
        r = results[i]
        print(i, r.get('log'), r.get('steps'), json.dumps(r.get('fired')), len(r.get('violations', [])), r.get('error', '')[-300:])
    return 0


def main(argv):
    if len(argv) < 2:
        print(__doc__)
        return 2
    pid, mode = argv[0], argv[1]
    try:
        if mode == 'replay':
            return cmd_replay(pid, argv[2])
        if mode == 'log':
            return cmd_log(pid, 0, int(argv[2]))
        if mode in ('quick', 'thorough'):
            return cmd_check(pid, mode, int(argv[2]) if len(argv) > 2 else None)
        print('unknown mode', mode)
        return 2
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('HARNESS ERROR')
        return 2


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
