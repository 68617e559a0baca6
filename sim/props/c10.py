"""C10: calibrating the Hull-White drift is all-or-nothing and reproduces the curve, for readers beside and after it."""
import contextlib
import io
import math

import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults
from ..canon import canon, same
from .c01 import zero_curve, gen_curve

DTS = [3e-2, 1e-2, 3e-3, 1e-3, 1e-4]
NUMS = [15, 20, 30, 45, 70]


def implied_discount(theta_spline, r0, alpha, sigma, t):
    """The model's discount factor for that drift, by composite Simpson on a dense grid."""
    from scipy.interpolate import splev
    splev = getattr(splev, '__frm_sim_real__', splev)
    x = np.linspace(0.0, t, 4001)
    B = (1 - np.exp(-alpha * (t - x))) / alpha
    y = 0.5 * sigma ** 2 * B ** 2 - np.asarray(splev(x, theta_spline)) * B
    h = x[1] - x[0]
    return math.exp(h / 3 * (y[0] + y[-1] + 4 * y[1:-1:2].sum() + 2 * y[2:-1:2].sum()) - r0 * B[0])


def own_error(curve, years, alpha, sigma, r0, num, grid=None):
    """How well a drift on that many points per pillar interval can reproduce discount factors, at worst, and pillar rates."""
    from scipy.interpolate import splrep
    splrep = getattr(splrep, '__frm_sim_real__', splrep)
    p = [0.0, *years]
    x = np.concatenate([np.linspace(a, b, num, endpoint=False) for a, b in zip(p, p[1:])]) if grid is None else grid
    spline = splrep(x, refs.hw_theta(curve, alpha, sigma, x, 1e-3))
    ts = [t for a, b in zip(p, p[1:]) for t in (a + 0.4 * (b - a), b)]
    e = [abs(implied_discount(spline, r0, alpha, sigma, t) - float(curve.discount(t))) for t in ts]
    return max(e), 1e4 * math.sqrt(np.mean([(d / float(curve.discount(t)) / t) ** 2 for t, d in zip(ts[1::2], e[1::2])]))


def state(hw):
    d = vars(hw)
    return {k: canon(d[k]) if k in d else None for k in ('dt', 'num', 'theta_spline', 'r0', 'mean_rev_lvl', 'vol')} | {'names': sorted(d)}


class C10(Prop):
    id = 'C10'
    title = 'Hull-White calibration is all-or-nothing and reproduces the curve'
    quick, thorough = 220, 9000
    independent = False
    rtol = atol = 0.0
    fault_kinds = ('cancel', 'memory', 'deadline', 'solver', 'stdout')
    assumptions = ('at most one client calibrates a given model at a time; any number read it meanwhile',
                   'reproduction is judged to five times the error of the best drift representable on the grid, plus 2e-5 in the discount factor')

    def setup(self):
        from .. import seams
        import frm.pricing_engine.hw1f  # noqa
        seams.install()

    def gen(self, rng, index):
        curve = gen_curve(rng)
        T = max(curve['years'])
        models = [[rng.uniform(0.02, 0.25), rng.uniform(0.003, 0.015), rng.choice(DTS), rng.choice(NUMS)] for _ in range(rng.choice([1, 1, 2]))]
        fresh = rng.random() < 0.2
        k = 0
        clients = []

        def cal(m):
            nonlocal k
            k += 1
            if rng.random() < 0.2:
                return {'id': f'o{k}', 'name': 'setup', 'args': {'m': m, 'num': rng.choice([None] + NUMS), 'grid': rng.random() < 0.3}}
            nd, nn = rng.choice([(1, 2), (2, 1), (2, 2), (1, 3), (3, 1)])
            return {'id': f'o{k}', 'name': 'fit', 'args': {'m': m, 'dts': rng.sample(DTS, nd), 'nums': rng.sample(NUMS, nn)}}

        def read(m):
            nonlocal k
            k += 1
            kind = rng.choice(['ode1', 'ode1', 'ode2', 'forward', 'error', 'swaption', 'simulate', 'theta'])
            if kind in ('ode1', 'ode2'):
                a = {'t': sorted(rng.sample(curve['years'], 2) + [round(rng.uniform(0.05, T), 4) for _ in range(2)])}
            elif kind == 'forward':
                t1 = round(rng.uniform(0.1, T - 0.4), 4)
                a = {'t1': t1, 't2': round(rng.uniform(t1 + 0.1, T), 4), 'r': rng.uniform(-0.01, 0.08)}
            elif kind == 'swaption':
                n = rng.choice([2, 3])
                t1 = rng.uniform(0.3, max(0.5, T - 0.5 * n - 0.3))
                a = {'t': round(t1, 4), 'n': n, 'm': rng.uniform(-1, 1), 'payer': rng.random() < 0.5, 'late': rng.random() < 0.3}
            elif kind == 'simulate':
                a = {'tau': round(rng.uniform(0.4, min(2.0, T - 0.1)), 3), 'seed': rng.randrange(1 << 20), 'method': rng.choice(['exact', 'exact', 'euler'])}
            elif kind == 'theta':
                a = {'t': [round(rng.uniform(0.1, T - 0.1), 4) for _ in range(3)]}
            else:
                a = {'show': rng.random() < 0.3}
            return {'id': f'o{k}', 'name': kind, 'args': dict(a, m=m)}

        if fresh:
            for m in range(len(models)):
                ops = [cal(m)]
                for _ in range(rng.randint(2, 4)):
                    ops.append(read(m) if rng.random() < 0.75 else cal(m))
                clients.append(ops)
        else:
            for m in range(len(models)):
                clients.append([cal(m) if rng.random() < 0.6 or not j else read(m) for j in range(rng.randint(1, 3))])
            for _ in range(rng.choice([0, 1, 1, 2])):
                clients.append([read(rng.randrange(len(models))) for _ in range(rng.randint(1, 4))])
        kinds = [x for x in ('cancel', 'memory', 'deadline', 'solver', 'stdout') if rng.random() < 0.6]
        return {'world': {'curve': curve, 'models': models, 'fresh': fresh}, 'clients': clients, 'sched': gen_schedule(rng),
                'faults': gen_faults(rng, clients, kinds, rng.choice([0.2, 0.5, 0.9]), ('raise', 'value'))}

    def build(self, plan):
        from frm.pricing_engine.hw1f import HullWhite1Factor
        w = plan['world']
        z = zero_curve(w['curve'])
        models = []
        for a, s, dt, num in w['models']:
            hw = HullWhite1Factor(zero_curve=z, mean_rev_lvl=a, vol=s, dt=dt, num=num)
            if not w['fresh']:
                with np.errstate(all='ignore'):
                    hw.setup_theta()
            models.append(hw)
        return {'models': models, 'zero': z, 'spec': w}

    def before(self, world, plan):
        world['seen'] = []
        world['bad'] = []
        # the grids each reader may have met: (points per pillar interval, None) or (None, points over the whole curve)
        world['grids'] = [[(m[3], None)] for m in plan['world']['models']]
        for c in plan['clients']:
            for op in c:
                a = op['args']
                if op['name'] == 'fit':
                    world['grids'][a['m']] += [(n, None) for n in a['nums']]
                elif op['name'] == 'setup':
                    world['grids'][a['m']].append(self.grid_of(a, plan['world']['models'][a['m']][3]))
        return canon(world['zero'].pillar_df)

    @staticmethod
    def grid_of(a, num):
        return (None, 60 + (a['num'] or 90)) if a['grid'] else (a['num'] or num, None)

    # ---------------------------------------------------------------- calibration
    def run_op(self, world, plan, client, op):
        a = dict(op['args'])
        hw = world['models'][a.pop('m')]
        if op['name'] in ('fit', 'setup'):
            return self.calibrate(world, hw, op, a)
        with np.errstate(all='ignore'):
            v = getattr(self, 'op_' + op['name'])(hw, **a)
        world['seen'].append((op, v))
        return None

    def calibrate(self, world, hw, op, a):
        was = state(hw)
        try:
            with np.errstate(all='ignore'):
                if op['name'] == 'fit':
                    hw.fit_theta(dts=a['dts'], nums=a['nums'])
                else:
                    hw.setup_theta(**self.setup_args(world['spec'], a))
        except BaseException as e:
            now = state(hw)
            if now != was:
                diff = [k for k in was if now.get(k) != was[k]]
                world['bad'].append({'cls': 'half-calibrated', 'op': op['id'], 'detail': f'{op["name"]} {a} failed with {type(e).__name__} and left the model\'s '
                                                                                          f'{diff} changed: dt {was["dt"]} -> {now["dt"]}, num {was["num"]} -> {now["num"]}'})
            raise
        now = state(hw)
        for k in ('r0', 'mean_rev_lvl', 'vol'):
            if now[k] != was[k]:
                world['bad'].append({'cls': 'model-altered', 'op': op['id'], 'detail': f'calibration changed {k} from {was[k]} to {now[k]}'})
        if op['name'] == 'fit':
            world['seen'].append((op, {'dt': hw.dt, 'num': hw.num, 'spline': hw.theta_spline}))
        else:
            world['seen'].append((op, {'dt': hw.dt, 'num': hw.num, 'spline': hw.theta_spline}))
        return [hw.dt, hw.num, *[np.asarray(x, float) for x in hw.theta_spline]]

    @staticmethod
    def setup_args(w, a):
        if a['grid']:
            return {'years_grid': np.linspace(0.0, max(w['curve']['years']) - 0.01, 60 + (a['num'] or 90))}
        return {'num': a['num']}

    # ---------------------------------------------------------------- readers
    def op_ode1(self, hw, t):
        return [float(np.squeeze(hw.calc_discount_factor_by_solving_ode_1(0, x))) for x in t]

    def op_ode2(self, hw, t):
        return [float(np.squeeze(hw.calc_discount_factor_by_solving_ode_2(0, x))) for x in t]

    def op_forward(self, hw, t1, t2, r):
        return [float(np.squeeze(hw.calc_discount_factor_by_solving_ode_1(t1, t2, r))), float(np.squeeze(hw.calc_discount_factor_by_solving_ode_2(t1, t2, r)))]

    def op_error(self, hw, show):
        return float(hw.calc_error_for_theta_fit(print_results=show))

    def op_theta(self, hw, t):
        return [float(x) for x in hw.get_thetas(np.array(t))]

    def op_swaption(self, hw, t, n, m, payer, late):
        pay = t + 0.5 * np.arange(1, n + 1)
        P = [float(np.squeeze(hw.zero_curve.get_discount_factors(years=float(x)))) for x in [t, *pay]]
        c = max(0.001, (P[0] - P[-1]) / (0.5 * sum(P[1:])) + m * hw.vol * math.sqrt(t))
        end = float(pay[-1]) + (0.01 if late else 0.0)
        return {'px': float(np.squeeze(hw.price_swaption(swaption_expiry=t, coupon_payment_times=pay, coupon_year_fractions=np.full(n, 0.5),
                                                         notional_payment_time=end, fixed_rate=c, is_payer=payer))), 'c': c, 'end': end}

    def op_simulate(self, hw, tau, seed, method):
        r = hw.simulate(tau=tau, nb_steps=40, nb_simulations=400, flag_apply_antithetic_variates=True, random_seed=seed, method=method)
        d = r['sim_dsc_factor'][-1]
        pair = (d[:200] + d[200:]) / 2
        return {'avg': float(r['averages_df']['discount_factor'].iloc[-1]), 'mean': float(d.mean()), 'se': float(pair.std() / math.sqrt(200))}

    # ---------------------------------------------------------------- judging
    def after(self, world, plan, token):
        w = plan['world']
        out = list(world['bad'])
        if same(canon(world['zero'].pillar_df), token, 0, 0):
            out.append({'cls': 'curve-altered', 'detail': 'the curve the models were built on changed'})
        c = w['curve']
        curve = refs.Curve(c['years'], [math.exp(-r * t) for r, t in zip(c['rates'], c['years'])], c['interp'])
        for op, v in world['seen']:
            try:
                found = list(self.judge(world, w, curve, op, v))
            except (TypeError, ValueError, KeyError, IndexError) as e:
                found = [('malformed-answer', f'{type(e).__name__}: {e} on {str(v)[:200]}')]
            out += [{'cls': cls, 'op': op['id'], 'detail': f'{op["name"]} {op["args"]}: {text}; models {w["models"]} curve {c}'[:1800]} for cls, text in found]
        return out

    def judge(self, world, w, curve, op, v):
        a, m = op['args'], op['args']['m']
        alpha, sigma = w['models'][m][:2]
        tol, tol_bps = self.tolerance(world, w, curve, m, world['grids'][m])
        D = lambda t: float(curve.discount(t))
        n = op['name']
        if n in ('fit', 'setup'):
            yield from self.judge_calibration(world, w, curve, op, v)
        elif n in ('ode1', 'ode2'):
            for t, x in zip(a['t'], v):
                if not abs(x - D(t)) <= (tol if n == 'ode1' else 2e-6):
                    yield 'curve-not-reproduced', f'discount factor to {t} is {x!r}, the curve has {D(t)!r}'
        elif n == 'forward':
            want = float(refs.hw_bond(D(a['t1']), D(a['t2']), float(curve.fwd(np.array(a['t1']))), alpha, sigma, a['t1'], a['t2'], a['r']))
            for x, e in zip(v, (2 * tol, 5e-6)):
                if not abs(x - want) <= e:
                    yield 'curve-not-reproduced', f'bond from {a["t1"]} to {a["t2"]} at rate {a["r"]:.4f} is {x!r}, the model has {want!r}'
        elif n == 'error':
            if not 0 <= v <= tol_bps:
                yield 'curve-not-reproduced', f'reported error of the fit {v!r} basis points'
        elif n == 'theta':
            h = 1e-4
            for t, x in zip(a['t'], v):
                want = float(refs.hw_theta(curve, alpha, sigma, np.array(t), h))
                if not abs(x - want) <= 2e-3:
                    yield 'wrong-drift', f'drift at {t} is {x!r}, the curve implies {want!r}'
        elif n == 'swaption':
            want = self.swaption(curve, alpha, sigma, a, v)
            if not abs(v['px'] - want) <= 2 * tol:
                yield 'wrong-price', f'swaption {v}: independent price {want!r}'
        elif n == 'simulate':
            e = 5e-4 if a['method'] == 'exact' else 1e-2 * a['tau'] * max(1.0, a['tau'])
            if not abs(v['mean'] - D(a['tau'])) <= 6 * v['se'] + e or not abs(v['avg'] - v['mean']) < 1e-12:
                yield 'curve-not-reproduced', f'simulated discount factor {v}, the curve has {D(a["tau"])!r}'

    @staticmethod
    def tolerance(world, w, curve, m, grids):
        memo = world.setdefault('memo', {})
        years = w['curve']['years']
        for num, n in grids:
            if (m, num, n) not in memo:
                grid = None if n is None else np.linspace(0.0, max(years) - 0.01, n)
                memo[(m, num, n)] = own_error(curve, years, *w['models'][m][:2], world['models'][m].r0, num, grid)
        found = [memo[(m, *g)] for g in grids]
        return 5 * max(e for e, _ in found) + 2e-5, 5 * max(b for _, b in found) + 0.05 / min(1.0, min(years))

    @staticmethod
    def swaption(curve, alpha, sigma, a, v):
        """The swap's bonds are jointly lognormal in one normal factor under the expiry-forward measure."""
        T = a['t']
        D = lambda t: float(curve.discount(t))
        flows = [(T + 0.5 * (j + 1), v['c'] * 0.5) for j in range(a['n'])] + [(v['end'], 1.0)]
        s = sigma * math.sqrt((1 - math.exp(-2 * alpha * T)) / (2 * alpha))
        z, h = np.linspace(-9, 9, 20001, retstep=True)
        bond = sum(cf * D(t) / D(T) * np.exp(-0.5 * (s * (1 - math.exp(-alpha * (t - T))) / alpha) ** 2 - s * (1 - math.exp(-alpha * (t - T))) / alpha * z)
                   for t, cf in flows)
        pay = np.maximum(1 - bond, 0) if a['payer'] else np.maximum(bond - 1, 0)
        return D(T) * float(np.sum(pay * np.exp(-z * z / 2)) * h / math.sqrt(2 * math.pi))

    def judge_calibration(self, world, w, curve, op, v):
        from frm.pricing_engine.hw1f import HullWhite1Factor
        a, m = op['args'], op['args']['m']
        alpha, sigma, dt0, num0 = w['models'][m]
        r0 = world['models'][m].r0
        years = w['curve']['years']

        def rms(spline):
            return 1e4 * math.sqrt(np.mean([(math.log(implied_discount(spline, r0, alpha, sigma, t) / float(curve.discount(t))) / t) ** 2 for t in years]))
        try:
            mine = rms(v['spline'])
        except OverflowError:
            mine = float('inf')
        if op['name'] == 'setup':
            met = [self.grid_of(a, num0)] if a['grid'] or a['num'] else world['grids'][m]
            if not mine <= self.tolerance(world, w, curve, m, met)[1]:
                yield 'curve-not-reproduced', f'the drift set up misses the pillar rates by {mine:.4g} basis points'
            with np.errstate(all='ignore'):
                other = HullWhite1Factor(zero_curve=zero_curve(w['curve']), mean_rev_lvl=alpha, vol=sigma, dt=v['dt'], num=v['num'])
                other.setup_theta(**self.setup_args(w, a))
            if same(canon(other.theta_spline), canon(v['spline']), 1e-9, 1e-12):
                yield 'inconsistent-model', f'the drift set up is not that of a new model with the same dt={v["dt"]}, num={v["num"]}'
            return
        if v['dt'] not in a['dts'] or v['num'] not in a['nums']:
            yield 'not-the-best-grid', f'kept dt={v["dt"]}, num={v["num"]}, which was not tried'
            return
        best = {}
        for dt in a['dts']:
            for num in a['nums']:
                with np.errstate(all='ignore'):
                    other = HullWhite1Factor(zero_curve=zero_curve(w['curve']), mean_rev_lvl=alpha, vol=sigma, dt=dt, num=num)
                    other.setup_theta()
                best[(dt, num)] = (rms(other.theta_spline), other.theta_spline)
        low = min(best, key=lambda k: best[k][0])
        if mine > best[low][0] * 1.02 + 4e-3:
            yield 'not-the-best-grid', f'kept dt={v["dt"]}, num={v["num"]} with an error of {mine:.6g} basis points, {low} has {best[low][0]:.6g}'
        if same(canon(best[(v['dt'], v['num'])][1]), canon(v['spline']), 1e-9, 1e-12):
            yield 'inconsistent-model', f'the drift kept is not that of the dt={v["dt"]}, num={v["num"]} kept beside it'
        if not mine <= self.tolerance(world, w, curve, m, [(v['num'], None)])[1]:
            yield 'curve-not-reproduced', f'the calibrated drift misses the pillar rates by {mine:.4g} basis points'

    def probes(self, plan, solo, conc):
        out = {}
        for c in plan['clients']:
            for op in c:
                out[op['name']] = out.get(op['name'], 0) + 1
        return out


PROP = C10
