"""C01: seeded randomness replays exactly; the caller's own random stream is never touched."""
import random

import numpy as np

from ..base import Prop, gen_schedule, gen_faults, solo_ok, warm
from ..canon import same


def zero_curve(spec):
    import pandas as pd
    from frm.enums import DayCountBasis, ZeroCurveInterpMethod
    from frm.term_structures.zero_curve import ZeroCurve
    return ZeroCurve(curve_date=pd.Timestamp(spec['date']),
                     pillar_df=pd.DataFrame({'years': spec['years'],
                                             'discount_factor': np.exp(-np.array(spec['rates']) * np.array(spec['years']))}),
                     day_count_basis=DayCountBasis.ACT_365,
                     interp_method=ZeroCurveInterpMethod[spec['interp']])


def gen_curve(rng):
    n = rng.randint(5, 8)
    years = sorted({round(rng.uniform(0.2, 1.0) + 1.3 * k, 3) for k in range(n)})
    base, slope = rng.uniform(0.01, 0.05), rng.uniform(-0.002, 0.003)
    return {'date': f'{rng.randint(2015, 2024)}-{rng.randint(1, 12):02d}-{rng.randint(1, 28):02d}', 'years': years,
            'rates': [round(base + slope * t + rng.uniform(-0.002, 0.002), 6) for t in years],
            'interp': rng.choice(['CUBIC_SPLINE_ON_CCZR', 'CUBIC_SPLINE_ON_LN_DISCOUNT'])}


OTHER = ['heston', 'heston', 'heston-poor', 'heston-poor', 'sabr', 'sabr-poor', 'black-iv', 'bach-iv', 'gk-iv', 'strike', 'theta', 'gbm', 'heston-paths', 'calendar',
         'schedule', 'surface', 'curve', 'swaption', 'heston-price']


def other(hw, what, u):
    """Calls which take no seed and have no business with random numbers; u are numbers in [0, 1)."""
    import datetime as dt
    import pandas as pd
    from frm.pricing_engine import black76_bachelier as bb, garman_kohlhagen as gk, heston as h, sabr
    with np.errstate(all='ignore'):
        if what in ('heston', 'heston-poor'):
            atm = 0.07 + 0.1 * u[0]
            bf = 0.003 if what == 'heston' else (0.02 + 0.05 * u[1]) * (1 if u[2] < 0.8 else -0.4)
            wing = 2.5 * bf if what == 'heston' else -0.5 * bf
            return h.heston_calibrate_vanilla_smile(volatility_quotes=np.array([atm + wing, atm + bf, atm, atm + bf * u[3], atm + wing]),
                                                    delta_of_quotes=np.array([-0.1, -0.25, 0.5, 0.25, 0.1]),
                                                    S0=1.0 + u[4], r=0.03 * u[5], q=0.03 * u[6], tau=0.1 + u[7], cp=np.array([-1, -1, 1, 1, 1]),
                                                    delta_convention='regular_spot', pricing_method='heston_cosine')
        if what in ('sabr', 'sabr-poor'):
            F, tau = 0.02 + 0.03 * u[0], 0.3 + 3 * u[1]
            K = F + np.array([-0.01, -0.005, 0, 0.005, 0.01])
            bump = np.array([0.05, 0.01, 0, 0.012, 0.03]) if what == 'sabr' else np.array([0.3 * u[2], -0.1, 0, 0.2, -0.15 * u[3]])
            return sabr.fit_sabr_params_to_sln_smile(tau=tau, F=F, K=K, vols_sln=0.25 + bump, ln_shift=0.02, beta_overide=0.5 if u[4] < 0.5 else None)
        if what == 'black-iv':
            F = 0.01 + 0.05 * u[0]
            K, vol = F * (0.5 + u[1]), 0.05 + u[2]
            X = bb.black76_price(F=F, tau=1.0, cp=1, K=K, vol_sln=vol, ln_shift=0.0, annuity_factor=1)['price']
            return bb.black76_solve_implied_vol(F=F, tau=1.0, cp=1, K=K, ln_shift=0.0, X=X, vol_sln_guess=0.01 + 3 * u[3])
        if what == 'bach-iv':
            F = 0.01 + 0.05 * u[0]
            K, vol = F + 0.02 * (u[1] - 0.5), 0.002 + 0.02 * u[2]
            X = bb.bachelier_price(F=F, tau=1.0, cp=1, K=K, vol_n=vol, annuity_factor=1)['price']
            return bb.bachelier_solve_implied_vol(F=F, tau=1.0, cp=1, K=K, X=X, vol_n_guess=0.001 + 0.05 * u[3])
        if what == 'gk-iv':
            kw = dict(S0=1.0 + u[0], tau=0.1 + u[1], r_d=0.03 * u[2], r_f=0.03 * u[3], cp=1, K=1.0 + u[0] + 0.2 * u[4])
            X = float(np.squeeze(gk.garman_kohlhagen_price(vol=0.05 + 0.3 * u[5], **kw)['price']))
            return gk.garman_kohlhagen_solve_implied_vol(X=X, vol_guess=0.01 + u[6], **kw)
        if what == 'strike':
            return gk.garman_kohlhagen_solve_strike_from_delta(S0=1.0 + u[0], tau=0.1 + u[1], r_d=0.03 * u[2], r_f=0.03 * u[3], vol=np.array([0.05 + 0.3 * u[4]]),
                                                               signed_delta=np.array([0.05 + 0.4 * u[5]]), delta_convention='premium_adjusted_spot' if u[6] < 0.7 else 'regular_spot')
        if what == 'theta':
            hw.setup_theta(num=20 + int(50 * u[0]))
            return hw.calc_error_for_theta_fit()
        if what == 'gbm':
            from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
            return simulate_gbm_path(initial_px=np.array([1.0]), drift=np.array([0.01, u[0]]), forward_volatility=np.array([0.1, u[1]]),
                                     timestep_length=np.array([0.5, 0.5]), rand_nbs=np.linspace(-2, 2, 20).reshape(2, 1, 10))
        if what == 'heston-paths':
            return h.heston_simulate(1.0 + u[0], 0.01, 0.02 + 0.1 * u[1], 0.3 + u[2], 1.5, 0.03, -0.5 + u[3], 1.0, np.linspace(-2, 2, 40).reshape(2, 2, 10))
        if what == 'heston-price':
            return h.heston_price_vanilla_european(S0=1.0, tau=0.1 + u[0], r=0.01, q=0.02, cp=1, K=0.8 + 0.4 * u[1], var0=0.02, vv=0.3, kappa=1.0, theta=0.03,
                                                   rho=-0.2, lambda_=0, pricing_method='heston_lipton')
        if what == 'calendar':
            from frm.utils.business_day_calendar import get_busdaycal
            return get_busdaycal([['AUD'], ['USD', 'EUR'], ['GBP', 'JPY', 'AUD']][int(3 * u[0])])
        if what == 'schedule':
            from frm.enums.utils import PeriodFreq
            from frm.utils.schedule import make_schedule
            return make_schedule(start_date=pd.Timestamp('2022-01-20'), end_date=pd.Timestamp('2024-01-20') + pd.Timedelta(days=int(300 * u[0])), freq=PeriodFreq.QUARTERLY)
        if what == 'swaption':
            hw.setup_theta(num=20)
            return hw.price_swaption(swaption_expiry=0.5, coupon_payment_times=np.array([1.0, 1.5, 2.0]), coupon_year_fractions=np.full(3, 0.5),
                                     notional_payment_time=2.0, fixed_rate=0.01 + 0.05 * u[0], is_payer=u[1] < 0.5)
        if what == 'surface':
            from .c08 import RefSurface, build_surface, gen_surface
            s = gen_surface(random.Random(int(1e9 * u[0])))
            d = pd.Timestamp(s['date']) + pd.Timedelta(days=RefSurface(s).days()[0])
            f = build_surface(s)
            return f.price_vanilla_european(pd.DatetimeIndex([d]), np.array([f.fx_spot_rate]), np.array([1]))
        from .c06 import build_curve, gen_zero_curve
        d = gen_zero_curve(random.Random(int(1e9 * u[0])))
        return build_curve(d).flat_shift(0.001).get_discount_factors(dates=pd.Timestamp(d['date']) + pd.Timedelta(days=30))


class C01(Prop):
    id = 'C01'
    title = 'Seeded randomness replays exactly and leaves the caller\'s random stream alone'
    quick, thorough = 420, 9000
    rtol = atol = 0.0
    assumptions = ('unseeded simulations (seed None) are outside the property',)

    def setup(self):
        from .. import seams
        seams.install()
        u = [0.5] * 8
        from frm.pricing_engine.hw1f import HullWhite1Factor
        c = {'date': '2024-01-01', 'years': [0.5, 1.5, 2.5, 3.5, 4.5], 'rates': [0.02] * 5, 'interp': 'CUBIC_SPLINE_ON_CCZR'}
        for what in ('heston', 'heston-price', 'heston-paths'):   # compile once, before any fork
            warm(lambda: other(HullWhite1Factor(zero_curve=zero_curve(c), mean_rev_lvl=0.1, vol=0.01), what, u))

    def gen(self, rng, index):
        seeds = [rng.randrange(0, 1 << 31) for _ in range(2)] + [0, 1, rng.randrange(5), rng.choice([(1 << 31) - 1, (1 << 32) - 1, rng.randrange(1 << 32)])]
        for b in rng.sample(seeds, 2):   # seeds that agree in part: low or high bits, neighbours, the same remainder
            seeds.append((b + rng.choice([1, -1, 1000, 10 ** 6, 997, 65521, 1 << rng.randrange(32), 3 << rng.randrange(31)])) % (1 << 32))
        world = {'np_seed': rng.randrange(1 << 31), 'curve': gen_curve(rng), 'hw': [rng.uniform(0.01, 0.3), rng.uniform(0.002, 0.02)]}
        n_clients = rng.choice([1, 2, 2, 3, 4])
        mix = [w for w in ('tape', 'tape', 'hw', 'cs', 'noise', 'scribble', 'bad', 'other') if rng.random() < 0.75] or ['tape']
        shapes = [(rng.choice([1, 2, 3, 5, 12]), rng.choice([1, 1, 2, 3]), rng.choice([2, 3, 4, 5, 7, 8, 16, 33]))
                  for _ in range(2)]
        clients, k = [], 0
        for c in range(n_clients):
            ops = []
            for _ in range(rng.randint(2, 6)):
                kind = rng.choice(mix)
                st, rv, sm = rng.choice(shapes)
                seed, anti = rng.choice(seeds), rng.random() < 0.5
                k += 1
                if kind in ('tape', 'scribble'):
                    a = dict(steps=st, rv=rv, sims=sm, anti=anti, seed=seed)
                elif kind == 'hw':
                    a = dict(tau=rng.choice([0.5, 1.0, 2.0]), steps=max(2, st), sims=sm, anti=anti, seed=seed,
                             method=rng.choice(['euler', 'rk4', 'exact']))
                elif kind == 'cs':
                    a = dict(sims=sm, spd=rng.choice([1, 2, 4]), T=rng.choice([2, 3, 5]), alpha=rng.uniform(0.01, 0.5),
                             sigma=rng.uniform(0.005, 0.1), px=rng.uniform(10, 100), cap=rng.choice([None, 40, 100]))
                elif kind == 'other':
                    a = dict(what=rng.choice(OTHER), u=[round(rng.random(), 6) for _ in range(8)])
                elif kind == 'noise':
                    a = dict(what=rng.choice(['seed', 'normal', 'uniform', 'permutation', 'state']), arg=rng.randrange(1000),
                             size=rng.randint(1, 7))
                else:
                    a = dict(steps=rng.choice([0, 1]), sims=1, seed=seed)
                ops.append({'id': f'o{k}', 'name': kind, 'args': a})
            clients.append(ops)
        # the same request issued twice by different clients: must give the same answer
        src = [o for c in clients for o in c if o['name'] in ('tape', 'hw', 'cs')]
        for o in src[:3]:
            k += 1
            clients[rng.randrange(n_clients)].append({'id': f'o{k}', 'name': o['name'], 'args': dict(o['args'])})
        # and with other seeds only: must give other numbers
        for o in rng.sample([o for o in src if o['name'] != 'cs'], min(2, len([o for o in src if o['name'] != 'cs']))):
            for sd in rng.sample(sorted(set(seeds) - {o['args']['seed']}), 3):
                k += 1
                clients[rng.randrange(n_clients)].append({'id': f'o{k}', 'name': o['name'], 'args': dict(o['args'], seed=sd)})
        kinds = [x for x in ('cancel', 'memory', 'deadline', 'solver') if rng.random() < 0.6] if rng.random() < 0.7 else []
        return {'world': world, 'clients': clients, 'sched': gen_schedule(rng),
                'faults': gen_faults(rng, clients, kinds, rng.choice([0.1, 0.25, 0.5]))}

    def build(self, plan):
        from frm.pricing_engine.hw1f import HullWhite1Factor
        w = plan['world']
        np.random.seed(w['np_seed'] % (1 << 32))
        hw = HullWhite1Factor(zero_curve=zero_curve(w['curve']), mean_rev_lvl=w['hw'][0], vol=w['hw'][1])
        return {'hw': hw, 'noise': []}

    def before(self, world, plan):
        world['noise'] = []
        return np.random.get_state(), random.getstate()

    def op_tape(self, world, steps, rv, sims, anti, seed):
        from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
        return generate_rand_nbs(nb_steps=steps, nb_rand_vars=rv, nb_simulations=sims, apply_antithetic_variates=anti,
                                 random_seed=seed)

    def op_scribble(self, world, **kw):
        x = self.op_tape(world, **kw)
        out = x.copy()
        x *= -3.5   # the caller owns what it was given
        x += 1.0
        return out

    def op_bad(self, world, steps, sims, seed):
        from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
        return generate_rand_nbs(nb_steps=steps, nb_rand_vars=1, nb_simulations=sims, apply_antithetic_variates=True,
                                 random_seed=seed)

    def op_hw(self, world, tau, steps, sims, anti, seed, method):
        with np.errstate(all='ignore'):
            r = world['hw'].simulate(tau=tau, nb_steps=steps, nb_simulations=sims, flag_apply_antithetic_variates=anti,
                                     random_seed=seed, method=method)
        return {k: r[k] for k in ('R', 'years_grid', 'sim_dsc_factor', 'sim_cczr')}

    def op_cs(self, world, sims, spd, T, alpha, sigma, px, cap):
        from frm.pricing_engine.clewlow_strickland_1_factor import clewlow_strickland_1_factor_simulate
        curve = np.column_stack([np.arange(T + 1.0), px + np.arange(T + 1.0) * 0.3])
        return clewlow_strickland_1_factor_simulate(curve, sims, spd, T, alpha, sigma)

    def op_other(self, world, what, u):
        from frm.pricing_engine.hw1f import HullWhite1Factor
        hw = world['hw']   # a client's own model on the shared curve
        other(HullWhite1Factor(zero_curve=hw.zero_curve, mean_rev_lvl=hw.mean_rev_lvl, vol=hw.vol), what, u)

    def op_noise(self, world, what, arg, size):
        # the caller's own use of numpy's global stream, in the order the schedule executes it
        world['noise'].append([what, arg, size, noise(np.random, what, arg, size)])
        return None

    def after(self, world, plan, token):
        ref = np.random.RandomState()
        ref.set_state(token[0])
        for what, arg, size, got in world['noise']:
            want = noise(ref, what, arg, size)
            if same(tuple(map(float, want)), tuple(map(float, got)), 0, 0):
                yield {'cls': 'global-stream', 'detail': f'the caller\'s np.random.{what} gave {got[:3]} instead of {want[:3]}: '
                                                         f'a library call disturbed the global stream'}
                return
        if random.getstate() != token[1]:
            yield {'cls': 'global-stream', 'detail': 'the global random stream of the standard library moved'}
        a, b = ref.get_state(), np.random.get_state()
        if not (np.array_equal(a[1], b[1]) and a[2:] == b[2:]):
            yield {'cls': 'global-stream', 'detail': 'numpy\'s global random state moved although only seeded library calls ran'}

    def expect(self, plan, solo):
        tapes = {}
        for ci, op, rec in solo_ok(plan, solo):
            if op['name'] == 'bad':
                if rec['status'] == 'ok':
                    yield {'cls': 'bad-accepted', 'op': op['id'], 'detail': f'{op["args"]} was accepted'}
                continue
            if op['name'] == 'other':
                if rec['status'] != 'ok' and rec['exc'] not in ('ValueError', 'RuntimeError', 'AssertionError'):
                    yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{op["args"]}: {rec["exc"]} {rec["msg"]}'}
                continue   # its answer is the business of other properties, here only the random streams count
            if rec['status'] != 'ok':
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{op["name"]} {op["args"]}: {rec["exc"]} {rec["msg"]}'}
                continue
            if op['name'] in ('tape', 'scribble'):
                a = op['args']
                key = (a['steps'], a['rv'], a['sims'], a['anti'])
                tapes.setdefault(key, {})[a['seed']] = rec['value'][2]
            elif op['name'] == 'hw':
                a = op['args']
                key = ('hw', a['tau'], a['steps'], a['sims'], a['anti'], a['method'])
                tapes.setdefault(key, {})[a['seed']] = dict(rec['value'][1])['R'][2][1:]
        for key, by_seed in tapes.items():
            seen = {}
            for seed, v in by_seed.items():
                h = v.tobytes()
                if h in seen:
                    yield {'cls': 'seed-ignored', 'detail': f'seeds {seed} and {seen[h]} give the same numbers for shape {key}'}
                seen[h] = seed


def noise(r, what, arg, size):
    if what == 'seed':
        r.seed(arg)
        return [0.0]
    if what == 'normal':
        return r.normal(size=size).tolist()
    if what == 'uniform':
        return r.uniform(size=size).tolist()
    if what == 'permutation':
        return [float(v) for v in r.permutation(size)]
    return [float(r.get_state()[2])]


PROP = C01
