"""C05: averages over simulated paths agree with the closed forms, for any seed and parameters."""
import math

import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults, solo_ok, warm
from ..canon import plain
from .c01 import zero_curve, gen_curve

# stated accuracy of each Heston pricing route against the exact price, as a fraction of the spot
HESTON_TOL = {'heston_1993': 1e-7, 'heston_lipton': 1e-7, 'heston_carr_madan_gauss_kronrod_quadrature': 1e-7,
              'heston_carr_madan_fft_w_simpsons': 3e-3, 'heston_cosine': 6e-3}


def level(rng, top):
    """A spot price: mostly of the usual size, sometimes quoted in thousandths or tens of thousands."""
    return rng.uniform(0.5, top) if rng.random() < 0.8 else math.exp(rng.uniform(math.log(0.003), math.log(30000)))


def strikes(rng):
    n = rng.choice([1, 1, 2, 3])
    return {'cp': [rng.choice([1, -1]) for _ in range(n)], 'm': [rng.uniform(-1.3, 1.3) for _ in range(n)]}


def pair_stats(x):
    """Mean and standard error of antithetic pairs (2k, 2k+1)."""
    m = (x[0::2] + x[1::2]) / 2
    return float(m.mean()), float(m.std(ddof=1) / math.sqrt(len(m)))


class C05(Prop):
    id = 'C05'
    title = 'Monte Carlo averages agree with the closed forms for any seed'
    quick, thorough = 240, 8000
    rtol = atol = 0.0
    assumptions = ('deviations are judged at six standard errors plus: Heston 0.4% of the spot, Hull-White 5 basis points of the '
                   'discount factor for the exact scheme and 1.5% x horizon for the euler and Runge-Kutta schemes',
                   'Carr-Madan quadrature is compared only where its damped moment exists (rho below 0, calls)')

    def gen(self, rng, index):
        hw = [rng.choice([rng.uniform(0.02, 0.25), math.exp(rng.uniform(math.log(5e-4), math.log(0.6)))]), rng.uniform(0.003, 0.015)]
        if rng.random() < 0.12:   # hardly any mean reversion
            hw[0] = rng.choice([1e-9, 1e-8, 1e-7, 1e-5])
        world = {'curve': gen_curve(rng), 'hw': hw}
        last = max(world['curve']['years'])
        mix = rng.sample(['gk', 'gk', 'black', 'bach', 'heston', 'hw', 'zbo', 'swaption', 'cs'], rng.randint(2, 5))
        clients, k = [], 0
        for c in range(rng.choice([1, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 3)):
                k += 1
                kind = rng.choice(mix)
                seed, sims = rng.choice([0, 1, rng.randrange(1 << 31)]), rng.choice([2000, 4000])
                if kind == 'gk':
                    n = rng.choice([1, 2, 4, 4, 12])
                    a = dict(S0=level(rng, 150), dts=[rng.uniform(0.02, 0.8) for _ in range(n)],
                             rd=[rng.uniform(-0.01, 0.09) for _ in range(n)], rf=[rng.uniform(-0.01, 0.09) for _ in range(n)],
                             vol=[rng.uniform(0.03, 0.5) for _ in range(n)], **strikes(rng),
                             seed=seed, sims=sims, give_F=rng.random() < 0.5)
                elif kind == 'black':
                    a = dict(F=rng.uniform(-0.005, 0.08), shift=rng.choice([0.0, 0.02, 0.03]), tau=rng.uniform(0.1, 5),
                             vol=rng.uniform(0.05, 0.6), **strikes(rng), seed=seed, sims=sims,
                             af=rng.choice([1, rng.uniform(0.1, 5)]))
                    a['F'] = max(a['F'], 0.004 - a['shift'])
                elif kind == 'bach':
                    a = dict(F=rng.uniform(-0.02, 0.08), tau=rng.uniform(0.1, 5), vol=rng.uniform(0.002, 0.02), **strikes(rng),
                             seed=seed, sims=sims, af=rng.choice([1, rng.uniform(0.1, 5)]))
                elif kind == 'heston':
                    tau = rng.uniform(0.1, 2.0)
                    a = dict(S0=level(rng, 120), tau=tau, r=rng.uniform(-0.01, 0.08), q=rng.uniform(-0.01, 0.08),
                             cp=rng.choice([1, -1]), v0=rng.uniform(0.004, 0.15), vv=rng.uniform(0.1, 0.7), kappa=rng.uniform(0.5, 5),
                             theta=rng.uniform(0.004, 0.15), rho=rng.uniform(-0.85, 0.85), m=rng.uniform(-1.2, 1.2), seed=seed,
                             sims=sims, n=max(6, int(24 * tau)), method=rng.choice(sorted(HESTON_TOL)))
                    if a['method'].startswith('heston_carr'):
                        a['cp'], a['rho'] = 1, -abs(a['rho'])
                elif kind in ('hw', 'zbo', 'swaption'):
                    a = dict(tau=rng.choice([0.5, 1.0, 2.0, rng.uniform(0.3, 3)]), n=rng.choice([30, 60]), seed=seed, sims=sims,
                             method=rng.choice(['exact', 'exact', 'euler', 'rk4']) if kind == 'hw' else 'exact')
                    if kind != 'hw':
                        a.update(cp=rng.choice([1, -1]), m=rng.uniform(-1.2, 1.2), tenor=rng.choice([0.25, 0.5, 1.0, 2.0, rng.uniform(0.1, (last - 0.01 - a['tau']) / (3 if kind == 'swaption' else 1))]))
                        a['tenor'] = min(a['tenor'], (last - 0.01 - a['tau']) / (3 if kind == 'swaption' else 1))
                    if kind == 'swaption':
                        a.update(self.swap_legs(rng, a['tau'], a.pop('tenor'), last - 0.005))
                else:
                    u = rng.choice([1, 1, 0.001, 1000])
                    T, spd = rng.choice([3, 6, 10]), rng.choice([1, 2, 4])
                    a = dict(T=T, spd=spd, sims=rng.choice([1500, 3000]), alpha=rng.uniform(0.005, 0.3), sigma=rng.uniform(0.01, 0.15),
                             px=[u * rng.uniform(30, 60) for _ in range(T + 1)])
                ops.append({'id': f'o{k}', 'name': kind, 'args': a})
            clients.append(ops)
        kinds = [x for x in ('cancel', 'memory', 'deadline') if rng.random() < 0.5] if rng.random() < 0.4 else []
        return {'world': world, 'clients': clients, 'sched': gen_schedule(rng), 'faults': gen_faults(rng, clients, kinds, 0.2)}

    @staticmethod
    def swap_legs(rng, tau, tenor, last):
        """Coupon times, their year fractions, and when the notional is paid: with the last coupon, a little later, or earlier."""
        n = rng.choice([2, 3, 3, 4, 6])
        step = min(tenor, (last - tau) / n * 0.95)
        uneven = rng.random() < 0.5
        gaps = [step * (rng.uniform(0.6, 1.0) if uneven else 1.0) for _ in range(n)]
        times = [tau + sum(gaps[:i + 1]) for i in range(n)]
        dcf = [g * (rng.uniform(0.97, 1.04) if uneven else 1.0) for g in gaps]
        room = last - times[-1]
        extra = rng.choice([0.0, 0.0, 2 / 365, rng.uniform(0.0, 0.1), rng.uniform(0.0, 0.5), -rng.uniform(0.0, 0.9) * gaps[-1]])
        return {'times': times, 'dcf': dcf, 'end': times[-1] + min(extra, room), 'notional': rng.choice([1.0, 1.0, 1e6, rng.uniform(0.1, 50)])}

    def setup(self):
        import frm.pricing_engine.heston as h
        for m in HESTON_TOL:   # compile once, before any fork
            warm(lambda: h.heston_price_vanilla_european(S0=1.0, tau=0.5, r=0.01, q=0.02, cp=1, K=1.0, var0=0.02, vv=0.3, kappa=1.0,
                                                         theta=0.03, rho=-0.2, lambda_=0, pricing_method=m))

    def build(self, plan):
        from frm.pricing_engine.hw1f import HullWhite1Factor
        w = plan['world']
        hw = HullWhite1Factor(zero_curve=zero_curve(w['curve']), mean_rev_lvl=w['hw'][0], vol=w['hw'][1])
        if any(op['name'] == 'swaption' for c in plan['clients'] for op in c):
            with np.errstate(all='ignore'):
                hw.setup_theta(num=200)
        return hw

    @staticmethod
    def tape(steps, rv, sims, seed):
        from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
        return generate_rand_nbs(nb_steps=steps, nb_rand_vars=rv, nb_simulations=sims, apply_antithetic_variates=True, random_seed=seed)

    # -- operations: return small summaries only
    def op_gk(self, hw, S0, dts, rd, rf, vol, cp, m, seed, sims, give_F):
        from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price
        from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
        w = gk_effective(dts, rd, rf, vol, S0, m)
        z = self.tape(len(dts), 1, sims, seed)
        paths = simulate_gbm_path(initial_px=np.array([S0]), drift=np.array(rd) - np.array(rf), forward_volatility=np.array(vol),
                                  timestep_length=np.array(dts), rand_nbs=z)
        S = np.asarray(paths)[-1, 0, :]
        px = garman_kohlhagen_price(**{k: np.full(len(cp), x) for k, x in (('S0', S0), ('tau', w['tau']), ('r_d', w['rd']), ('r_f', w['rf']),
                                                                           ('vol', w['vol']))},
                                    cp=np.array(cp), K=w['K'], F=np.full(len(cp), w['F']) if give_F else None, intrinsic_time_split=True)
        ln = np.log(S)
        return {'px': np.asarray(px['price'], float), 'split': np.asarray(px['intrinsic'] + px['time'], float),
                'mc': [pair_stats(math.exp(-w['rd'] * w['tau']) * np.maximum(c * (S - k), 0)) for c, k in zip(cp, w['K'])], 'fwd': pair_stats(S),
                'var': float(ln.var()), 'mean': float(ln.mean())}

    def op_black(self, hw, F, shift, tau, vol, cp, m, seed, sims, af):
        from frm.pricing_engine.black76_bachelier import black76_price
        from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
        K = (F + shift) * np.exp(np.array(m) * vol * math.sqrt(tau)) - shift
        z = self.tape(2, 1, sims, seed)
        S = np.asarray(simulate_gbm_path(initial_px=np.array([F + shift]), drift=np.zeros(2), forward_volatility=np.array([vol, vol]),
                                         timestep_length=np.array([tau / 2, tau / 2]), rand_nbs=z))[-1, 0, :] - shift
        px = black76_price(F=F, tau=tau, cp=np.array(cp), K=K, vol_sln=vol, ln_shift=shift, annuity_factor=af)['price']
        return {'px': np.asarray(px, float), 'fwd': pair_stats(S),
                'mc': [pair_stats(af * np.maximum(c * (S - k), 0)) for c, k in zip(cp, K)]}

    def op_bach(self, hw, F, tau, vol, cp, m, seed, sims, af):
        from frm.pricing_engine.black76_bachelier import bachelier_price
        K = F + np.array(m) * vol * math.sqrt(tau)
        z = self.tape(4, 1, sims, seed)[:, 0, :]
        S = F + vol * math.sqrt(tau / 4) * z.sum(axis=0)
        px = bachelier_price(F=F, tau=tau, cp=np.array(cp), K=K, vol_n=vol, annuity_factor=af)['price']
        return {'px': np.asarray(px, float), 'fwd': pair_stats(S),
                'mc': [pair_stats(af * np.maximum(c * (S - k), 0)) for c, k in zip(cp, K)]}

    def op_heston(self, hw, S0, tau, r, q, cp, v0, vv, kappa, theta, rho, m, seed, sims, n, method):
        import frm.pricing_engine.heston as h
        F = S0 * math.exp((r - q) * tau)
        K = F * math.exp(m * math.sqrt(max(v0, theta) * tau))
        with np.errstate(all='ignore'):
            x = h.heston_simulate(S0, r - q, v0, vv, kappa, theta, rho, tau, self.tape(n, 2, sims, seed))
            px = h.heston_price_vanilla_european(S0=S0, tau=tau, r=r, q=q, cp=cp, K=K, var0=v0, vv=vv, kappa=kappa, theta=theta,
                                                 rho=rho, lambda_=0, pricing_method=method)
        S = x[-1, 0, :]
        return {'px': float(np.squeeze(px)), 'mc': pair_stats(math.exp(-r * tau) * np.maximum(cp * (S - K), 0)), 'fwd': pair_stats(S),
                'var': pair_stats(x[-1, 1, :])}

    def _hw(self, hw, tau, n, seed, sims, method):
        with np.errstate(all='ignore'):
            return hw.simulate(tau=tau, nb_steps=n, nb_simulations=sims, flag_apply_antithetic_variates=True, random_seed=seed, method=method)

    def op_hw(self, hw, tau, n, seed, sims, method):
        r = self._hw(hw, tau, n, seed, sims, method)
        D = r['sim_dsc_factor']
        idx = [n // 3, n // 2, n]
        R = r['R'][-1]
        return {'t': [float(r['years_grid'][i]) for i in idx], 'df': [pair_stats(D[i]) for i in idx],
                'avg': [float(r['averages_df']['discount_factor'].iloc[i]) for i in idx],
                'curve': [float(np.squeeze(hw.zero_curve.get_discount_factors(years=float(r['years_grid'][i])))) for i in idx],
                'rate_mean': pair_stats(R), 'rate_var': float(R.var())}

    def op_zbo(self, hw, tau, n, seed, sims, method, cp, m, tenor):
        S = tau + tenor
        P_T, P_S = (float(np.squeeze(hw.zero_curve.get_discount_factors(years=x))) for x in (tau, S))
        a, s = hw.mean_rev_lvl, hw.vol
        sp = s * math.sqrt(-math.expm1(-2 * a * tau) / (2 * a)) * -math.expm1(-a * tenor) / a
        K = P_S / P_T * math.exp(m * sp)
        px = float(np.squeeze(hw.price_zero_coupon_bond_option(option_expiry=tau, bond_maturity=S, K=K, cp=cp)))
        k = (1 / K - 1) / tenor
        opt = float(np.squeeze(hw.price_optionlet(effective_years=tau, termination_years=S, K=k, cp=cp)))
        r = self._hw(hw, tau, n, seed, sims, method)
        P = np.asarray(hw.calc_discount_factor_by_solving_ode_2(tau, S, r['R'][-1])).ravel()
        D = r['sim_dsc_factor'][-1]
        pay = D * np.maximum(cp * (P - K), 0)
        pay_o = D * P * np.maximum(cp * ((1 / P - 1) / tenor - k), 0) * tenor
        return {'px': px, 'mc': pair_stats(pay), 'optionlet': opt, 'mc_o': pair_stats(pay_o), 'K': K, 'k': k,
                'bond': pair_stats(D * P)}

    def op_swaption(self, hw, tau, n, seed, sims, method, cp, m, times, dcf, end, notional):
        P = [float(np.squeeze(hw.zero_curve.get_discount_factors(years=float(x)))) for x in [tau, *times, end]]
        par = (P[0] - P[-1]) / sum(d * p for d, p in zip(dcf, P[1:-1]))
        c = max(0.001, par + m * hw.vol * math.sqrt(tau))
        px = float(np.squeeze(hw.price_swaption(swaption_expiry=tau, coupon_payment_times=np.array(times), coupon_year_fractions=np.array(dcf),
                                                notional_payment_time=end, fixed_rate=c, is_payer=cp == 1, notional=notional)))
        r = self._hw(hw, tau, n, seed, sims, method)
        R, D = r['R'][-1], r['sim_dsc_factor'][-1]
        fixed = sum(w * np.asarray(hw.calc_discount_factor_by_solving_ode_2(tau, float(t), R)).ravel() for w, t in zip([c * d for d in dcf] + [1], [*times, end]))
        return {'px': px / notional, 'mc': pair_stats(D * np.maximum(cp * (1 - fixed), 0)), 'c': c}

    def op_cs(self, hw, T, spd, sims, alpha, sigma, px):
        from frm.pricing_engine.clewlow_strickland_1_factor import clewlow_strickland_1_factor_simulate
        out = clewlow_strickland_1_factor_simulate(np.column_stack([np.arange(T + 1.0), px]), sims, spd, T, alpha, sigma)
        ln = np.log(out)
        return {'mean': ln.mean(axis=1), 'var': ln.var(axis=1, ddof=1), 'avg': out.mean(axis=1), 'sd': out.std(axis=1)}

    # -- oracle
    def expect(self, plan, solo):
        spec = plan['world']['curve']
        curve = refs.Curve(spec['years'], np.exp(-np.array(spec['rates']) * np.array(spec['years'])), spec['interp'])
        for ci, op, rec in solo_ok(plan, solo):
            what = f'{op["name"]} {op["args"]}'
            if rec['status'] != 'ok':
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{rec["exc"]} {rec["msg"]}: {what}'}
                continue
            for cls, text in getattr(self, 'check_' + op['name'])(op['args'], plain(rec['value']), curve, plan['world']['hw']):
                yield {'cls': cls, 'op': op['id'], 'detail': f'{text}: {what}'}

    @staticmethod
    def mc(name, px, stats, allowance):
        m, se = stats
        if not abs(m - px) <= 6 * se + allowance:
            yield 'simulation-disagrees', f'{name} is {px!r}, {(m - px) / max(se, 1e-300):.1f} standard errors from the simulated {m!r} ± {se:.3g}'

    @staticmethod
    def exact(name, got, want, tol):
        if not abs(got - want) <= tol:
            yield 'closed-form-wrong', f'{name} is {got!r}, the exact value is {want!r}'

    def prices(self, a, v, want, tol, allowance):
        if v['px'].shape != (len(want),):
            yield 'closed-form-wrong', f'{len(want)} strikes priced, answer of shape {v["px"].shape}'
            return
        for i, (p, w, st) in enumerate(zip(v['px'], want, v['mc'])):
            yield from self.exact(f'price {i}', float(p), w, tol)
            yield from self.mc(f'price {i}', float(p), st, allowance)

    def check_gk(self, a, v, curve, hw):
        w = gk_effective(a['dts'], a['rd'], a['rf'], a['vol'], a['S0'], a['m'])
        yield from self.prices(a, v, [refs.gk_price(a['S0'], w['F'], w['rd'], w['tau'], c, k, w['vol']) for c, k in zip(a['cp'], w['K'])],
                               1e-9 * a['S0'], 1e-4 * a['S0'])
        for p, q in zip(v['px'], v['split']):
            yield from self.exact('intrinsic plus time value', float(q), float(p), 1e-12 * a['S0'])
        yield from self.mc('the forward', w['F'], v['fwd'], 1e-6 * a['S0'])
        tv = w['vol'] ** 2 * w['tau']
        n = a['sims'] / 2
        if abs(v['var'] / tv - 1) > 6 * math.sqrt(2 / n):
            yield 'simulation-disagrees', f'log price variance {v["var"]!r}, model {tv!r}'
        mean = math.log(w['F']) - tv / 2
        if abs(v['mean'] - mean) > 1e-9 * (1 + abs(mean)):   # mirror pairs cancel exactly
            yield 'simulation-disagrees', f'mean log price {v["mean"]!r}, model {mean!r}'

    def check_black(self, a, v, curve, hw):
        want = [a['af'] * refs.black76(a['F'], a['tau'], 0.0, c, (a['F'] + a['shift']) * math.exp(m * a['vol'] * math.sqrt(a['tau'])) - a['shift'],
                                       a['vol'], a['shift']) for c, m in zip(a['cp'], a['m'])]
        yield from self.prices(a, v, want, 1e-11 * max(1, a['af']), 1e-6 * a['af'])
        yield from self.mc('the forward', a['F'], v['fwd'], 1e-7)

    def check_bach(self, a, v, curve, hw):
        want = [a['af'] * refs.bachelier(a['F'], a['tau'], 0.0, c, a['F'] + m * a['vol'] * math.sqrt(a['tau']), a['vol'])
                for c, m in zip(a['cp'], a['m'])]
        yield from self.prices(a, v, want, 1e-11 * max(1, a['af']), 1e-7 * a['af'])
        yield from self.mc('the forward', a['F'], v['fwd'], 1e-9)

    def check_heston(self, a, v, curve, hw):
        F = a['S0'] * math.exp((a['r'] - a['q']) * a['tau'])
        K = F * math.exp(a['m'] * math.sqrt(max(a['v0'], a['theta']) * a['tau']))
        want = refs.heston_price(a['S0'], a['tau'], a['r'], a['q'], a['cp'], K, a['v0'], a['vv'], a['kappa'], a['theta'], a['rho'])
        yield from self.exact('the price', v['px'], want, HESTON_TOL[a['method']] * a['S0'])
        yield from self.mc('the price', want, v['mc'], 0.004 * a['S0'])
        yield from self.mc('the forward', F, v['fwd'], 0.002 * a['S0'])
        ev = a['theta'] + (a['v0'] - a['theta']) * math.exp(-a['kappa'] * a['tau'])
        yield from self.mc('the expected variance', ev, v['var'], 1e-4)

    def check_hw(self, a, v, curve, hw):
        for t, st, avg, c in zip(v['t'], v['df'], v['avg'], v['curve']):
            want = float(curve.discount(t))
            allow = 5e-4 if a['method'] == 'exact' else 1.5e-2 * t * 30 / a['n'] * max(1.0, a['tau'])
            yield from self.mc(f'the discount factor to {t:.3f} years', want, st, allow)
            if abs(avg - st[0]) > 1e-12:
                yield 'simulation-disagrees', f'reported average discount factor {avg!r}, the paths average {st[0]!r}'
        alpha, sigma = hw
        if a['method'] == 'exact':
            var = sigma ** 2 / (2 * alpha) * -math.expm1(-2 * alpha * a['tau'])
            if abs(v['rate_var'] / var - 1) > 6 * math.sqrt(2 / (a['sims'] / 2)):
                yield 'simulation-disagrees', f'variance of the simulated rate {v["rate_var"]!r}, model {var!r}'
            t = a['tau']
            mean = float(curve.fwd(np.array(t))) + sigma ** 2 / (2 * alpha ** 2) * math.expm1(-alpha * t) ** 2
            yield from self.mc('the expected rate', mean, v['rate_mean'], 2e-4)

    def check_zbo(self, a, v, curve, hw):
        T, S = a['tau'], a['tau'] + a['tenor']
        want = refs.hw_zbo(float(curve.discount(T)), float(curve.discount(S)), hw[0], hw[1], T, S, v['K'], a['cp'])
        yield from self.exact('the bond option price', v['px'], want, 1e-8)
        put = refs.hw_zbo(float(curve.discount(T)), float(curve.discount(S)), hw[0], hw[1], T, S, 1 / (1 + v['k'] * a['tenor']), -a['cp'])
        yield from self.exact('the optionlet price', v['optionlet'], put * (1 + v['k'] * a['tenor']), 1e-8)
        yield from self.mc('the bond option price', v['px'], v['mc'], 1.5e-4)
        yield from self.mc('the optionlet price', v['optionlet'], v['mc_o'], 1.5e-4)
        yield from self.mc('the bond', float(curve.discount(S)), v['bond'], 5e-4)

    def check_swaption(self, a, v, curve, hw):
        alpha, sigma = hw
        T = a['tau']
        times = [*a['times'], a['end']]
        P_T, f_T = float(curve.discount(T)), float(curve.fwd(np.array(T)))
        flows = [v['c'] * d for d in a['dcf']] + [1.0]
        value = lambda r: sum(w * float(refs.hw_bond(P_T, float(curve.discount(t)), f_T, alpha, sigma, T, t, r)) for w, t in zip(flows, times)) - 1
        lo, hi = -2.0, 2.0
        for _ in range(200):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if value(mid) > 0 else (lo, mid)
        want = sum(w * refs.hw_zbo(P_T, float(curve.discount(t)), alpha, sigma, T, t,
                                   float(refs.hw_bond(P_T, float(curve.discount(t)), f_T, alpha, sigma, T, t, lo)), -a['cp'])
                   for w, t in zip(flows, times))
        yield from self.exact('the swaption price', v['px'], want, 2e-6)
        yield from self.mc('the swaption price', v['px'], v['mc'], 2e-4)

    def check_cs(self, a, v, curve, hw):
        h = 1.0 / a['spd']
        f = np.log(np.interp(np.arange(a['T'] * a['spd'] + 1) * h, np.arange(a['T'] + 1.0), a['px']))
        m, var = f[0], 0.0
        n = a['sims']
        for i in range(1, len(f)):
            m = m + (f[i] - f[i - 1]) + (a['alpha'] * (f[i - 1] - m) - 0.25 * a['sigma'] ** 2 * (1 + math.exp(-2 * a['alpha'] * (i - 1) * h))) * h
            var = var * (1 - a['alpha'] * h) ** 2 + a['sigma'] ** 2 * h
            if i % a['spd']:
                continue
            d = i // a['spd']
            se = math.sqrt(var / n)
            if abs(v['mean'][d] - m) > 6 * se:
                yield 'simulation-disagrees', f'day {d}: mean log price {v["mean"][d]!r}, model {m!r} ± {se:.3g}'
                return
            if abs(v['var'][d] / var - 1) > 6.5 * math.sqrt(2 / n):
                yield 'simulation-disagrees', f'day {d}: log price variance {v["var"][d]!r}, model {var!r}'
                return
            se_px = v['sd'][d] / math.sqrt(n)
            if abs(v['avg'][d] - a['px'][d]) > 6 * se_px + a['px'][d] * 0.5 * a['sigma'] ** 2 * a['T']:
                yield 'simulation-disagrees', f'day {d}: mean price {v["avg"][d]!r} ± {se_px:.3g}, forward {a["px"][d]!r}'
                return

    def probes(self, plan, solo, conc):
        out = {}
        for c in plan['clients']:
            for op in c:
                k = op['name'] + ' ' + str(op['args'].get('method', ''))
                out[k.strip()] = out.get(k.strip(), 0) + 1
        return out


def gk_effective(dts, rd, rf, vol, S0, m):
    dts, rd, rf, vol = map(np.array, (dts, rd, rf, vol))
    tau = float(dts.sum())
    w = {'tau': tau, 'rd': float((rd * dts).sum() / tau), 'rf': float((rf * dts).sum() / tau),
         'vol': float(math.sqrt((vol ** 2 * dts).sum() / tau))}
    w['F'] = S0 * math.exp((w['rd'] - w['rf']) * tau)
    w['K'] = w['F'] * np.exp(np.array(m) * w['vol'] * math.sqrt(tau))
    return w

PROP = C05
