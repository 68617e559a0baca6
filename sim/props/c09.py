"""C09: what a numerical solver gave up on never comes back as a plausible answer."""
import math

import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults, solo_ok, warm
from ..canon import plain, same
from .c05 import HESTON_TOL
from .c08 import strike_of

CONVENTIONS = ['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward']
SOLVING = ('black', 'bach', 'gk', 'n2s', 's2n', 'shift', 'strike', 'sabr', 'sabrs', 'alpha', 'quick', 'heston')


def gk_forward(a):
    return a['S0'] * math.exp((a['rd'] - a['rf']) * a['tau'])


def hagan(F, K, tau, alpha, beta, rho, nu, shift):
    """Hagan et al. 2002, formulas 2.17 and 2.18."""
    f, k = F + shift, K + shift
    b = 1 - beta
    m = (f * k) ** (b / 2)
    lg = math.log(f / k)
    z = nu / alpha * m * lg
    if abs(lg) < 1e-6:
        zx = 1.0
    else:
        zx = z / math.log((math.sqrt(1 - 2 * rho * z + z * z) + z - rho) / (1 - rho))
    top = alpha * zx / (m * (1 + b * b / 24 * lg ** 2 + b ** 4 / 1920 * lg ** 4))
    return top * (1 + (b * b / 24 * alpha ** 2 / m ** 2 + 0.25 * rho * beta * nu * alpha / m + (2 - 3 * rho * rho) / 24 * nu * nu) * tau)


QUICK = 2e-5   # relative accuracy of the expansion, times the fourth power of deviation or log-moneyness


class C09(Prop):
    id = 'C09'
    title = 'A failing solver never becomes a plausible answer'
    quick, thorough = 560, 40000
    rtol, atol = 0.0, 0.0
    fault_kinds = ('solver', 'cancel', 'memory', 'deadline')
    assumptions = ('log-normal volatilities 1% to 250%, normal volatilities 0.05% to 10%, expiries 1 week to 15 years',
                   'a price is reproduced when it matches to 0.0011% of itself or (currency options) 2e-6 of the spot; a delta to 1e-6')

    def setup(self):
        from .. import seams
        seams.install()
        import random
        rng = random.Random(5)
        for m in sorted(HESTON_TOL):
            a = self.gen_heston(rng)
            a['method'] = m
            if 'fft' not in m:
                warm(lambda: self.op_heston(None, **a))

    # -- workload
    def gen(self, rng, index):
        heston = rng.random() < 0.06
        mix = ['heston'] if heston else rng.sample(SOLVING[:-1], rng.randint(2, 6))
        clients, k = [], 0
        for c in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 2) if heston else rng.randint(2, 7)):
                k += 1
                kind = rng.choice(mix)
                ops.append({'id': f'o{k}', 'name': kind, 'args': getattr(self, 'gen_' + kind)(rng)} | ({'nofault': True} if kind == 'sabrs' else {}))
            clients.append(ops)
        # ask again later what a failing solver may have spoiled
        for ops in clients:
            for o in list(ops):
                if rng.random() < 0.4 and not heston:
                    k += 1
                    ops.append({'id': f'o{k}', 'name': o['name'], 'args': o['args'], 'nofault': True})
        kinds = ['solver'] * 3 + [x for x in ('cancel', 'memory', 'deadline') if rng.random() < 0.3]
        return {'clients': clients, 'sched': gen_schedule(rng),
                'faults': gen_faults(rng, clients, kinds, rng.choice([0.0, 0.3, 0.6, 0.9]))}

    @staticmethod
    def spoil_price(rng, X, hi):
        """Sometimes a quote no volatility can explain."""
        u = rng.random()
        if u < 0.04:
            return X * rng.uniform(0.05, 0.5), False
        if u < 0.08:
            return hi * rng.uniform(1.02, 3), False
        return X, True

    def gen_black(self, rng):
        n = rng.choice([1, 1, 1, 2, 4])
        shift = rng.choice([0.0, 0.0, 0.01, 0.03])
        vol, af = math.exp(rng.uniform(math.log(0.02), math.log(2.5))), rng.choice([1, rng.uniform(0.1, 10)])
        F, tau, cp, K = [], [], [], []
        for _ in range(n):
            f, t = rng.choice([rng.uniform(0.004, 0.12), rng.uniform(0.5, 150)]), math.exp(rng.uniform(math.log(0.02), math.log(15)))
            sd = vol * math.sqrt(t)
            k = max((f + shift) * math.exp(rng.uniform(-1.5, 1.5) * min(sd, 2)) - shift, 1e-4 - shift * 0.99)
            F.append(f), tau.append(t), cp.append(rng.choice([1, -1])), K.append(k)
        a = dict(F=F, tau=tau, cp=cp, K=K, shift=shift, af=af)
        a['X'] = self.black_sum(a, vol)
        a['real'] = True
        low = sum(af * max(0.0, c * (f - k)) for f, c, k in zip(F, cp, K))
        if a['X'] - low < 1e-3 * a['X'] or a['X'] < 1e-9:
            a['real'] = None  # no time value to solve from
        elif rng.random() < 0.06:
            a['X'], a['real'] = (low * rng.uniform(0.3, 0.98), False) if low > 0 and rng.random() < 0.5 else \
                (self.black_sum(a, 10.0) * rng.uniform(1.001, 2) + 1e-9, False)
        a['guess'] = rng.choice([0.1, 0.1, vol, 3.0, 0.01])
        return a

    @staticmethod
    def black_sum(a, vol):
        return sum(a['af'] * refs.black76(f, t, 0.0, c, k, vol, a['shift']) for f, t, c, k in zip(a['F'], a['tau'], a['cp'], a['K']))

    def gen_bach(self, rng):
        n = rng.choice([1, 1, 1, 2, 4])
        vol, af = math.exp(rng.uniform(math.log(0.0005), math.log(0.1))), rng.choice([1, rng.uniform(0.1, 10)])
        F, tau, cp, K = [], [], [], []
        for _ in range(n):
            f, t = rng.uniform(-0.02, 0.12), math.exp(rng.uniform(math.log(0.02), math.log(15)))
            F.append(f), tau.append(t), cp.append(rng.choice([1, -1])), K.append(f + rng.uniform(-1.5, 1.5) * vol * math.sqrt(t))
        a = dict(F=F, tau=tau, cp=cp, K=K, af=af)
        a['X'] = self.bach_sum(a, vol)
        a['real'] = True
        low = sum(af * max(0.0, c * (f - k)) for f, c, k in zip(F, cp, K))
        if a['X'] - low < 1e-3 * a['X'] or a['X'] < 1e-12:
            a['real'] = None
        elif rng.random() < 0.06:
            a['X'], a['real'] = (low * rng.uniform(0.3, 0.98), False) if low > 0 and rng.random() < 0.5 else \
                (self.bach_sum(a, 1.0) * rng.uniform(1.001, 2), False)
        a['guess'] = rng.choice([0.01, 0.01, vol, 0.3, 0.0005])
        return a

    @staticmethod
    def bach_sum(a, vol):
        return sum(a['af'] * refs.bachelier(f, t, 0.0, c, k, vol) for f, t, c, k in zip(a['F'], a['tau'], a['cp'], a['K']))

    def gen_gk(self, rng):
        vol = math.exp(rng.uniform(math.log(0.03), math.log(0.9)))
        a = dict(S0=math.exp(rng.uniform(math.log(0.003), math.log(30000)) if rng.random() < 0.25 else rng.uniform(math.log(0.4), math.log(160))), tau=math.exp(rng.uniform(math.log(0.02), math.log(8))),
                 rd=rng.uniform(-0.02, 0.12), rf=rng.uniform(-0.02, 0.12), cp=rng.choice([1, -1]))
        F, sd = gk_forward(a), vol * math.sqrt(a['tau'])
        a['K'] = F * math.exp(rng.uniform(-1.6, 1.6) * sd + 0.5 * sd * sd)
        a['X'] = refs.gk_price(a['S0'], F, a['rd'], a['tau'], a['cp'], a['K'], vol)
        low = math.exp(-a['rd'] * a['tau']) * max(0.0, a['cp'] * (F - a['K']))
        top = refs.gk_price(a['S0'], F, a['rd'], a['tau'], a['cp'], a['K'], 2.0)
        a['real'] = True
        if a['X'] - low < 1e-5 * a['S0']:
            a['real'] = None
        elif rng.random() < 0.1:
            bound = a['S0'] * math.exp(-a['rf'] * a['tau']) if a['cp'] > 0 else a['K'] * math.exp(-a['rd'] * a['tau'])
            a['X'], a['real'] = (low - 0.01 * a['S0'], False) if rng.random() < 0.5 else (bound * rng.uniform(1.01, 2), False)
        elif rng.random() < 0.05:
            a['X'], a['real'] = low + (top - low) * rng.uniform(0.9, 0.99), None
        a['guess'] = rng.choice([vol, vol * rng.uniform(0.6, 1.6), 0.1, 0.1, 1.5])
        return a

    def gen_n2s(self, rng):
        shift = rng.choice([0.0, 0.0, 0.01, 0.03])
        F, tau = rng.uniform(0.005, 0.1), math.exp(rng.uniform(math.log(0.05), math.log(15)))
        vol = (F + shift) * rng.uniform(0.05, 0.7) / max(1.0, math.sqrt(tau) / 1.5)
        K = F if rng.random() < 0.2 else max(F + rng.uniform(-1.3, 1.3) * vol * math.sqrt(tau), (F + shift) * 0.15 - shift)
        return dict(F=F, tau=tau, K=K, vol=vol, shift=shift)

    def gen_s2n(self, rng):
        shift = rng.choice([0.0, 0.0, 0.01, 0.03])
        F, tau = rng.uniform(0.005, 0.1), math.exp(rng.uniform(math.log(0.05), math.log(15)))
        vol = rng.uniform(0.05, 0.8) / max(1.0, math.sqrt(tau) / 1.5)
        K = F if rng.random() < 0.2 else (F + shift) * math.exp(rng.uniform(-1.3, 1.3) * vol * math.sqrt(tau)) - shift
        return dict(F=F, tau=tau, K=K, vol=vol, shift=shift)

    def gen_shift(self, rng):
        a = self.gen_s2n(rng)
        a['to'] = rng.choice([0.0, 0.005, 0.01, 0.03, 0.05])
        if a['K'] + a['to'] < 0.1 * (a['F'] + a['to']):
            a['K'] = a['F'] * rng.uniform(0.8, 1.2)
        return a

    def gen_strike(self, rng):
        n = rng.choice([1, 2, 3, 5])
        a = dict(S0=math.exp(rng.uniform(math.log(0.003), math.log(30000)) if rng.random() < 0.25 else rng.uniform(math.log(0.4), math.log(160))), tau=math.exp(rng.uniform(math.log(0.02), math.log(5))),
                 rd=rng.uniform(-0.01, 0.08), rf=rng.uniform(-0.01, 0.08), conv=rng.choice(CONVENTIONS + CONVENTIONS[2:]))
        a['delta'] = [rng.choice([1, -1]) * rng.uniform(0.04, 0.45) if rng.random() < 0.85 else 0.5 for _ in range(n)]
        a['vol'] = [rng.uniform(0.03, 0.35) for _ in range(n)]
        a['give_F'] = rng.random() < 0.4
        return a

    def gen_sabr(self, rng):
        shift = rng.choice([0.0, 0.01, 0.03])
        F, tau = rng.uniform(0.01, 0.08), math.exp(rng.uniform(math.log(0.1), math.log(10)))
        beta = rng.choice([0.0, 0.3, 0.5, 0.7, 1.0])
        rho, nu = rng.uniform(-0.7, 0.5), rng.uniform(0.1, 0.9) / max(1.0, math.sqrt(tau / 2))
        atm = rng.uniform(0.1, 0.5)
        alpha = atm * (F + shift) ** (1 - beta)
        w = 0.25 * math.sqrt(min(tau, 4)) * rng.uniform(0.4, 1)
        K = [(F + shift) * math.exp(x * w) - shift for x in rng.choice([[-1, 0, 1], [-1.5, -0.7, 0, 0.7, 1.5], [-2, -1, -0.5, 0, 0.5, 1, 2]])]
        K[len(K) // 2] = F
        return dict(F=F, tau=tau, K=K, vols=[hagan(F, k, tau, alpha, beta, rho, nu, shift) for k in K], shift=shift,
                    beta=beta if rng.random() < 0.8 else None, truth=[alpha, beta, rho, nu])

    def gen_sabrs(self, rng):
        return {'smiles': [self.gen_sabr(rng) for _ in range(6)]}

    def gen_alpha(self, rng):
        n, shift = rng.choice([1, 1, 2, 4]), rng.choice([0.0, 0.01, 0.03])
        rows = []
        for _ in range(n):
            F, tau = rng.uniform(0.01, 0.08), math.exp(rng.uniform(math.log(0.1), math.log(10)))
            nu = rng.uniform(0.1, 0.8) / max(1.0, math.sqrt(tau / 2))
            K = F if rng.random() < 0.2 else (F + shift) * math.exp(rng.uniform(-1.2, 1.2) * 0.25 * math.sqrt(min(tau, 4))) - shift
            rows.append([tau, F, rng.choice([0.0, 0.3, 0.5, 0.7, 1.0, rng.random()]), rng.uniform(-0.7, 0.5), nu, rng.uniform(0.1, 0.4), K])
        return {'rows': rows, 'shift': shift, 'strip': [rows[0][-1]] + [(rows[0][1] + shift) * math.exp(rng.uniform(-0.3, 0.3)) - shift for _ in range(rng.choice([0, 1, 3]))]}

    def gen_quick(self, rng):
        a = self.gen_s2n(rng)
        a['K'] = a['F'] if rng.random() < 0.1 else (a['F'] + a['shift']) * math.exp(rng.uniform(-1, 1) * 0.8) - a['shift']
        if abs(a['K'] - a['F']) < 1e-9:
            a['K'] *= 1.001
        return a

    def gen_heston(self, rng):
        atm = rng.uniform(0.06, 0.25)
        rr, bf = rng.uniform(-0.015, 0.015), rng.uniform(0.001, 0.005)
        d = rng.choice([[0.25], [0.1, 0.25]])
        vols, delta = [], []
        for x in d:
            w = (0.5 - x) / 0.25
            vols.append(atm + bf * w * w - rr * w / 2), delta.append(-x)
        vols.append(atm), delta.append(0.5)
        for x in reversed(d):
            w = (0.5 - x) / 0.25
            vols.append(atm + bf * w * w + rr * w / 2), delta.append(x)
        return dict(S0=rng.uniform(0.5, 1.6), r=rng.uniform(0.0, 0.05), q=rng.uniform(0.0, 0.05), tau=rng.uniform(0.15, 2.0), vols=vols, delta=delta,
                    conv=rng.choice(['regular_spot', 'regular_forward']),
                    method=rng.choice(['heston_cosine', 'heston_cosine', 'heston_1993', 'heston_lipton', 'heston_carr_madan_gauss_kronrod_quadrature']))

    # -- operations
    def op_black(self, world, F, tau, cp, K, shift, af, X, guess, real):
        from frm.pricing_engine.black76_bachelier import black76_solve_implied_vol
        return black76_solve_implied_vol(F=np.array(F), tau=np.array(tau), cp=np.array(cp), K=np.array(K), ln_shift=shift, X=X,
                                         vol_sln_guess=guess, annuity_factor=af)

    def op_bach(self, world, F, tau, cp, K, af, X, guess, real):
        from frm.pricing_engine.black76_bachelier import bachelier_solve_implied_vol
        return bachelier_solve_implied_vol(F=np.array(F), tau=np.array(tau), cp=np.array(cp), K=np.array(K), X=X, vol_n_guess=guess, annuity_factor=af)

    def op_gk(self, world, S0, tau, rd, rf, cp, K, X, guess, real):
        from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_implied_vol
        return garman_kohlhagen_solve_implied_vol(S0=S0, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, X=X, vol_guess=guess)

    def op_n2s(self, world, F, tau, K, vol, shift):
        from frm.pricing_engine.black76_bachelier import normal_vol_to_black76_sln
        return normal_vol_to_black76_sln(F=F, tau=tau, K=K, vol_n=vol, ln_shift=shift)

    def op_s2n(self, world, F, tau, K, vol, shift):
        from frm.pricing_engine.black76_bachelier import black76_sln_to_normal_vol
        return black76_sln_to_normal_vol(F=F, tau=tau, K=K, vol_sln=vol, ln_shift=shift)

    def op_shift(self, world, F, tau, K, vol, shift, to):
        from frm.pricing_engine.black76_bachelier import shift_black76_vol
        return shift_black76_vol(F=F, tau=tau, K=K, vol_sln=vol, from_ln_shift=shift, to_ln_shift=to)

    def op_strike(self, world, S0, tau, rd, rf, delta, vol, conv, give_F):
        from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_strike_from_delta
        F = S0 * math.exp((rd - rf) * tau) if give_F else None
        return garman_kohlhagen_solve_strike_from_delta(S0=S0, tau=tau, r_d=rd, r_f=rf, vol=np.array(vol), signed_delta=np.array(delta),
                                                        delta_convention=conv, F=F)

    def op_sabr(self, world, F, tau, K, vols, shift, beta, truth):
        from frm.pricing_engine.sabr import fit_sabr_params_to_sln_smile
        p, res = fit_sabr_params_to_sln_smile(tau=tau, F=F, K=np.array(K), vols_sln=np.array(vols), ln_shift=shift, beta_overide=beta)
        return [float(x) for x in p]

    def op_sabrs(self, world, smiles):
        out = []
        for a in smiles:
            try:
                out.append(self.op_sabr(world, **a))
            except ValueError:
                out.append(None)
        return out

    def op_alpha(self, world, rows, shift, strip):
        from frm.pricing_engine.sabr import calc_sln_vol_for_strike_from_sabr_params, solve_alpha_from_sln_vol
        A = [float(solve_alpha_from_sln_vol(tau=t, F=F, beta=b, rho=r, volvol=v, vol_sln_atm=atm, ln_shift=shift)) for t, F, b, r, v, atm, K in rows]
        t, F, b, r, v, atm, K = (np.array(x) for x in zip(*rows))
        each = calc_sln_vol_for_strike_from_sabr_params(tau=t, F=F, alpha=np.array(A), beta=b, rho=r, volvol=v, K=K, ln_shift=shift)
        t, F, b, r, v, atm, K = rows[0]
        line = calc_sln_vol_for_strike_from_sabr_params(tau=t, F=F, alpha=A[0], beta=b, rho=r, volvol=v, K=np.array(strip), ln_shift=shift)
        return {'alpha': A, 'each': [float(x) for x in np.atleast_1d(each)], 'strip': [float(x) for x in np.atleast_1d(line)]}

    def op_quick(self, world, F, tau, K, vol, shift):
        from frm.pricing_engine.black76_bachelier import black76_sln_to_normal_vol_analytical, normal_vol_atm_to_black76_sln_atm
        n = float(black76_sln_to_normal_vol_analytical(F=F, tau=tau, K=K, vol_sln=vol, ln_shift=shift))
        return [n, float(normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol * (F + shift) * 0.9, ln_shift=shift))]

    def op_heston(self, world, S0, r, q, tau, vols, delta, conv, method):
        from frm.pricing_engine.heston import heston_calibrate_vanilla_smile
        out = heston_calibrate_vanilla_smile(volatility_quotes=np.array(vols), delta_of_quotes=np.array(delta), S0=S0, r=r, q=q, tau=tau,
                                             cp=np.where(np.array(delta) < 0, -1, 1), delta_convention=conv, pricing_method=method)
        if out is None:
            return None
        var0, vv, kappa, theta, rho, lam, IV, SSE = out
        return {'p': [float(x) for x in (var0, vv, kappa, theta, rho, lam)], 'IV': np.asarray(IV, float), 'SSE': float(SSE)}

    def op_tol(self, op):
        return (1e-5, 1e-7) if op['name'] == 'heston' else (0.0, 0.0)

    # -- oracle
    def judge(self, op, value, healthy):
        """What is wrong with this answer, or None. Not finite counts as a visible failure. healthy: solvable; None: a solver failed."""
        a, name, value = op['args'], op['name'], plain(value)
        if value is None:
            return 'no answer where one exists' if healthy else None
        if name == 'heston':
            return self.judge_heston(a, value, healthy)
        if name == 'alpha':
            return self.judge_alpha(a, value)
        if name == 'sabrs':
            return self.judge_sabrs(a, value, healthy)
        v = np.atleast_1d(np.asarray(value, float))
        if name == 'strike':
            return self.judge_strike(a, v, healthy)
        if name == 'sabr':
            return self.judge_sabr(a, v, healthy)
        if name == 'quick':
            return self.judge_quick(a, [float(x) for x in v])
        if v.size != 1:
            return f'{v.size} answers to one question'
        vol = float(v[0])
        if not math.isfinite(vol):
            return f'{vol} where a volatility exists' if healthy and a.get('real', True) else None
        if not vol > 0:
            return f'volatility {vol}' if a.get('real', True) is not None or vol < 0 else None
        if name == 'black':
            got, want, unit = self.black_sum(a, vol), a['X'], 0.0
        elif name == 'bach':
            got, want, unit = self.bach_sum(a, vol), a['X'], 0.0
        elif name == 'gk':
            got, want, unit = refs.gk_price(a['S0'], gk_forward(a), a['rd'], a['tau'], a['cp'], a['K'], vol), a['X'], a['S0']
        elif name == 'n2s':
            got, want, unit = refs.black76(a['F'], a['tau'], 0, 1, a['K'], vol, a['shift']), refs.bachelier(a['F'], a['tau'], 0, 1, a['K'], a['vol']), 0.0
        elif name == 's2n':
            got, want, unit = refs.bachelier(a['F'], a['tau'], 0, 1, a['K'], vol), refs.black76(a['F'], a['tau'], 0, 1, a['K'], a['vol'], a['shift']), 0.0
        else:
            got, want, unit = refs.black76(a['F'], a['tau'], 0, 1, a['K'], vol, a['to']), refs.black76(a['F'], a['tau'], 0, 1, a['K'], a['vol'], a['shift']), 0.0
        if not abs(got - want) <= 1.1e-5 * abs(want) + 2e-6 * unit + 1e-15:
            return f'volatility {vol!r} means a price of {got!r}, not {want!r}'
        return None

    def judge_strike(self, a, K, healthy):
        if len(K) != len(a['delta']):
            return f'{len(K)} strikes for {len(a["delta"])} deltas'
        F = gk_forward(a)
        for k, d, v in zip(K, a['delta'], a['vol']):
            want = strike_of(F, a['tau'], a['rf'], v, d, a['conv'])
            if not math.isfinite(k):
                if healthy and want is not None and math.isfinite(want):
                    return f'strike {k} where {want} has the delta {d}'
                continue
            if abs(d) == 0.5:
                if not abs(k / want - 1) <= 1e-9:
                    return f'delta-neutral strike {k!r}, not {want!r}'
                continue
            sq, cp = v * math.sqrt(a['tau']), (1 if d > 0 else -1)
            df = math.exp(-a['rf'] * a['tau']) if a['conv'].endswith('spot') else 1.0
            if not k > 0:
                return f'strike {k}'
            if a['conv'].startswith('regular'):
                got = df * cp * float(refs.ndtr(cp * (math.log(F / k) + 0.5 * sq * sq) / sq))
            else:
                got = df * cp * k / F * float(refs.ndtr(cp * (math.log(F / k) - 0.5 * sq * sq) / sq))
            if not abs(got - d) <= 1e-6:
                return f'strike {k!r} has delta {got!r}, not {d!r}'
            if want is not None and not abs(k / want - 1) <= 1e-5:
                return f'strike {k!r} is on the wrong branch, {want!r} has the delta {d!r}'
        return None

    def judge_sabr(self, a, p, healthy):
        if p.shape != (4,):
            return f'{p} for four parameters'
        if not np.isfinite(p).all():
            return 'no finite parameters' if healthy else None
        alpha, beta, rho, nu = (float(x) for x in p)
        if not alpha > 0 or abs(rho) > 1 or not 0 <= beta <= 1 or not nu > 0 or (a['beta'] is not None and beta != a['beta']):
            return f'parameters {p.tolist()}'
        mid = len(a['K']) // 2
        atm = hagan(a['F'], a['F'], a['tau'], alpha, beta, rho, nu, a['shift'])
        if not abs(atm - a['vols'][mid]) <= 1e-8:
            return f'parameters {p.tolist()} give {atm!r} at the money, quoted {a["vols"][mid]!r}'
        fit = [hagan(a['F'], k, a['tau'], alpha, beta, rho, nu, a['shift']) for k in a['K']]
        worst = max(abs(x - y) for x, y in zip(fit, a['vols']))
        # the optimiser works to a loose tolerance by itself; next to a failing one only a real fit will do
        start = [hagan(a['F'], k, a['tau'], a['vols'][mid] * (a['F'] + a['shift']) ** (1 - beta), beta, 0.0, 0.1, a['shift']) for k in a['K']]
        loose = max(abs(x - y) for x, y in zip(start, a['vols'])) * 1.5 + 0.01
        if not worst <= (loose if healthy is not None else 0.006):
            return f'parameters {p.tolist()} give {fit}, quoted {a["vols"]}'
        return None

    def judge_sabrs(self, a, v, healthy):
        best = 1.0
        for x, p in zip(a['smiles'], v):
            if p is None:
                continue
            bad = self.judge_sabr(x, np.array(p), healthy)
            if bad:
                return bad
            alpha, beta, rho, nu = p
            best = min(best, max(abs(hagan(x['F'], k, x['tau'], alpha, beta, rho, nu, x['shift']) - y) for k, y in zip(x['K'], x['vols'])))
        if healthy and not best <= 0.005:
            return f'none of six exact smiles is met better than {best}' if best < 1 else 'none of six exact smiles could be fitted'
        return None

    @staticmethod
    def judge_alpha(a, v):
        for alpha, (t, F, b, r, nu, atm, K), vol in zip(v['alpha'], a['rows'], v['each']):
            got = hagan(F, F, t, alpha, b, r, nu, a['shift']) if alpha > 0 else math.nan
            if not abs(got - atm) <= 1e-9 or not alpha < 3 * atm * (F + a['shift']) ** (1 - b):
                return f'alpha {alpha!r} means {got!r} at the money, not {atm!r}'
            want = hagan(F, K, t, alpha, b, r, nu, a['shift'])
            if not abs(vol - want) <= 1e-9:
                return f'volatility {vol!r} at {K!r}, not {want!r}'
        t, F, b, r, nu, atm, K = a['rows'][0]
        for k, vol in zip(a['strip'], v['strip']):
            want = hagan(F, k, t, v['alpha'][0], b, r, nu, a['shift'])
            if not abs(vol - want) <= 1e-9:
                return f'volatility {vol!r} at {k!r}, not {want!r}'
        if len(v['strip']) != len(a['strip']) or len(v['each']) != len(a['rows']):
            return f'{len(v["strip"])} and {len(v["each"])} volatilities for {len(a["strip"])} and {len(a["rows"])} strikes'
        return None

    @staticmethod
    def judge_quick(a, v):
        F, t, K, h = a['F'], a['tau'], a['K'], a['shift']
        got, want = refs.bachelier(F, t, 0, 1, F, a['vol'] * (F + h) * 0.9), refs.black76(F, t, 0, 1, F, v[1], h)
        if not abs(got - want) <= 1e-9 * want:
            return f'at the money volatility {v[1]!r} means a price of {want!r}, not {got!r}'
        s, x = a['vol'] * math.sqrt(t), abs(math.log((F + h) / (K + h)))
        cp = 1 if K > F else -1
        got, want = refs.bachelier(F, t, 0, cp, K, v[0]), refs.black76(F, t, 0, cp, K, a['vol'], h)
        vega = (refs.bachelier(F, t, 0, cp, K, v[0] * 1.001) - got) / 0.001 / v[0]
        if s < 1 and x < 3 * s and vega > 0 and not abs(got - want) / (vega * v[0]) <= QUICK * max(s, x) ** 4 + 1e-8:
            return f'approximate normal volatility {v[0]!r} means a price of {got!r}, not {want!r}'
        return None

    def judge_heston(self, a, v, healthy):
        IV, SSE = np.asarray(v['IV'], float), v['SSE']
        if not math.isfinite(SSE):
            return None
        if IV.shape != (len(a['vols']),):
            return f'{IV} for {len(a["vols"])} quotes'
        sse = float(((IV - np.array(a['vols'])) ** 2).sum())
        if not abs(SSE - sse) <= 1e-9 * (1 + sse):
            return f'reports an error of {SSE}, its own volatilities {IV} give {sse} against {a["vols"]}'
        if healthy and SSE > 1e-3:
            return f'fit error {SSE}'
        var0, vv, kappa, theta, rho, lam = v['p']
        if vv < 0 or theta < 0 or abs(rho) > 1 or var0 <= 0 or kappa <= 0:
            return f'parameters {v["p"]}'
        F = a['S0'] * math.exp((a['r'] - a['q']) * a['tau'])
        for iv, q, d in zip(IV, a['vols'], a['delta']):
            if not iv > 0:
                continue
            k, cp = strike_of(F, a['tau'], a['q'], q, d, a['conv']), (-1 if d < 0 else 1)
            model = refs.heston_price(a['S0'], a['tau'], a['r'], a['q'], cp, k, var0, vv, kappa, theta, rho)
            quoted = refs.gk_price(a['S0'], F, a['r'], a['tau'], cp, k, float(iv))
            if not abs(model - quoted) <= (HESTON_TOL[a['method']] + 2e-6) * a['S0']:
                return f'volatility {iv} at delta {d} means a price of {quoted}, the fitted parameters {v["p"]} give {model}'
        return None

    def solvable(self, op):
        a = op['args']
        if op['name'] in ('black', 'bach', 'gk'):
            return a['real'] is True
        if op['name'] == 'strike':
            F = gk_forward(a)
            for d, v in zip(a['delta'], a['vol']):
                k = strike_of(F, a['tau'], a['rf'], v, d, a['conv'])
                if k is None or not math.isfinite(k):
                    return False
                if a['conv'].startswith('premium') and d > 0 and d != 0.5:
                    # nearly the largest delta there is: two solutions meet
                    if strike_of(F, a['tau'], a['rf'], v, min(d * 1.02, 0.499), a['conv']) is None:
                        return False
            return True
        if op['name'] in ('sabr', 'alpha', 'quick'):
            return op['name'] == 'quick'  # the optimiser may give up, visibly
        if op['name'] in ('n2s', 's2n', 'shift'):
            F, t, K = a['F'], a['tau'], a['K']
            if op['name'] == 'n2s':
                X, f = refs.bachelier(F, t, 0, 1, K, a['vol']), lambda v: refs.black76(F, t, 0, 1, K, v, a['shift'])
            elif op['name'] == 's2n':
                X, f = refs.black76(F, t, 0, 1, K, a['vol'], a['shift']), lambda v: refs.bachelier(F, t, 0, 1, K, v / 10)
            else:
                X, f = refs.black76(F, t, 0, 1, K, a['vol'], a['shift']), lambda v: refs.black76(F, t, 0, 1, K, v, a['to'])
            return f(0.002) < X < f(5.0)
        return True

    def expect(self, plan, solo):
        for ci, op, rec in solo_ok(plan, solo):
            what = f'{op["name"]} {op["args"]}'[:1500]
            if rec['status'] != 'ok':
                if self.solvable(op):
                    yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{rec["exc"]} {rec["msg"]}: {what}'}
                continue
            bad = self.judge(op, rec['value'], self.solvable(op))
            if bad:
                yield {'cls': 'wrong-answer', 'op': op['id'], 'detail': f'{bad}: {what}'}

    def fault_result_ok(self, op, s, r):
        return self.judge(op, r['value'], None) is None

    def judge_more(self, plan, solo, conc):
        for ci, op, rec in solo_ok(plan, conc['records']):
            if rec['status'] == 'ok' and rec['fired']:
                s, bad = solo[(ci, op['id'])], self.judge(op, rec['value'], None)
                if bad and not (s['status'] == 'ok' and same(s['value'], rec['value'], *self.op_tol(op)) is None):
                    yield {'cls': 'plausible-failure', 'op': op['id'], 'detail': f'{bad}: {op["name"]} {op["args"]} under {rec["fired"]}'[:1800]}


PROP = C09
