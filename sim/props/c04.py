"""C04: simulated paths follow the stated model step by step for any sequence of shocks."""
import math

import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults, solo_ok
from ..tapes import TapeSeam
from .c01 import zero_curve, gen_curve

HESTON = ['quadratic_exponential', 'euler_with_absorption_of_volatility_process', 'euler_with_reflection_of_volatility_process']


def shocks(kind, seed, shape):
    """Adversarial standard-normal tapes: what a random stream can deliver, including its rare stretches."""
    r = np.random.RandomState(seed % (1 << 31))
    z = r.normal(size=shape)
    if kind == 'zero':
        z = np.zeros(shape)
    elif kind == 'tail':
        z = np.sign(z) * (np.abs(z) + 2.5)
    elif kind == 'down':
        z = -np.abs(z) - 1.0
    elif kind == 'up':
        z = np.abs(z) + 1.0
    elif kind == 'alternate':
        z = np.abs(z) * ((-1.0) ** np.arange(shape[0])).reshape((-1,) + (1,) * (len(shape) - 1)) * 2
    elif kind == 'burst':
        z[shape[0] // 2:] *= 3.5
    return np.clip(z, -7.5, 7.5)


class C04(Prop):
    id = 'C04'
    title = 'Simulated paths follow the model step by step for any shock sequence'
    quick, thorough = 420, 12000
    rtol = atol = 0.0
    stub_components = ('thread scheduling (cooperative, seeded); random tapes replaced by generated shock sequences where the '
                       'simulation draws its own')

    def gen(self, rng, index):
        world = {'curve': gen_curve(rng), 'hw': [rng.uniform(0.01, 0.4), rng.uniform(0.001, 0.03)]}
        if rng.random() < 0.1:   # hardly any mean reversion
            world['hw'][0] = rng.choice([1e-7, 1e-5, 1e-3])
        mix = rng.sample(['gbm', 'heston', 'scalar', 'hw', 'corr', 'cs'], rng.randint(2, 6))
        clients, k = [], 0
        for c in range(rng.choice([1, 2, 3])):
            ops = []
            for _ in range(rng.randint(2, 5)):
                k += 1
                kind = rng.choice(mix)
                z = dict(kind=rng.choice(['normal', 'normal', 'tail', 'down', 'up', 'alternate', 'burst', 'zero']), seed=rng.randrange(1 << 30))
                n, sims = rng.choice([1, 2, 3, 5, 10]), rng.choice([1, 2, 3, 5, 9])
                if kind == 'gbm':
                    und = rng.choice([1, 1, 2, 3, 4])
                    a = dict(s0=[rng.uniform(0.5, 120) for _ in range(und)], sims=sims, z=z,
                             drift=[[rng.uniform(-0.2, 0.2) for _ in range(und)] for _ in range(n)],
                             vol=[[rng.choice([0.0, rng.uniform(0.01, 0.8), rng.uniform(0.01, 0.8)]) for _ in range(und)] for _ in range(n)],
                             dts=[rng.uniform(0.01, 1.0) for _ in range(n)], flat=(und == 1 and rng.random() < 0.5))
                    if und > 1 and n == 1:
                        a['dts'].append(0.25)
                        a['drift'].append([0.01] * und)
                        a['vol'].append([0.2] * und)
                elif kind in ('heston', 'scalar'):
                    a = dict(S0=rng.uniform(0.5, 150), mu=rng.uniform(-0.1, 0.1), v0=rng.choice([0.0, rng.uniform(0.001, 0.3)]),
                             vv=rng.uniform(0.05, 1.5), kappa=rng.uniform(0.1, 6), theta=rng.uniform(0.002, 0.3),
                             rho=rng.choice([rng.uniform(-0.95, 0.95), 0.0]), tau=rng.choice([rng.uniform(0.05, 3), rng.uniform(0.05, 0.5)]),
                             n=n * rng.choice([1, 3]), sims=sims, z=z, method=rng.choice(HESTON))
                elif kind == 'hw':
                    a = dict(tau=rng.choice([0.25, 1.0, 3.0]), n=max(1, n), sims=max(2, sims), z=z,
                             method=rng.choice(['euler', 'rk4', 'exact']), seed=rng.randrange(1000), anti=rng.random() < 0.5)
                elif kind == 'corr':
                    m = rng.choice([2, 2, 3, 4])
                    a = dict(m=m, seed=rng.randrange(1 << 30), scale=rng.random() < 0.4, sims=rng.choice([2, 5, 50]))
                else:
                    T, spd = rng.choice([1, 3, 5]), rng.choice([1, 2, 5])
                    a = dict(T=T, spd=spd, sims=sims, alpha=rng.uniform(0.01, 0.9), sigma=rng.uniform(0.01, 0.3), z=z,
                             px=[rng.uniform(10, 90) for _ in range(T + 1)])
                if rng.random() < 0.2:
                    self.widen(rng, kind, a)
                ops.append({'id': f'o{k}', 'name': kind, 'args': a})
            clients.append(ops)
        kinds = [x for x in ('cancel', 'memory', 'deadline') if rng.random() < 0.5] if rng.random() < 0.5 else []
        return {'world': world, 'clients': clients, 'sched': gen_schedule(rng), 'faults': gen_faults(rng, clients, kinds, 0.2)}

    @staticmethod
    def widen(rng, kind, a):
        """Sizes and levels far from the usual ones: currencies quoted in thousandths, intraday and decade long steps, many paths."""
        level = lambda: math.exp(rng.uniform(math.log(0.003), math.log(30000)))
        if kind == 'gbm':
            und, n = rng.choice([1, 2, 5, 7, 11]), rng.choice([2, 4, 25, 60])
            step = rng.choice([1 / 8760, 1 / 365, 0.5, 10.0 if n < 5 else 0.25])
            a.update(s0=[level() for _ in range(und)], sims=rng.choice([1, 4, 150, 400]), flat=und == 1 and rng.random() < 0.5,
                     drift=[[rng.uniform(-0.4, 0.4) for _ in range(und)] for _ in range(n)],
                     vol=[[rng.choice([0.0, 1e-4, rng.uniform(0.01, 0.5 if n > 20 else 1.2)]) for _ in range(und)] for _ in range(n)],
                     dts=[step * rng.uniform(0.2, 1.0) for _ in range(n)])
        elif kind in ('heston', 'scalar'):
            kappa, n = rng.choice([0.01, 2.0, rng.uniform(5, 15)]), rng.choice([2, 10, 50])
            a.update(S0=level(), mu=rng.uniform(-0.3, 0.3), v0=rng.choice([1e-4, rng.uniform(0.2, 1.0)]), vv=rng.choice([0.01, rng.uniform(1, 2.5)]), kappa=kappa,
                     theta=rng.choice([1e-4, rng.uniform(0.2, 0.8)]), rho=rng.choice([-0.995, -0.7, 0.7, 0.99]), n=n, sims=rng.choice([1, 3, 25]),
                     tau=min(rng.choice([2 / 365, 1.0, 10.0 if kappa > 1 else 1.0]), 2.0 * n / kappa))
        elif kind == 'hw':
            a.update(tau=rng.choice([1 / 365, 0.04, 4.0]), n=rng.choice([1, 40, 120]), sims=rng.choice([2, 60]))
        elif kind == 'corr':
            a.update(m=rng.choice([5, 7, 10]), sims=rng.choice([1, 300]))
        else:
            T, spd = rng.choice([2, 8, 12]), rng.choice([1, 3, 12])
            a.update(T=T, spd=spd, sims=rng.choice([1, 120]), alpha=rng.choice([0.001, rng.uniform(1, 1.5 if spd == 1 else 3)]), sigma=rng.choice([1e-3, rng.uniform(0.3, 0.6)]),
                     px=[rng.choice([0.01, 3.0, 500.0, 20000.0]) * rng.uniform(0.7, 1.4) for _ in range(T + 1)])

    def build(self, plan):
        from frm.pricing_engine.hw1f import HullWhite1Factor
        w = plan['world']
        seam = TapeSeam().install()
        return {'hw': HullWhite1Factor(zero_curve=zero_curve(w['curve']), mean_rev_lvl=w['hw'][0], vol=w['hw'][1]), 'seam': seam}

    # -- operations
    def op_gbm(self, world, s0, drift, vol, dts, sims, z, flat):
        from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
        zz = shocks(z['kind'], z['seed'], (len(dts), len(s0), sims))
        d, v = np.array(drift), np.array(vol)
        if flat:
            d, v = d[:, 0], v[:, 0]
        return simulate_gbm_path(initial_px=np.array(s0), drift=d, forward_volatility=v, timestep_length=np.array(dts), rand_nbs=zz)

    def op_heston(self, world, S0, mu, v0, vv, kappa, theta, rho, tau, n, sims, z, method):
        from frm.pricing_engine.heston import heston_simulate
        zz = shocks(z['kind'], z['seed'], (n, 2, sims))
        with np.errstate(all='ignore'):
            return heston_simulate(S0, mu, v0, vv, kappa, theta, rho, tau, zz, method=method)

    def op_scalar(self, world, S0, mu, v0, vv, kappa, theta, rho, tau, n, sims, z, method):
        from frm.pricing_engine.heston import heston_simulate_scalar
        zz = shocks(z['kind'], z['seed'], (n, 2, 1))[:, :, 0]
        with np.errstate(all='ignore'):
            return heston_simulate_scalar(S0, mu, v0, vv, kappa, theta, rho, tau, zz, method=method)

    def op_hw(self, world, tau, n, sims, z, method, seed, anti):
        from .. import core
        seam = world['seam']
        seam.mark()
        c = core.current_client().index
        seam.substitute[c] = lambda args, kw: shocks(z['kind'], z['seed'], (n, 1, sims))
        try:
            with np.errstate(all='ignore'):
                r = world['hw'].simulate(tau=tau, nb_steps=n, nb_simulations=sims, flag_apply_antithetic_variates=anti,
                                         random_seed=seed, method=method)
        finally:
            seam.substitute.pop(c, None)
        return {'R': r['R'], 'df': r['sim_dsc_factor'], 'cczr': r['sim_cczr'], 'years': r['years_grid'],
                'avg_df': r['averages_df']['discount_factor'].values, 'avg_z': r['averages_df']['cczr'].values,
                'tapes': list(seam.taken())}

    def op_corr(self, world, m, seed, scale, sims):
        from frm.pricing_engine.monte_carlo_generic import normal_corr
        C = corr_matrix(m, seed, scale)
        return normal_corr(C, np.eye(m)), normal_corr(C, np.random.RandomState(seed % 1000).normal(size=(sims, m)))

    def op_cs(self, world, T, spd, sims, alpha, sigma, z, px):
        from .. import core
        from frm.pricing_engine.clewlow_strickland_1_factor import clewlow_strickland_1_factor_simulate
        seam = world['seam']
        seam.mark()
        c = core.current_client().index
        seam.substitute[c] = lambda args, kw: shocks(z['kind'], z['seed'], (T * spd, 1, sims))
        try:
            out = clewlow_strickland_1_factor_simulate(np.column_stack([np.arange(T + 1.0), px]), sims, spd, T, alpha, sigma)
        finally:
            seam.substitute.pop(c, None)
        return out, list(seam.taken())

    # -- oracle
    def expect(self, plan, solo):
        memo = {}
        for ci, op, rec in solo_ok(plan, solo):
            a = op['args']
            what = f'{op["name"]} {({k: v for k, v in a.items()})}'[:700]
            if rec['status'] != 'ok':
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{rec["exc"]} {rec["msg"]}: {what}'}
                continue
            for cls, text in getattr(self, 'check_' + op['name'])(plan, a, rec['value'], memo):
                yield {'cls': cls, 'op': op['id'], 'detail': f'{text}: {what}'}

    @staticmethod
    def cmp(got, want, tol, name, floor=1.0):
        if got.shape != want.shape:
            yield 'shape', f'{name}: shape {got.shape}, expected {want.shape}'
            return
        bad = ~(np.abs(got - want) <= tol * (floor + np.abs(want)))
        bad &= ~(np.isnan(got) & np.isnan(want))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            yield 'wrong-step', f'{name}{list(i)} is {got[i]!r}, the model gives {want[i]!r}'

    def check_gbm(self, plan, a, v, memo):
        z = shocks(a['z']['kind'], a['z']['seed'], (len(a['dts']), len(a['s0']), a['sims']))
        got = v[2]
        if not (got > 0).all():
            yield 'not-positive', 'a price is zero or negative'
        yield from self.cmp(got, refs.gbm(a['s0'], a['drift'], a['vol'], a['dts'], z), 1e-10, 'price', 0.0)

    def _heston(self, a, got, z, name):
        if not np.isfinite(got).all():
            yield 'not-finite', f'{name}: non-finite values'
            return
        if (got[:, 1] < 0).any():
            yield 'negative-variance', f'{name}: variance {got[:, 1].min()!r} at step {int(got[:, 1].argmin())}'
        if a['method'] == 'quadratic_exponential' and (got[:, 0] <= 0).any():
            yield 'not-positive', f'{name}: price not positive'
        want = refs.heston(a['S0'], a['mu'], a['v0'], a['vv'], a['kappa'], a['theta'], a['rho'], a['tau'], z, a['method'])
        # values that collapse to ~0 under extreme shocks amplify rounding: compare with an absolute floor
        yield from self.cmp(got, want, 1e-7, name)

    def check_heston(self, plan, a, v, memo):
        z = shocks(a['z']['kind'], a['z']['seed'], (a['n'], 2, a['sims']))
        if v[2].shape != (a['n'] + 1, 2, a['sims']):
            yield 'shape', f'shape {v[2].shape}'
            return
        for p in range(a['sims']):
            yield from self._heston(a, v[2][:, :, p], z[:, :, p], f'path {p}')

    def check_scalar(self, plan, a, v, memo):
        z = shocks(a['z']['kind'], a['z']['seed'], (a['n'], 2, 1))[:, :, 0]
        if v[2].shape != (a['n'] + 1, 2):
            yield 'shape', f'shape {v[2].shape}'
            return
        yield from self._heston(a, v[2], z, 'path')

    def check_hw(self, plan, a, v, memo):
        d = {k: x for k, x in v[1]}
        R, df, years = d['R'][2], d['df'][2], d['years'][2]
        grid = np.linspace(0, a['tau'], a['n'] + 1)
        yield from self.cmp(years, grid, 1e-12, 'time grid')
        spec = plan['world']['curve']
        curve = memo.setdefault('curve', refs.Curve(spec['years'], np.exp(-np.array(spec['rates']) * np.array(spec['years'])), spec['interp']))
        alpha, sigma = plan['world']['hw']
        r0 = float(curve.fwd(np.array(0.0)))
        if abs(R[0, 0] - r0) > 2e-6:
            yield 'wrong-start', f'paths start at {R[0, 0]!r}, the curve\'s short rate is {r0!r}'
        theta = refs.hw_theta(curve, alpha, sigma, grid, 1e-4)
        tapes = d['tapes'][1]
        if tapes:
            z = shocks(a['z']['kind'], a['z']['seed'], (a['n'], 1, a['sims']))[:, 0, :]
            want_R, want_df = refs.hw_paths(R[0, 0], theta, alpha, sigma, a['tau'], z, a['method'])
            yield from self.cmp(R, want_R, 1e-7, 'rate')
        want_df = np.exp(-np.vstack([np.zeros(R.shape[1]), np.cumsum((R[1:] + R[:-1]) / 2 * np.diff(grid)[:, None], axis=0)]))
        yield from self.cmp(df, want_df, 1e-10, 'discount factor')
        yield from self.cmp(d['avg_df'][2], df.mean(axis=1), 1e-10, 'average discount factor')
        yield from self.cmp(d['cczr'][2][1:], -np.log(df[1:]) / grid[1:, None], 1e-9, 'zero rate')
        yield from self.cmp(d['avg_z'][2][1:], -np.log(df.mean(axis=1)[1:]) / grid[1:], 1e-9, 'average zero rate')

    def check_corr(self, plan, a, v, memo):
        C = corr_matrix(a['m'], a['seed'], a['scale'])
        M = v[1][0][2]                      # row i: the answer to a unit shock in variable i
        X = v[1][1][2]
        z = np.random.RandomState(a['seed'] % 1000).normal(size=(a['sims'], a['m']))
        cov = M.T @ M
        if M.shape != C.shape or np.abs(cov - C).max() > 1e-9:
            yield 'wrong-covariance', f'the variates have covariance {np.round(cov, 4).tolist()} instead of {np.round(C, 4).tolist()}'
            return
        yield from self.cmp(X, z @ M, 1e-9, 'variate')

    def check_cs(self, plan, a, v, memo):
        out, tapes = v[1][0][2], v[1][1][1]
        if not (np.isfinite(out).all() and (out > 0).all()):
            yield 'not-positive', 'a price is not positive'
            return
        if tapes:
            z = [t[2] for t in tapes]
            want = refs.clewlow(list(range(a['T'] + 1)), a['px'], a['sims'], a['spd'], a['T'], a['alpha'], a['sigma'], z)
            yield from self.cmp(out, want[:, :a['sims']], 1e-9, 'price', 0.0)


def corr_matrix(m, seed, scale):
    r = np.random.RandomState(seed % (1 << 31))
    A = r.normal(size=(m, m + 2))
    C = A @ A.T
    s = np.sqrt(np.diag(C))
    C = C / np.outer(s, s)
    if scale:
        q = r.uniform(0.3, 2.5, size=m)
        C = C * np.outer(q, q)
    return C


PROP = C04
