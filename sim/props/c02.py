"""C02: sampling guarantees of the random tapes, for every size and seed, whoever else is running."""
import numpy as np

from ..base import Prop, gen_schedule, gen_faults, solo_ok
from .c01 import zero_curve, gen_curve


class C02(Prop):
    id = 'C02'
    title = 'Every requested path is delivered; antithetic paths are exact mirror pairs'
    quick, thorough = 480, 20000
    rtol = atol = 0.0

    def gen(self, rng, index):
        world = {'curve': gen_curve(rng), 'hw': [rng.uniform(0.01, 0.3), rng.uniform(0.002, 0.02)]}
        clients, k = [], 0
        for c in range(rng.choice([1, 2, 3])):
            ops = []
            for _ in range(rng.randint(2, 6)):
                k += 1
                r = rng.random()
                sims = rng.choice([rng.randint(1, 12), rng.randint(13, 80), rng.randint(81, 700)])
                a = dict(steps=rng.choice([1, 1, 2, 3, 4, 9, 30, 120]), rv=rng.choice([1, 1, 2, 3, 4, 9]), sims=sims,
                         anti=rng.random() < 0.65, seed=rng.choice([0, 1, rng.randrange(100), rng.randrange(1 << 31)]))
                if r < 0.08:
                    a.update(steps=rng.choice([1, 2, 3]), rv=rng.choice([1, 2]), sims=rng.choice([20000, 30001]))
                if r < 0.02:   # very many paths: whatever is done in blocks or narrow integers
                    a.update(steps=1, rv=1, sims=int(10 ** rng.uniform(4.8, 6.3)))
                if a['anti'] and a['sims'] == 1:
                    a['sims'] = 2
                if r < 0.8:
                    ops.append({'id': f'o{k}', 'name': 'tape', 'args': a})
                else:
                    a['steps'] = max(2, a['steps'])
                    ops.append({'id': f'o{k}', 'name': 'hw', 'args': dict(a, sims=min(a['sims'], 64) if a['sims'] > 1 else 2,
                                tau=rng.choice([0.5, 1.0, 2.5]), method=rng.choice(['euler', 'rk4', 'exact']))})
            clients.append(ops)
        kinds = [x for x in ('cancel', 'memory', 'deadline') if rng.random() < 0.5] if rng.random() < 0.5 else []
        return {'world': world, 'clients': clients, 'sched': gen_schedule(rng), 'faults': gen_faults(rng, clients, kinds, 0.2)}

    def build(self, plan):
        from frm.pricing_engine.hw1f import HullWhite1Factor
        w = plan['world']
        return HullWhite1Factor(zero_curve=zero_curve(w['curve']), mean_rev_lvl=w['hw'][0], vol=w['hw'][1])

    def op_tape(self, world, steps, rv, sims, anti, seed):
        from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
        return generate_rand_nbs(nb_steps=steps, nb_rand_vars=rv, nb_simulations=sims, apply_antithetic_variates=anti,
                                 random_seed=seed)

    def op_hw(self, world, tau, steps, rv, sims, anti, seed, method):
        with np.errstate(all='ignore'):
            r = world.simulate(tau=tau, nb_steps=steps, nb_simulations=sims, flag_apply_antithetic_variates=anti,
                               random_seed=seed, method=method)
        return {'R': r['R'], 'df': r['sim_dsc_factor'], 'years': r['years_grid']}

    def expect(self, plan, solo):
        for ci, op, rec in solo_ok(plan, solo):
            a = op['args']
            if rec['status'] != 'ok':
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{op["name"]} {a}: {rec["exc"]} {rec["msg"]}'}
                continue
            what = f'{op["name"]} {a}'
            if op['name'] == 'tape':
                x = rec['value'][2]
                if x.shape != (a['steps'], a['rv'], a['sims']):
                    yield {'cls': 'shape', 'op': op['id'], 'detail': f'{what}: shape {x.shape}'}
                    continue
                yield from self.tape(op, a, x, what)
            else:
                d = dict(rec['value'][1])
                R, df = d['R'][2], d['df'][2]
                if R.shape != (a['steps'] + 1, a['sims']) or df.shape != R.shape:
                    yield {'cls': 'shape', 'op': op['id'], 'detail': f'{what}: rates of shape {R.shape}, factors {df.shape}'}
                    continue
                if not (np.isfinite(R).all() and np.isfinite(df).all()):
                    yield {'cls': 'not-finite', 'op': op['id'], 'detail': f'{what}: non-finite paths'}
                if len({c.tobytes() for c in R[1:].T}) != a['sims']:
                    yield {'cls': 'duplicate-path', 'op': op['id'], 'detail': f'{what}: repeated paths'}
                if a['anti'] and a['sims'] >= 4:
                    n = a['sims'] // 2 * 2
                    mid = (R[:, 0:n:2] + R[:, 1:n:2]) / 2     # the model is linear in the shocks: pairs average to one path
                    if not np.allclose(mid, mid[:, :1], rtol=0, atol=1e-12):
                        yield {'cls': 'mispaired', 'op': op['id'], 'detail': f'{what}: the mean of paths 2k, 2k+1 depends on k'}

    def tape(self, op, a, x, what):
        free = x
        if a['anti']:
            n = a['sims'] // 2 * 2
            if not np.array_equal(x[:, :, 0:n:2], -x[:, :, 1:n:2]):
                bad = np.argwhere(x[:, :, 0:n:2] != -x[:, :, 1:n:2])[0]
                yield {'cls': 'mispaired', 'op': op['id'], 'detail': f'{what}: paths {2 * bad[2]} and {2 * bad[2] + 1} are no mirror images'}
                return
            free = np.concatenate([x[:, :, 0:n:2], x[:, :, n:]], axis=2)
        if not np.isfinite(x).all():
            yield {'cls': 'not-finite', 'op': op['id'], 'detail': f'{what}: non-finite numbers'}
            return
        same = free.size - len(np.unique(np.abs(free)))
        if same > (0 if free.size < 300000 else 5):   # 53-bit draws: below 1e-3 expected coincidences at 2e6, more near the centre
            yield {'cls': 'duplicate-draw', 'op': op['id'], 'detail': f'{what}: {same} draws are repeated'}
            return
        n = free.size
        if n >= 200:   # standard normal and uncorrelated, at 6.5 standard errors
            z = {'mean': free.mean() * n ** 0.5, 'variance': ((free ** 2).mean() - 1) * (n / 2) ** 0.5,
                 'skew': (free ** 3).mean() * (n / 15) ** 0.5, 'kurtosis': ((free ** 4).mean() - 3) * (n / 96) ** 0.5}
            def corr(u, v):
                m = u.size
                return (u * v).mean() * m ** 0.5 if m >= 200 else 0.0
            z['correlation between steps'] = corr(free[1:], free[:-1])
            z['correlation between variables'] = corr(free[:, 1:], free[:, :-1])
            z['correlation between paths'] = corr(free[:, :, 1:], free[:, :, :-1])
            for k, v in z.items():
                lim = 6.5 if k not in ('kurtosis', 'skew') else (20.0 if n < 5000 else 12.0)
                if abs(v) > lim:
                    yield {'cls': 'not-standard-normal', 'op': op['id'], 'detail': f'{what}: {k} is {v:.1f} standard errors off'}


PROP = C02
