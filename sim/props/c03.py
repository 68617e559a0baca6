"""C03: a simulation processed in chunks loses, repeats and mixes no path."""
import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults, solo_ok
from ..tapes import TapeSeam, set_chunk_limit


class C03(Prop):
    id = 'C03'
    title = 'Chunked commodity simulation loses, repeats and mixes no path'
    quick, thorough = 420, 12000
    rtol = atol = 0.0
    stub_components = ('thread scheduling (cooperative, seeded), the random tapes are recorded as drawn, the chunk size limit '
                       'is a knob set per run, allocation of a chunk\'s tape may fail')

    def gen(self, rng, index):
        n_ops = rng.randint(2, 5)
        clients, k = [[] for _ in range(rng.choice([1, 2, 3]))], 0
        cfgs = []
        for _ in range(2):
            T, spd = rng.choice([1, 2, 3, 5, 8, 15]), rng.choice([1, 2, 3, 6, 12])
            u = rng.choice([1, 1, 1, 0.001, 1000])
            n = T + 1 + rng.choice([0, 0, 1, 3])
            grid = list(range(n))
            cfgs.append(dict(T=T, spd=spd, alpha=rng.choice([0.0, rng.uniform(0.005, 0.8), rng.uniform(0.005, 0.8), rng.uniform(0.8, 1.5 * spd)]),
                             sigma=rng.uniform(0.004, 0.25), grid=grid,
                             px=[round(u * (rng.uniform(20, 90) + 3 * g), 6) for g in grid]))
        max_steps = max(c['T'] * c['spd'] for c in cfgs)
        limit = max_steps * rng.choice([1, 1, 2, 3, 5, 8, 13]) + rng.choice([0, 0, 1, max_steps - 1])
        for _ in range(n_ops):
            k += 1
            cfg = rng.choice(cfgs)
            per = limit // (cfg['T'] * cfg['spd'])
            sims = rng.choice([1, per, per + 1, 2 * per - 1, 2 * per, 2 * per + 1, 3 * per + rng.randint(0, per), rng.randint(1, 40)])
            rng.choice(clients).append({'id': f'o{k}', 'name': 'cs', 'args': dict(cfg, sims=max(1, min(sims, 160)))})
        clients = [c for c in clients if c]
        kinds = [x for x in ('cancel', 'memory', 'deadline', 'tape') if rng.random() < 0.5] if rng.random() < 0.6 else []
        faults = gen_faults(rng, clients, kinds, 0.35)
        for f in faults:
            if f['kind'] == 'tape':
                f['nth'] = rng.choice([1, 1, 2, 3])
        return {'world': {'limit': limit}, 'clients': clients, 'sched': gen_schedule(rng), 'faults': faults}

    def build(self, plan):
        set_chunk_limit(plan['world']['limit'])
        return TapeSeam().install()

    def op_cs(self, seam, sims, spd, T, alpha, sigma, grid, px):
        from frm.pricing_engine.clewlow_strickland_1_factor import clewlow_strickland_1_factor_simulate
        seam.mark()
        curve = np.column_stack([np.array(grid, float), np.array(px)])
        out = clewlow_strickland_1_factor_simulate(curve, sims, spd, T, alpha, sigma)
        return [out, list(seam.taken())]

    def expect(self, plan, solo):
        limit = plan['world']['limit']
        for ci, op, rec in solo_ok(plan, solo):
            a = op['args']
            what = f"{a['sims']} paths, {a['T'] * a['spd']} steps, limit {limit}"
            if rec['status'] != 'ok':
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{what}: {rec["exc"]} {rec["msg"]}'}
                continue
            out = rec['value'][1][0][2]
            tapes = [t[2] for t in rec['value'][1][1][1]]
            if out.shape != (a['T'] + 1, a['sims']):
                yield {'cls': 'shape', 'op': op['id'], 'detail': f'{what}: result of shape {out.shape}'}
                continue
            if not (np.isfinite(out).all() and (out > 0).all()):
                yield {'cls': 'missing-path', 'op': op['id'],
                       'detail': f'{what}: {int((~(out > 0).all(axis=0)).sum())} paths are zero, negative or not finite'}
                continue
            if not np.allclose(out[0], a['px'][0], rtol=1e-12):
                yield {'cls': 'start', 'op': op['id'], 'detail': f'{what}: paths do not start at the spot price'}
            if len({c.tobytes() for c in out[1:].T}) != a['sims']:
                yield {'cls': 'repeated-path', 'op': op['id'],
                       'detail': f'{what}: only {len({c.tobytes() for c in out[1:].T})} different paths'}
                continue
            if not tapes:
                continue
            if any(t.shape[0] * t.shape[2] > limit for t in tapes):
                yield {'cls': 'over-limit', 'op': op['id'],
                       'detail': f'{what}: one chunk asked for {max(t.shape[0] * t.shape[2] for t in tapes)} numbers'}
            steps = a['T'] * a['spd']
            if sum(t.shape[2] for t in tapes) < a['sims'] or any(t.shape[0] != steps for t in tapes):
                yield {'cls': 'missing-path', 'op': op['id'], 'detail': f'{what}: the chunks drew {[t.shape for t in tapes]}'}
                continue
            want = refs.clewlow(a['grid'], a['px'], a['sims'], a['spd'], a['T'], a['alpha'], a['sigma'], tapes)[:, :a['sims']]
            err = np.abs(out / want - 1)
            if err.max() > 1e-9:
                bad = np.unravel_index(err.argmax(), err.shape)
                yield {'cls': 'wrong-path', 'op': op['id'],
                       'detail': f'{what}: path {bad[1]} at day {bad[0]} is {out[bad]!r}, its own shocks give {want[bad]!r}'}

    def probes(self, plan, solo, conc):
        n = sum(1 for r in solo.values() if r['status'] == 'ok' and len(r['value'][1][1][1]) > 1)
        p = sum(1 for ci, op, r in solo_ok(plan, solo) if r['status'] == 'ok' and r['value'][1][1][1] and
                sum(t[2].shape[2] for t in r['value'][1][1][1]) > op['args']['sims'])
        return {'simulations in several chunks': n, 'simulations with a partial last chunk': p}


PROP = C03
