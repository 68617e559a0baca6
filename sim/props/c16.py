"""C16: reported sensitivities match how simulated values move; intrinsic plus time value is the price."""
import math

import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults, solo_ok
from ..canon import plain

DAY = 1 / 365.25
WIDE = 0.8   # beyond this many standard deviations of the log price a few thousand paths do not carry their own error estimate


def pair_stats(x):
    """Mean and standard error of antithetic pairs; not below 0.3 of the unpaired error (at the money one of each pair is exercised)."""
    m = (x[0::2] + x[1::2]) / 2
    return float(m.mean()), float(max(m.std(ddof=1) / math.sqrt(len(m)), 0.3 * x.std(ddof=1) / math.sqrt(len(x))))


def slope(f, x, h):
    """Derivative by central differences, extrapolated twice."""
    d = [(f(x + h / 2 ** k) - f(x - h / 2 ** k)) / (2 * h / 2 ** k) for k in range(3)]
    e = [(4 * d[k + 1] - d[k]) / 3 for k in range(2)]
    return (16 * e[1] - e[0]) / 15


def span(f, x, h):
    """Range of f over [x - h, x + h]: any average of f over the bump lies inside."""
    v = [f(x + h * k / 8) for k in range(-8, 9)]
    room = 0.01 * (max(v) - min(v))
    return min(v) - room, max(v) + room


class GK:
    """Currency option: closed form and its exact sensitivities in market units."""

    def __init__(self, S, rd, rf, tau, cp, K, vol):
        self.__dict__.update(S=S, rd=rd, rf=rf, tau=tau, cp=cp, K=K, vol=vol)

    def px(self, **k):
        g = {**self.__dict__, **k}
        return refs.gk_price(g['S'], g['S'] * math.exp((g['rd'] - g['rf']) * g['tau']), g['rd'], g['tau'], g['cp'], g['K'], g['vol'])

    def delta(self, S=None):
        S = S or self.S
        return slope(lambda x: self.px(S=x), S, 0.1 * S * self.vol * math.sqrt(self.tau))

    def vega(self, vol=None):
        vol = vol or self.vol
        return 0.01 * slope(lambda x: self.px(vol=x), vol, 0.05 * vol)

    def theta(self, tau=None):
        tau = tau or self.tau
        return -DAY * slope(lambda x: self.px(tau=x), tau, min(0.05 * tau, 0.1 * self.vol * math.sqrt(tau) / (abs(self.rd - self.rf) + 1e-9)))

    def gamma(self, S=None):
        S0 = S or self.S
        h = 0.1 * S0 * self.vol * math.sqrt(self.tau)
        return 0.01 * self.S * slope(lambda x: slope(lambda y: self.px(S=y), x, h), S0, h)

    def rho(self, which='rd', shift=0.0):
        return 0.01 * slope(lambda x: self.px(**{which: x}), getattr(self, which) + shift, min(0.01, 0.1 * self.vol / math.sqrt(self.tau)))

    def intrinsic(self):
        return max(0.0, self.cp * (self.S * math.exp(-self.rf * self.tau) - self.K * math.exp(-self.rd * self.tau)))


class C16(Prop):
    id = 'C16'
    title = 'Reported sensitivities match how simulated values move'
    quick, thorough = 300, 12000
    rtol = atol = 0.0
    assumptions = ('volatility times the square root of time from 2.5%, strikes within 1.6 standard deviations of the forward',
                   'simulated sensitivities are judged at 6.5 standard errors where the log price has a deviation up to 0.8, exact ones to 2e-6 of themselves; numerical sensitivities must lie in '
                   'the range the exact one takes over the shift',
                   'the numerical rho may answer for either currency\'s rate')

    def gen(self, rng, index):
        world = {'surface': None}
        mix = rng.sample(['gk', 'gk', 'black', 'bach'], rng.randint(1, 3))
        if rng.random() < 0.25:
            from .c08 import gen_surface, RefSurface, C08
            while True:
                s = gen_surface(rng)
                ref = RefSurface(s)
                if C08.usable(ref):
                    break
            world['surface'] = s
            mix += ['surface', 'surface']
        clients, k = [], 0
        for c in range(rng.choice([1, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 3)):
                k += 1
                kind = rng.choice(mix)
                n = rng.choice([1, 1, 2, 3, 5])
                a = {'cp': [rng.choice([1, -1]) for _ in range(n)], 'seed': rng.choice([0, 1, rng.randrange(1 << 31)]), 'sims': rng.choice([2000, 4000]),
                     'an': rng.random() < 0.85, 'nu': rng.random() < 0.6, 'split': rng.random() < 0.7}
                m = [rng.choice([0.0, rng.uniform(-1.6, 1.6), rng.uniform(-1.6, 1.6)]) for _ in range(n)]
                if kind == 'gk':
                    S = rng.uniform(0.5, 150)
                    a.update(S=[S * rng.uniform(0.8, 1.2) for _ in range(n)], tau=[rng.uniform(0.06, 4) for _ in range(n)],
                             rd=[rng.uniform(-0.02, 0.1) for _ in range(n)], rf=[rng.uniform(-0.02, 0.1) for _ in range(n)], give_F=rng.random() < 0.4)
                    a['vol'] = [max(rng.uniform(0.03, 0.6), 0.025 / math.sqrt(t)) for t in a['tau']]
                    a['K'] = [s * math.exp((d - f) * t + x * v * math.sqrt(t)) for s, d, f, t, x, v in zip(a['S'], a['rd'], a['rf'], a['tau'], m, a['vol'])]
                    if rng.random() < 0.15:   # an option which expires today
                        a['expired'] = rng.randrange(n)
                        a['an'] = a['nu'] = False
                elif kind == 'black':
                    a['shift'] = rng.choice([0.0, 0.0, 0.01, 0.03])
                    a.update(F=[max(rng.uniform(-0.005, 0.08), 0.004 - a['shift']) for _ in range(n)], tau=[rng.uniform(0.06, 8) for _ in range(n)],
                             af=[rng.choice([1.0, rng.uniform(0.05, 6)]) for _ in range(n)])
                    a['vol'] = [max(rng.uniform(0.03, 0.8), 0.025 / math.sqrt(t)) for t in a['tau']]
                    a['K'] = [(f + a['shift']) * math.exp(x * v * math.sqrt(t)) - a['shift'] for f, t, x, v in zip(a['F'], a['tau'], m, a['vol'])]
                elif kind == 'bach':
                    a.update(F=[rng.uniform(-0.02, 0.08) for _ in range(n)], tau=[rng.uniform(0.06, 8) for _ in range(n)],
                             vol=[rng.uniform(0.002, 0.02) for _ in range(n)], af=[rng.choice([1.0, rng.uniform(0.05, 6)]) for _ in range(n)])
                    a['K'] = [f + x * v * math.sqrt(t) for f, t, x, v in zip(a['F'], a['tau'], m, a['vol'])]
                    a['nu'] = False
                else:
                    pool = [d for d in ref.days() if d > 10] or ref.days()[-1:]
                    if pool[-1] > pool[0]:
                        pool = pool + [rng.randint(pool[0], pool[-1]) for _ in range(3)]
                    a['items'] = []
                    for x, c in zip(m, a['cp']):
                        day = rng.choice(pool)
                        Ks = ref.strikes(day)
                        a['items'].append([day, float(Ks[0] + (Ks[-1] - Ks[0]) * (0.5 + x / 3.3))])
                    a['nu'] = a['nu'] and min(d for d, _ in a['items']) > 15
                if kind != 'surface' and rng.random() < 0.2:
                    self.widen(rng, kind, a)
                ops.append({'id': f'o{k}', 'name': kind, 'args': a})
            clients.append(ops)
        kinds = [x for x in ('cancel', 'memory', 'deadline') if rng.random() < 0.5] if rng.random() < 0.4 else []
        return {'world': world, 'clients': clients, 'sched': gen_schedule(rng), 'faults': gen_faults(rng, clients, kinds, 0.25)}

    @staticmethod
    def widen(rng, kind, a):
        """Levels and sizes far from the usual ones: rates quoted in thousandths or tens of thousands, days or decades to expiry, long lists."""
        n = rng.choice([1, 2, 12, 40])
        a['cp'] = [rng.choice([1, -1]) for _ in range(n)] if n < 12 or rng.random() < 0.7 else [1] * n
        a['sims'] = 500 if n > 5 else a['sims']
        a.pop('expired', None)
        m = [rng.choice([0.0, rng.uniform(-1.6, 1.6)]) for _ in range(n)]
        tau = [rng.choice([rng.uniform(1, 20) / 365, rng.uniform(5, 30)]) for _ in range(n)]
        if kind == 'gk':
            S = math.exp(rng.uniform(math.log(0.003), math.log(30000)))
            a.update(S=[S * rng.uniform(0.8, 1.2) for _ in range(n)], tau=tau, rd=[rng.uniform(-0.05, 0.3) / max(1, t) for t in tau],
                     rf=[rng.uniform(-0.05, 0.3) / max(1, t) for t in tau])
            a['vol'] = [min(max(rng.uniform(0.05, 1.2), 0.05 / math.sqrt(t)), 2.0 / math.sqrt(t)) for t in tau]
            a['K'] = [s * math.exp((d - f) * t + x * v * math.sqrt(t)) for s, d, f, t, x, v in zip(a['S'], a['rd'], a['rf'], tau, m, a['vol'])]
        elif kind == 'black':
            a['shift'] = rng.choice([0.0, 0.05, 0.1])
            a.update(F=[rng.choice([rng.uniform(0.1, 0.3), rng.uniform(2, 150), 0.02]) for _ in range(n)], tau=tau, af=[math.exp(rng.uniform(math.log(0.002), math.log(1e6))) for _ in range(n)])
            a['vol'] = [min(max(rng.uniform(0.05, 1.5), 0.05 / math.sqrt(t)), 2.0 / math.sqrt(t)) for t in tau]
            a['K'] = [(f + a['shift']) * math.exp(x * v * math.sqrt(t)) - a['shift'] for f, t, x, v in zip(a['F'], tau, m, a['vol'])]
        else:
            u = rng.choice([1, 1, 1000])   # rates, or prices of around 100
            a.update(F=[rng.uniform(-0.03, 0.2) * u for _ in range(n)], tau=tau, vol=[math.exp(rng.uniform(math.log(0.0005), math.log(0.05))) * u for _ in range(n)],
                     af=[math.exp(rng.uniform(math.log(0.002), math.log(1e6))) for _ in range(n)])
            a['K'] = [f + x * v * math.sqrt(t) for f, t, x, v in zip(a['F'], tau, m, a['vol'])]

    def build(self, plan):
        if plan['world']['surface'] is None:
            return None
        from .c08 import build_surface
        return build_surface(plan['world']['surface'])

    # -- operations
    @staticmethod
    def table(r):
        out = {k: np.asarray(r[k], float) for k in ('price', 'intrinsic', 'time') if k in r}
        for k in ('analytical_greeks', 'numerical_greeks'):
            if k in r:
                out[k] = {c: np.asarray(r[k][c], float) for c in r[k].columns}
        return out

    @staticmethod
    def shocks(seed, sims, n):
        from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
        return generate_rand_nbs(nb_steps=n, nb_rand_vars=1, nb_simulations=sims, apply_antithetic_variates=True, random_seed=seed)

    def lognormal_paths(self, S, mu, vol, tau, seed, sims):
        from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
        return np.asarray(simulate_gbm_path(initial_px=np.array([S]), drift=np.array([mu, mu]), forward_volatility=np.array([vol, vol]),
                                            timestep_length=np.array([tau / 2, tau / 2]), rand_nbs=self.shocks(seed, sims, 2)))[-1, 0, :]

    def fx_movement(self, S, rd, rf, tau, cp, K, vol, seed, sims):
        """How the discounted payoff of each simulated path moves with each input."""
        X = self.lognormal_paths(S, rd - rf, vol, tau, seed, sims)
        sq = vol * math.sqrt(tau)
        if sq > WIDE:
            return {}
        z = (np.log(X / S) - (rd - rf) * tau + sq * sq / 2) / sq
        itm, df = (cp * (X - K) > 0).astype(float), math.exp(-rd * tau)
        pay = df * itm * cp * (X - K)
        w = df * itm * cp * X
        return {'price': pair_stats(pay), 'spot_delta': pair_stats(w / S), 'forward_delta': pair_stats(w / S * math.exp(rf * tau)),
                'vega': pair_stats(0.01 * w * (z * math.sqrt(tau) - vol * tau)),
                'theta': pair_stats(DAY * (rd * pay - w * (rd - rf - vol * vol / 2 + vol * z / (2 * math.sqrt(tau))))),
                'gamma': pair_stats(0.01 * w * (z / sq - 1) / S), 'rho': pair_stats(0.01 * tau * df * itm * cp * K)}

    def op_gk(self, world, S, tau, rd, rf, cp, K, vol, give_F, an, nu, split, seed, sims, expired=None):
        from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price
        t = np.array(tau)
        if expired is not None:
            t[expired] = 0.0
        F = np.array(S) * np.exp((np.array(rd) - np.array(rf)) * t) if give_F and expired is None else None
        with np.errstate(all='ignore'):
            r = garman_kohlhagen_price(S0=np.array(S), tau=t, r_d=np.array(rd), r_f=np.array(rf), cp=np.array(cp), K=np.array(K), vol=np.array(vol), F=F,
                                       analytical_greeks=an, numerical_greeks=nu, intrinsic_time_split=split)
        return self.table(r), [self.fx_movement(*x, seed, sims) for x in zip(S, rd, rf, tau, cp, K, vol)]

    def op_surface(self, surface, items, cp, an, nu, split, seed, sims):
        import pandas as pd
        dates = pd.DatetimeIndex([surface.curve_date + pd.Timedelta(days=d) for d, _ in items])
        K = np.array([k for _, k in items])
        with np.errstate(all='ignore'):
            r = surface.price_vanilla_european(dates, K, np.array(cp), analytical_greeks_flag=an, numerical_greeks_flag=nu, intrinsic_time_split_flag=split)
        m = r['market_data_inputs']
        return self.table(r), {c: np.asarray(m[c], float) for c in ('vol', 'r_d', 'r_f', 'F')}, float(np.squeeze(surface.fx_spot_rate))

    def op_black(self, world, F, shift, tau, cp, K, vol, af, an, nu, split, seed, sims):
        from frm.pricing_engine.black76_bachelier import black76_price
        r = black76_price(F=np.array(F), tau=np.array(tau), cp=np.array(cp), K=np.array(K), vol_sln=np.array(vol), ln_shift=shift, annuity_factor=np.array(af),
                          analytical_greeks=an, numerical_greeks=nu, intrinsic_time_split=split)
        moves = []
        for f, t, c, k, v, x in zip(F, tau, cp, K, vol, af):
            if v * math.sqrt(t) > WIDE:
                moves.append({})
                continue
            X = self.lognormal_paths(f + shift, 0.0, v, t, seed, sims)
            sq = v * math.sqrt(t)
            z = (np.log(X / (f + shift)) + sq * sq / 2) / sq
            w = x * c * X * (c * (X - shift - k) > 0)
            moves.append({'price': pair_stats(x * np.maximum(0, c * (X - shift - k))), 'delta': pair_stats(w / (f + shift)),
                          'vega': pair_stats(0.01 * w * (z * math.sqrt(t) - v * t))})
        return self.table(r), moves

    def op_bach(self, world, F, tau, cp, K, vol, af, an, nu, split, seed, sims):
        from frm.pricing_engine.black76_bachelier import bachelier_price
        r = bachelier_price(F=np.array(F), tau=np.array(tau), cp=np.array(cp), K=np.array(K), vol_n=np.array(vol), annuity_factor=np.array(af),
                            analytical_greeks=an, intrinsic_time_split=split)
        moves = []
        for f, t, c, k, v, x in zip(F, tau, cp, K, vol, af):
            z = self.shocks(seed, sims, 4)[:, 0, :].sum(axis=0) / 2
            X = f + v * math.sqrt(t) * z
            w = x * c * (c * (X - k) > 0)
            moves.append({'price': pair_stats(x * np.maximum(0, c * (X - k))), 'delta': pair_stats(w), 'vega': pair_stats(1e-4 * w * z * math.sqrt(t)),
                          'theta': pair_stats(-DAY * w * v * z / (2 * math.sqrt(t)))})
        return self.table(r), moves

    # -- oracle
    def expect(self, plan, solo):
        for ci, op, rec in solo_ok(plan, solo):
            what = f'{op["name"]} {op["args"]}'
            if rec['status'] != 'ok':
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{rec["exc"]} {rec["msg"]}: {what}'[:1800]}
                continue
            for cls, text in getattr(self, 'check_' + op['name'])(op['args'], plain(rec['value']), plan):
                yield {'cls': cls, 'op': op['id'], 'detail': f'{text}: {what}'[:1800]}

    @staticmethod
    def greek(table, kind, name, i, n):
        """The reported number, or a complaint."""
        col = table.get(kind, {}).get(name)
        if col is None:
            return None, f'{kind} reports no {name}'
        if col.shape != (n,):
            return None, f'{kind} {name} of shape {col.shape} for {n} options'
        return float(col[i]), None

    def judge(self, table, kind, name, i, n, exact, scale, moves=None, window=None):
        got, bad = self.greek(table, kind, name, i, n)
        if bad:
            yield 'sensitivity-wrong', bad
            return
        if window is not None:
            lo, hi = window
            room = 1e-6 * scale
            if not lo - room <= got <= hi + room:
                yield 'sensitivity-wrong', f'{kind} {name} {i} is {got!r}, over the shift the exact one runs from {lo!r} to {hi!r}'
            return
        if not abs(got - exact) <= 2e-6 * abs(exact) + 1e-6 * scale:
            yield 'sensitivity-wrong', f'{kind} {name} {i} is {got!r}, the value moves by {exact!r}'
        if moves and name in moves:
            m, se = moves[name]
            if not abs(got - m) <= 6.5 * se + 2e-4 * scale:
                yield 'simulation-disagrees', f'{kind} {name} {i} is {got!r}, {(m - got) / max(se, 1e-300):.1f} standard errors from the simulated {m!r} ± {se:.3g}'

    @staticmethod
    def split(table, a, i, price, intrinsic, scale):
        if len(table['price']) != len(a['cp']):
            yield 'price-wrong', f'{len(a["cp"])} options, prices {table["price"]}'
            return
        if not abs(table['price'][i] - price) <= 1e-9 * scale:
            yield 'price-wrong', f'price {i} is {float(table["price"][i])!r}, not {price!r}'
        if not a['split']:
            return
        for k in ('intrinsic', 'time'):
            if table.get(k, np.zeros(0)).shape != table['price'].shape:
                yield 'split-wrong', f'{k} value missing or of another shape than the price'
                return
        if not abs(table['intrinsic'][i] - intrinsic) <= 1e-9 * scale:
            yield 'split-wrong', f'intrinsic value {i} is {float(table["intrinsic"][i])!r}, exercise at the forward is worth {intrinsic!r}'
        if not abs(table['intrinsic'][i] + table['time'][i] - table['price'][i]) <= 1e-12 * scale:
            yield 'split-wrong', f'intrinsic plus time value {i} is not the price'

    def fx(self, a, table, g, i, given_F, moves=None):
        n = len(a['cp'])
        scale = {'spot_delta': 1, 'forward_delta': 1, 'vega': 0.01 * g.S * math.sqrt(g.tau), 'theta': DAY * g.S * (g.vol / math.sqrt(g.tau) + 0.05),
                 'gamma': 0.01 / (g.vol * math.sqrt(g.tau)), 'rho': 0.01 * g.S * g.tau}
        if a['an']:
            want = {'spot_delta': g.delta(), 'vega': g.vega(), 'theta': g.theta(), 'gamma': g.gamma(), 'rho': g.rho()}
            want['forward_delta'] = want['spot_delta'] * math.exp(g.rf * g.tau)
            for k, w in want.items():
                yield from self.judge(table, 'analytical_greeks', k, i, n, w, scale[k], moves)
        if a['nu']:
            d = span(g.delta, g.S, 0.01 * g.S)
            up = math.exp(g.rf * g.tau)
            yield from self.judge(table, 'numerical_greeks', 'spot_delta', i, n, None, 1, window=d)
            yield from self.judge(table, 'numerical_greeks', 'forward_delta', i, n, None, 1, window=(d[0] * up, d[1] * up))
            yield from self.judge(table, 'numerical_greeks', 'gamma', i, n, None, scale['gamma'], window=span(g.gamma, g.S, 0.01 * g.S))
            if g.vol > 0.015:
                yield from self.judge(table, 'numerical_greeks', 'vega', i, n, None, scale['vega'], window=span(g.vega, g.vol, 0.01))
            if not given_F:
                yield from self.judge(table, 'numerical_greeks', 'theta', i, n, None, scale['theta'], window=span(g.theta, g.tau, DAY))
            got, bad = self.greek(table, 'numerical_greeks', 'rho', i, n)
            windows = [span(lambda x: g.rho('rd', x), 0.0, 0.01), span(lambda x: g.rho('rf', x), 0.0, 0.01)]
            if given_F:
                windows.append(span(lambda x: -0.01 * g.tau * g.px() * math.exp(-x * g.tau), 0.0, 0.01))
            room = 1e-6 * scale['rho']
            if bad or not any(lo - room <= got <= hi + room for lo, hi in windows):
                yield 'sensitivity-wrong', bad or f'numerical rho {i} is {got!r}; a rate change of 1% moves the price within one of {windows}'

    def check_gk(self, a, v, plan):
        table, moves = v
        for i, (S, tau, rd, rf, cp, K, vol) in enumerate(zip(a['S'], a['tau'], a['rd'], a['rf'], a['cp'], a['K'], a['vol'])):
            g = GK(S, rd, rf, tau, cp, K, vol)
            if a.get('expired') == i:
                yield from self.split(table, a, i, max(0.0, cp * (S - K)), max(0.0, cp * (S - K)), S)
                continue
            yield from self.split(table, a, i, g.px(), g.intrinsic(), S)
            yield from self.mc_price(table, i, moves[i], 1e-4 * S)
            yield from self.fx(a, table, g, i, a['give_F'] and 'expired' not in a, moves[i])

    def check_surface(self, a, v, plan):
        from .c08 import RefSurface
        table, m, spot = v
        ref = RefSurface(plan['world']['surface'])
        n = len(a['cp'])
        if any(m[k].shape != (n,) for k in m):
            yield 'price-wrong', f'market data for {[m[k].shape for k in m]} options, {n} asked'
            return
        for i, ((day, K), cp) in enumerate(zip(a['items'], a['cp'])):
            tau, F, rd, rf, _, _ = ref.market(day)
            for k, w in (('F', F), ('r_d', rd), ('r_f', rf)):
                if not abs(m[k][i] - w) <= 1e-9 * max(1, abs(w)):
                    yield 'price-wrong', f'{k} {i} is {float(m[k][i])!r}, the market data say {w!r}'
            vol = float(m['vol'][i])
            # the market forward fixes the domestic rate
            g = GK(ref.spot, math.log(F / ref.spot) / tau + rf, rf, tau, cp, K, vol)
            yield from self.split(table, a, i, g.px(), g.intrinsic(), g.S)
            yield from self.fx(a, table, g, i, True)

    @staticmethod
    def mc_price(table, i, moves, allowance):
        if 'price' not in moves:
            return
        m, se = moves['price']
        got = float(table['price'][i])
        if not abs(got - m) <= 6.5 * se + allowance:
            yield 'simulation-disagrees', f'price {i} is {got!r}, {(m - got) / max(se, 1e-300):.1f} standard errors from the simulated {m!r} ± {se:.3g}'

    def check_black(self, a, v, plan):
        table, moves = v
        n, s = len(a['cp']), a['shift']
        for i, (F, tau, cp, K, vol, af) in enumerate(zip(a['F'], a['tau'], a['cp'], a['K'], a['vol'], a['af'])):
            px = lambda F=F, vol=vol: af * refs.black76(F, tau, 0.0, cp, K, vol, s)
            sq = math.sqrt(tau)
            delta = lambda f: slope(lambda x: px(F=x), f, 0.1 * (F + s) * vol * sq)
            vega = lambda y: 0.01 * slope(lambda x: px(vol=x), y, 0.05 * y)
            vs = 0.01 * af * (F + s) * sq
            yield from self.split(table, a, i, px(), af * max(0.0, cp * (F - K)), max(1e-3, af * (F + s)))
            yield from self.mc_price(table, i, moves[i], 1e-4 * af * (F + s))
            if a['an']:
                yield from self.judge(table, 'analytical_greeks', 'delta', i, n, delta(F), af, moves[i])
                yield from self.judge(table, 'analytical_greeks', 'vega', i, n, vega(vol), vs, moves[i])
            if a['nu']:
                # the shift is one percent of the (shifted) forward
                yield from self.judge(table, 'numerical_greeks', 'delta', i, n, None, af, window=span(delta, F, 0.01 * (F + s)))
                if vol > 0.015:
                    yield from self.judge(table, 'numerical_greeks', 'vega', i, n, None, vs, window=span(vega, vol, 0.01))

    def check_bach(self, a, v, plan):
        table, moves = v
        n = len(a['cp'])
        for i, (F, tau, cp, K, vol, af) in enumerate(zip(a['F'], a['tau'], a['cp'], a['K'], a['vol'], a['af'])):
            px = lambda F=F, vol=vol, tau=tau: af * refs.bachelier(F, tau, 0.0, cp, K, vol)
            sq = math.sqrt(tau)
            yield from self.split(table, a, i, px(), af * max(0.0, cp * (F - K)), max(1e-3, af * vol * sq))
            yield from self.mc_price(table, i, moves[i], 1e-4 * af * vol * sq)
            if a['an']:
                yield from self.judge(table, 'analytical_greeks', 'delta', i, n, slope(lambda x: px(F=x), F, 0.1 * vol * sq), af, moves[i])
                yield from self.judge(table, 'analytical_greeks', 'vega', i, n, 1e-4 * slope(lambda x: px(vol=x), vol, 0.05 * vol), 1e-4 * af * sq, moves[i])
                yield from self.judge(table, 'analytical_greeks', 'theta', i, n, -DAY * slope(lambda x: px(tau=x), tau, 0.05 * tau),
                                      DAY * af * vol / sq, moves[i])

    def probes(self, plan, solo, conc):
        out = {}
        for c in plan['clients']:
            for op in c:
                a = op['args']
                for k in [op['name']] + [f'{op["name"]} {x}' for x in ('an', 'nu', 'split') if a[x]]:
                    out[k] = out.get(k, 0) + len(a['cp'])
        return out

PROP = C16
