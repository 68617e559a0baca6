"""C08: a currency volatility surface gives the same answer whatever was asked before."""
import datetime as dt
import math
import random

import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults, solo_ok, warm
from ..canon import plain
from .c06 import spellings, RefCurve, build_curve, tenor_date, zero

PAIRS = [('usd', 'aud'), ('usd', 'eur'), ('usd', 'gbp'), ('usd', 'nzd'), ('jpy', 'usd'), ('cad', 'usd'), ('chf', 'eur')]
EXPIRIES = ['1w', '2w', '1m', '2m', '3m', '6m', '9m', '1y', '18m', '2y']
SPELL = {'put': ['{}_delta_put', '{} delta put', '{}_delta_p', '{}Δput', '{}_Δ_p'],
         'call': ['{}_delta_call', '{} delta call', '{}_delta_c', '{}Δcall', '{}_Δ_c'],
         'rr': ['{}_delta_risk_reversal', '{} delta rr', '{}_delta_rr', '{}Δriskreversal'],
         'bf': ['{}_delta_butterfly', '{} delta bf', '{}_delta_bf', '{}Δbutterfly'],
         'atm': ['atm_delta_neutral', 'atm delta neutral', 'at_the_money_delta_neutral', 'atmΔneutral']}
HESTON = ['HESTON_COSINE', 'HESTON_1993', 'HESTON_LIPTON', 'HESTON_CARR_MADAN_GAUSS_KRONROD_QUADRATURE']


def gen_flat_curve(rng, date, horizon=('3y', '4y')):
    ts = ['1w', '1m', '2m', '3m', '6m', '9m', '1y', '18m', '2y']
    k = sorted(rng.sample(range(len(ts)), rng.randint(3, 6)))
    base, slope = rng.uniform(-0.004, 0.055), rng.uniform(-0.003, 0.003)
    pillars = [ts[i] for i in k] + [rng.choice(horizon)]
    return {'date': date, 'interp': rng.choice(['LINEAR_ON_LN_DISCOUNT', 'LINEAR_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_CCZR']),
            'extrap': rng.choice(['NONE', 'FLAT']), 'basis': rng.choice(['ACT_365', 'ACT_360', 'ACT_ACT']), 'x': 'tenor', 'y': 'zero_rate',
            'freq': rng.choice(['CONTINUOUS', 'CONTINUOUS', 'ANNUAL', 'SIMPLE']), 'shuffle': rng.randrange(1000), 'holidays': [],
            'pillars': pillars, 'rates': [round(base + slope * i / 3 + rng.uniform(-0.001, 0.001), 6) for i in range(len(pillars))]}


def gen_surface(rng, heston=False):
    dom, fgn = rng.choice(PAIRS)
    start = dt.date(rng.randint(2014, 2027), rng.randint(1, 12), rng.randint(1, 28))
    if rng.random() < 0.8:
        while start.weekday() >= 5:
            start += dt.timedelta(days=1)
    date = start.isoformat()
    n = 2 if heston else rng.randint(2, 5)
    ex = sorted(rng.sample(range(len(EXPIRIES)), n))
    pillars = [EXPIRIES[i] for i in ex]
    deltas = sorted(rng.sample([5, 10, 15, 20, 25, 30, 35], rng.choice([1, 2, 2, 3, 4])))
    style = rng.choice(['call_put', 'strategy']) if not heston else 'call_put'
    if heston:
        deltas = rng.choice([[10, 25], [15, 30], [10, 20, 30]])
    prem = rng.random() < 0.35
    conv = []
    for t in pillars:
        long = t in ('18m', '2y')
        conv.append(('premium_adjusted_' if prem else 'regular_') + ('forward' if long and rng.random() < 0.7 else 'spot'))
    if heston:
        conv = ['regular_spot'] * n
    u = 1 if heston else rng.choice([1, 1, 1, 1, 0.4, 2.5])   # calm and stressed markets
    base = u * rng.uniform(0.06, 0.15)
    rows, prev = [], 0.0
    for i, t in enumerate(pillars):
        atm = base * (1 + 0.05 * rng.uniform(-1, 1) + 0.02 * i)
        rr, bf = u * rng.uniform(-0.012, 0.012), u * rng.uniform(0.0005, 0.006)
        row = {'atm': round(atm, 5)}
        for d in deltas:
            w = (50 - d) / 40
            row[f'{d}rr'], row[f'{d}bf'] = round(rr * w, 5), round(bf * w * w, 5)
        rows.append(row)
    fx = {'aud': 0.67, 'eur': 1.09, 'gbp': 1.27, 'nzd': 0.61, 'usd': 140.0 if dom == 'jpy' else 1.35}[fgn]
    fwd_t = ['sp', '1w', '1m', '3m', '6m', '9m', '1y', '2y', '3y']
    keep = [t for t in fwd_t if t in ('sp', '1y', '3y') or rng.random() < 0.6]
    slope, k = rng.uniform(-0.03, 0.03), {'sp': 0, '1w': 0.02, '1m': 1 / 12, '3m': 0.25, '6m': 0.5, '9m': 0.75, '1y': 1, '2y': 2, '3y': 3}
    fwds = [round(fx * math.exp(slope * k[t] + (rng.uniform(-0.0005, 0.0005) if t != 'sp' else 0)), 6) for t in keep]
    hol = sorted({refs.iso(start.toordinal() + rng.randint(1, 800)) for _ in range(rng.choice([0, 6, 25]))})
    spell = rng.randrange(1 << 20)
    r = random.Random(spell + 1)
    how = {'dating': r.choice(['curve', 'curve', 'lag', 'spot', 'spot-lag', 'both', 'all']), 'lag': r.choice([0, 1, 2, 2, 3]),
           'quote_by': r.choice(['tenor', 'tenor', 'expiry', 'tenor+expiry', 'delivery', 'mixed']), 'fwd_by': r.choice(['tenor', 'tenor', 'fixing', 'delivery', 'mixed']),
           'labels': r.choice(['range', 'range', 'text', 'repeat', 'back'])}
    return {'date': date, 'dom': dom, 'fgn': fgn, 'pillars': pillars, 'how': how, 'deltas': deltas, 'conv': conv, 'rows': rows, 'style': style,
            'spell': spell, 'shuffle': rng.randrange(1000), 'fwd_tenors': keep, 'fwds': fwds,
            'basis': rng.choice(['ACT_ACT', 'ACT_365', 'ACT_360']), 'cal': rng.choice(['given', 'given', 'given', None]), 'holidays': hol,
            'method': rng.choice(HESTON[:1] * 3 + HESTON) if heston else
            rng.choice(['UNIVARIATE_SPLINE', 'UNIVARIATE_SPLINE', 'CUBIC_SPLINE'] if len(deltas) > 1 else ['UNIVARIATE_SPLINE']),
            'dcurve': gen_flat_curve(rng, date), 'fcurve': gen_flat_curve(rng, date)}


def make_poor(rng, s):
    """Quotes no Heston smile goes through: high wings, or wings that bend back."""
    first = {'atm': round(rng.uniform(0.08, 0.2), 5)}
    for d in s['deltas']:
        first[f'{d}rr'] = round(rng.uniform(-0.02, 0.02), 5)
        first[f'{d}bf'] = round(rng.uniform(*((-0.03, 0.06) if d == s['deltas'][-1] else (0.02, 0.05))) * first['atm'] / 0.12, 5)
    s['rows'] = [dict(first, atm=round(first['atm'] * 1.02 ** i, 5)) for i in range(len(s['rows']))]
    s['poor'] = True


def twisted(s, row, by):
    return dict(s, rows=[{c: round(v * by, 6) for c, v in r.items()} if k == row else r for k, r in enumerate(s['rows'])])


def quote_columns(s):
    """Signed deltas in strike order, and per pillar the call/put/atm volatilities they stand for."""
    sd = [-d / 100 for d in s['deltas']] + [0.5] + [d / 100 for d in reversed(s['deltas'])]
    table = []
    for r in s['rows']:
        table.append([r['atm'] + r[f'{d}bf'] - 0.5 * r[f'{d}rr'] for d in s['deltas']] + [r['atm']] +
                     [r['atm'] + r[f'{d}bf'] + 0.5 * r[f'{d}rr'] for d in reversed(s['deltas'])])
    return sd, table


def quote_frame(s):
    import pandas as pd
    rng = random.Random(s['spell'])
    data = {'tenor': [rng.choice(spellings(t)) for t in s['pillars']],
            'delta_convention': list(s['conv'])}
    cols = []
    sd, table = quote_columns(s)
    for d in s['deltas']:
        if s['style'] == 'strategy':
            cols.append((rng.choice(SPELL['rr']).format(d), [r[f'{d}rr'] for r in s['rows']]))
            cols.append((rng.choice(SPELL['bf']).format(d), [r[f'{d}bf'] for r in s['rows']]))
        else:
            cols.append((rng.choice(SPELL['put']).format(d), [t[sd.index(-d / 100)] for t in table]))
            cols.append((rng.choice(SPELL['call']).format(d), [t[sd.index(d / 100)] for t in table]))
    cols.append((rng.choice(SPELL['atm']), [r['atm'] for r in s['rows']]))
    random.Random(s['shuffle']).shuffle(cols)
    data.update(dict(cols))
    df = in_dates(s, pd.DataFrame(data), s['pillars'], s['how']['quote_by'], 'expiry_date')
    if s['shuffle'] % 3 == 0:
        k = list(range(len(df)))
        random.Random(s['shuffle']).shuffle(k)
        df = df.iloc[k].reset_index(drop=True)
    return label(s, df)


def label(s, df):
    df.index = {'range': lambda: df.index, 'text': lambda: [f'r{i}' for i in range(len(df))], 'repeat': lambda: [i // 2 for i in range(len(df))],
                'back': lambda: list(range(len(df)))[::-1]}[s['how']['labels']]()
    return df


def in_dates(s, df, tenors, by, fix):
    """Quotes given by expiry (fixing) or delivery dates, beside or instead of tenors."""
    import pandas as pd
    ref, r = RefSurface(s), random.Random(s['spell'] + len(df))
    when = [ref.start if t == 'sp' else ref.adjust(t) for t in tenors]
    when = [ref.roll(d) for d in when]
    pick = {'tenor': lambda: None, 'mixed': lambda: r.choice([None, fix, 'delivery_date']), 'delivery': lambda: 'delivery_date'}.get(by, lambda: fix)
    cols = {}
    for i, d in enumerate(when):
        c = pick()
        if c:
            cols.setdefault(c, [pd.NaT] * len(when))[i] = pd.Timestamp(d if c == fix else ref.later(d))
    for c, v in cols.items():
        df[c] = pd.Series(v, index=df.index, dtype='datetime64[ns]')
    if by in ('expiry', 'delivery') and fix == 'expiry_date':
        df = df.drop(columns='tenor')
    return df


def forward_frame(s):
    import pandas as pd
    return label(s, in_dates(s, pd.DataFrame({'tenor': [t.upper() for t in s['fwd_tenors']], 'fx_forward_rate': s['fwds']}), s['fwd_tenors'], s['how']['fwd_by'], 'fixing_date'))


def dating(s):
    """Which of curve date, spot lag and spot date the surface is given."""
    import pandas as pd
    ref = RefSurface(s)
    how, curve, spot, lag = s['how']['dating'], pd.Timestamp(s['date']), pd.Timestamp(ref.later(ref.roll(ref.start))), ref.lag
    if how.startswith('spot') and ref.roll(ref.start) != ref.start:
        how = 'both'
    return {'curve': {'curve_date': curve}, 'lag': {'curve_date': curve, 'spot_offset': lag}, 'spot': {'spot_date': spot}, 'spot-lag': {'spot_date': spot, 'spot_offset': lag},
            'both': {'curve_date': curve, 'spot_date': spot}, 'all': {'curve_date': curve, 'spot_date': spot, 'spot_offset': lag}}[how]


def build_surface(s, frames=None, curves=None):
    import pandas as pd
    from frm.enums import DayCountBasis, FXSmileInterpolationMethod
    from frm.term_structures.fx_volatility_surface import FXVolatilitySurface
    quotes, fwd = frames or (quote_frame(s), forward_frame(s))
    dc, fc = curves or (build_curve(s['dcurve']), build_curve(s['fcurve']))
    cal = np.busdaycalendar(holidays=np.array(s['holidays'], dtype='datetime64[D]')) if s['cal'] else None
    return FXVolatilitySurface(domestic_ccy=s['dom'], foreign_ccy=s['fgn'], fx_forward_curve_df=fwd, domestic_zero_curve=dc,
                               foreign_zero_curve=fc, vol_quotes=quotes, **dating(s), cal=cal,
                               day_count_basis=DayCountBasis[s['basis']], smile_interpolation_method=FXSmileInterpolationMethod[s['method']])


class RefSurface:
    """What the market quotes define, computed without the library."""

    def __init__(self, s):
        self.s = s
        self.start = dt.date.fromisoformat(s['date'])
        if s['cal']:
            hol = s['holidays']
            self.mask = {5, 6}
        else:
            from frm.utils.business_day_calendar import CCY_HOLIDAY  # holiday data, not code
            parts = [CCY_HOLIDAY[s['dom'].upper()], CCY_HOLIDAY[s['fgn'].upper()]]
            hol = {d.isoformat() for p in parts for d in p}
        self.hol = set(hol)
        self.lag = 1 if {s['dom'], s['fgn']} == {'usd', 'cad'} else 2
        if s['how']['dating'] not in ('curve', 'spot'):
            self.lag = s['how']['lag']
        self.exp = [self.adjust(t) for t in s['pillars']]
        self.tau = [refs.year_frac(self.start, e, s['basis']) for e in self.exp]
        self.sd, self.vols = quote_columns(s)
        self.curve_d, self.curve_f = RefCurve(s['dcurve']), RefCurve(s['fcurve'])
        self.fx_dates = [(self.adjust(t) if t != 'sp' else self.roll(self.start)).toordinal() for t in s['fwd_tenors']]
        self.spot = s['fwds'][0]

    def roll(self, d):
        while d.weekday() >= 5 or d.isoformat() in self.hol:
            d += dt.timedelta(days=1)
        return d

    def adjust(self, tenor):
        return tenor_date(self.start, tenor, self.hol)

    def later(self, d):
        """Delivery of a fixing on a business day."""
        for _ in range(self.lag):
            d = self.roll(d + dt.timedelta(days=1))
        return d

    def delivery(self, tenor):
        return self.later(self.adjust(tenor))

    def days(self):
        return [(e - self.start).days for e in self.exp]

    def market(self, day):
        """tau, forward, domestic and foreign continuous rates, volatilities and convention at an expiry."""
        e = self.start + dt.timedelta(days=day)
        tau = refs.year_frac(self.start, e, self.s['basis'])
        F = float(np.interp(e.toordinal(), self.fx_dates, self.s['fwds']))
        rates = [zero('CONTINUOUS', c.years_of(day), c.discount_at(day)) for c in (self.curve_d, self.curve_f)]
        i = next(k for k, x in enumerate(self.exp) if x >= e)
        if self.exp[i] == e:
            vols = self.vols[i]
        else:
            t1, t2 = self.tau[i - 1], self.tau[i]
            vols = []
            for a, b in zip(self.vols[i - 1], self.vols[i]):
                fwd = (b * b * t2 - a * a * t1) / (t2 - t1)
                vols.append(math.sqrt((a * a * t1 + fwd * (tau - t1)) / tau))
        return tau, F, rates[0], rates[1], vols, self.s['conv'][i]

    def strikes(self, day):
        tau, F, rd, rf, vols, conv = self.market(day)
        return [strike_of(F, tau, rf, v, d, conv) for v, d in zip(vols, self.sd)]

    def monotone_variance(self):
        for a, b, t1, t2 in zip(self.vols, self.vols[1:], self.tau, self.tau[1:]):
            if any(y * y * t2 < x * x * t1 for x, y in zip(a, b)):
                return False
        return True

    def smile(self, day):
        from scipy.interpolate import CubicSpline
        K, v = self.strikes(day), self.market(day)[4]
        if len(K) == 3:
            c = np.polyfit(np.array(K) / K[1], v, 2)
            return lambda k: float(np.polyval(c, k / K[1]))
        f = CubicSpline(K, v, bc_type='not-a-knot')
        return lambda k: float(f(k))


def strike_of(F, tau, rf, v, d, conv):
    from scipy.special import ndtr, ndtri
    sq = v * math.sqrt(tau)
    cp = 1 if d > 0 else -1
    df = math.exp(-rf * tau) if conv.endswith('spot') else 1.0
    if abs(d) == 0.5:
        return F * math.exp(0.5 * sq * sq if conv.startswith('regular') else -0.5 * sq * sq)
    regular = F * math.exp(-cp * float(ndtri(abs(d) / df)) * sq + 0.5 * sq * sq)
    if conv.startswith('regular'):
        return regular

    def delta(k):
        return df * cp * k / F * float(ndtr(cp * (math.log(F / k) - 0.5 * sq * sq) / sq)) - d
    # the solution on the branch next to the regular strike, by bisection
    hi = regular
    if cp > 0:
        ks = F * np.exp(np.linspace(-6 * sq, 6 * sq, 4001))
        lo = float(ks[int(np.argmax(ks / F * ndtr((np.log(F / ks) - 0.5 * sq * sq) / sq)))])
    else:
        lo = F * 1e-6
    a, b = delta(lo), delta(hi)
    if a * b > 0:
        return None
    for _ in range(80):
        mid = 0.5 * (lo + hi)
        if delta(mid) * a > 0:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


class C08(Prop):
    id = 'C08'
    title = 'A currency volatility surface gives the same answer whatever was asked before'
    quick, thorough = 220, 9000
    rtol, atol = 0.0, 0.0
    phase_timeout = 240.0
    assumptions = ('expiries inside the quoted range; strikes inside the quoted strikes for the absolute answer, anywhere for the history check',
                   'market quotes free of calendar arbitrage')

    def setup(self):
        from .. import seams
        seams.install()
        # compile the numba kernels for exactly the argument types a surface uses, before any fork
        import random
        import pandas as pd
        s = gen_surface(random.Random(3), True)
        t = pd.Timestamp(s['date'])

        def once(m):
            x = build_surface(dict(s, method=m))
            day = RefSurface(s).days()[0]
            x.price_vanilla_european(pd.DatetimeIndex([t + pd.Timedelta(days=day)]), np.array([x.fx_spot_rate]), np.array([1]))

        for m in HESTON:
            warm(lambda: once(m))

    def gen(self, rng, index):
        heston = rng.random() < 0.12
        poor = heston and rng.random() < 0.5
        while True:
            s = gen_surface(rng, heston)
            if poor:
                make_poor(rng, s)
            ref = RefSurface(s)
            if not self.usable(ref):
                continue
            world, refs_ = [s], [ref]
            if rng.random() < 0.4:   # another surface of the same pair and day: yesterday's quotes, a bump, a scenario
                s2 = self.sibling(rng, s)
                if not self.usable(RefSurface(s2)):
                    continue
                world.append(s2)
                refs_.append(RefSurface(s2))
            break
        n_clients = rng.choice([1, 2, 2, 3, 4]) if not heston else rng.choice([1, 2, 2])
        first, last = ref.days()[0], ref.days()[-1]
        pool = ref.days() + [rng.randint(first, last) for _ in range(rng.choice([1, 3, 6]))]
        if heston:
            pool = rng.sample(pool, 2)
        modes = ('raise',) if poor else ('raise', 'value') if heston else ('raise', 'value', 'limit', 'flag')
        kinds = [x for x in ('cancel', 'memory', 'deadline', 'solver') if rng.random() < 0.5] if rng.random() < 0.75 else []
        clients, k = [], 0
        for c in range(n_clients):
            ops = []
            for _ in range(rng.randint(2, 6) if not heston else rng.randint(1, 3)):
                k += 1
                kind = rng.choice(['vol', 'vol', 'vol', 'price', 'scribble', 'pillars', 'outside', 'forwards', 'twisted'] if not heston else ['vol', 'vol', 'price', 'outside'])
                w = rng.randrange(len(world))
                a, ref = {'w': w}, refs_[w]
                if kind == 'twisted':
                    a.update(self.twist(rng, ref))
                elif kind == 'forwards':
                    a['by'] = rng.choice(['fixing_date', 'delivery_date'])
                    a['days'] = [rng.choice([rng.randint(-5, 1200), rng.randint(0, 60), rng.choice(ref.fx_dates) - ref.start.toordinal()])
                                 for _ in range(rng.choice([1, 2, 5]))]
                    a['flat'], a['series'] = rng.random() < 0.6, rng.random() < 0.5
                elif kind != 'pillars':
                    size = rng.choice([1, 1, 2, 3, 6])
                    items = []
                    for _ in range(size):
                        day = rng.choice(pool)
                        Ks = ref.strikes(day)
                        if rng.random() < 0.5:
                            i = rng.randrange(len(Ks))
                            K, cp = Ks[i], (1 if ref.sd[i] > 0 else -1)
                        else:
                            K, cp = rng.uniform(Ks[0], Ks[-1]), rng.choice([1, -1])
                        if kind in ('vol', 'scribble') and not heston and rng.random() < 0.08:
                            K = Ks[-1] * 1.03
                        items.append([day, float(K), cp])
                    a['items'] = items
                    if kind == 'price':
                        a['greeks'] = rng.random() < 0.5
                        a['split'] = rng.random() < 0.5
                    if kind == 'outside':
                        items[rng.randrange(size)][0] = rng.choice([first - 1, last + 1, last + 40, 0])
                ops.append({'id': f'o{k}', 'name': kind, 'args': a, 'loose': ('fallback' if 'solver' in kinds else 'fit') if heston else None})
            clients.append(ops)
        return {'world': world, 'clients': clients, 'sched': gen_schedule(rng),
                'faults': gen_faults(rng, clients, kinds, rng.choice([0.1, 0.3, 0.5]), modes)}

    @staticmethod
    def twist(rng, ref):
        """Quotes of one expiry so low that total variance falls from the expiry before."""
        k = rng.randrange(1, len(ref.exp)) if len(ref.exp) > 1 else None
        if k is None:
            return {'row': 0, 'by': 1.0, 'items': [[ref.days()[0], ref.strikes(ref.days()[0])[len(ref.sd) // 2], 1]]}
        f = math.sqrt(ref.tau[k - 1] / ref.tau[k]) * rng.uniform(0.85, 0.97)
        by = round(f * ref.s['rows'][k - 1]['atm'] / ref.s['rows'][k]['atm'], 4)
        low = RefSurface(twisted(ref.s, k, by))
        day = rng.randint(low.days()[k - 1], low.days()[k])
        K = low.strikes(day)[len(low.sd) // 2]
        return {'row': k, 'by': by, 'items': [[day, float(K), 1]]}

    @classmethod
    def usable(cls, ref):
        return len(set(ref.exp)) == len(ref.exp) and ref.monotone_variance() and cls.sane(ref)

    @staticmethod
    def sibling(rng, s):
        s2 = dict(s, rows=[dict(r) for r in s['rows']], fwds=list(s['fwds']))
        what = rng.choice(['atm', 'skew', 'spot', 'all'])
        for r in s2['rows']:
            for c in r:
                if what == 'all' or (what == 'atm') == (c == 'atm') and what != 'spot':
                    r[c] = round(r[c] * (1.06 if c == 'atm' else 0.6), 5)
        if what in ('spot', 'all'):
            s2['fwds'] = [round(x * 1.02, 6) for x in s2['fwds']]
        return s2

    @staticmethod
    def sane(ref):
        for e in ref.days():
            K = ref.strikes(e)
            if any(k is None for k in K) or any(b <= a * 1.0005 for a, b in zip(K, K[1:])):
                return False
        for e in range(ref.days()[0], ref.days()[-1], 5):
            K = ref.strikes(e)
            if any(k is None for k in K) or any(b <= a * 1.0005 for a, b in zip(K, K[1:])):
                return False
        return True

    def op_tol(self, op):
        # a Heston smile refitted through another solver fallback moves by the solvers' own tolerance
        return {None: (0.0, 0.0), 'fit': (1e-6, 1e-9), 'fallback': (2e-3, 2e-4)}[op.get('loose')]

    def build(self, plan):
        return [{'s': s, 'surface': build_surface(s)} for s in plan['world']]

    def run_op(self, world, plan, client, op):
        a = dict(op['args'])
        return getattr(self, 'op_' + op['name'])(world[a.pop('w')], **a)

    def ask(self, world, items):
        import pandas as pd
        start = pd.Timestamp(world['s']['date'])
        return (pd.DatetimeIndex([start + pd.Timedelta(days=d) for d, _, _ in items]), np.array([K for _, K, _ in items]),
                np.array([c for _, _, c in items]))

    def op_vol(self, world, items):
        d, K, cp = self.ask(world, items)
        f = world['surface'].interp_vol_surface(d, K, cp)
        return {'vol': f['vol'].values, 'K': f['K'].values, 'cp': f['cp'].values, 'fwd': f['fx_forward_rate'].values,
                'rd': f['domestic_zero_rate'].values, 'rf': f['foreign_zero_rate'].values, 'tau': f['expiry_years'].values,
                'date': [str(x)[:10] for x in f['expiry_date']]}

    def op_scribble(self, world, items):
        d, K, cp = self.ask(world, items)
        f = world['surface'].interp_vol_surface(d, K, cp)
        out = {'vol': f['vol'].values.copy()}
        f.iloc[:, 1:3] = 7.0             # the caller owns what it was given
        f['vol'] *= 3
        f.loc[:, 'fx_forward_rate'] = 0.1
        K *= 2
        return out

    def op_twisted(self, world, row, by, items):
        s = twisted(world['s'], row, by)
        return self.op_vol({'s': s, 'surface': build_surface(s)}, items)

    def op_forwards(self, world, by, days, flat, series):
        import pandas as pd
        from frm.term_structures.fx_helpers import interp_fx_forward_curve_df
        start = pd.Timestamp(world['s']['date'])
        dates = [start + pd.Timedelta(days=d) for d in days]
        dates = pd.Series(dates, index=[7 * k for k in range(len(dates))][::-1]) if series else pd.DatetimeIndex(dates)
        return np.asarray(interp_fx_forward_curve_df(world['surface'].fx_forward_curve_df, dates=dates, date_type=by, flat_extrapolation=flat))

    def op_outside(self, world, items):
        return self.op_vol(world, items)

    def op_price(self, world, items, greeks, split):
        d, K, cp = self.ask(world, items)
        r = world['surface'].price_vanilla_european(d, K, cp, analytical_greeks_flag=greeks, intrinsic_time_split_flag=split)
        out = {'price': np.asarray(r['price']), 'vol': r['market_data_inputs']['vol'].values}
        if greeks:
            out['delta'] = r['analytical_greeks']['forward_delta'].values
        if split:
            out['parts'] = np.asarray(r['intrinsic']) + np.asarray(r['time'])
        return out

    def op_pillars(self, world):
        s = world['surface']
        q = list(s.quotes_column_names)
        return {'dates': [str(x)[:10] for x in s.vol_smile_pillar_df['expiry_date']], 'vols': s.vol_smile_pillar_df[q].values.astype(float),
                'strikes': s.strike_pillar_df[q].values.astype(float), 'delta': np.asarray(s.quotes_signed_delta, float),
                'spot': float(s.fx_spot_rate), 'delivery': [str(x)[:10] for x in s.vol_smile_pillar_df['delivery_date']],
                'spot_date': str(s.spot_date)[:10]}

    # -- oracle
    def expect(self, plan, solo):
        every = [(s, RefSurface(s), {}) for s in plan['world']]
        heston = every[0][0]['method'].startswith('HESTON')
        for ci, op, rec in solo_ok(plan, solo):
            a = op['args']
            s, ref, smiles = every[a['w']]
            what = f'{op["name"]} {a} on {s}'[:1200]
            if op['name'] == 'outside':
                if rec['status'] == 'ok':
                    v = plain(rec['value'])['vol']
                    bad = [k for k, it in enumerate(a['items']) if not ref.days()[0] <= it[0] <= ref.days()[-1] and np.isfinite(v[k])]
                    if bad:
                        yield {'cls': 'outside-answered', 'op': op['id'], 'detail': f'an expiry outside the quotes got volatility {v}: {what}'}
                continue
            if op['name'] == 'twisted':
                if rec['status'] != 'ok':
                    continue     # variance cannot accrue at a negative rate: refused
                s = twisted(s, a['row'], a['by'])
                ref, smiles = RefSurface(s), {}
            if s.get('poor') and rec['status'] != 'ok' and rec['exc'] == 'ValueError' and op['name'] != 'pillars':
                continue   # no smile fits these quotes: refused, and refused again whatever happened since
            if rec['status'] != 'ok':
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{rec["exc"]} {rec["msg"]}: {what}'}
                continue
            v = plain(rec['value'])
            if op['name'] == 'pillars':
                yield from self.check_pillars(ref, op, v, what)
                continue
            if op['name'] == 'forwards':
                yield from self.check_forwards(ref, op, v, what)
                continue
            if len(v['vol']) != len(a['items']):
                yield {'cls': 'shape', 'op': op['id'], 'detail': f'{len(a["items"])} questions, {len(v["vol"])} answers: {what}'}
                continue
            for i, (day, K, cp) in enumerate(a['items']):
                tau, F, rd, rf, vols, conv = ref.market(day)
                Ks = ref.strikes(day)
                got = float(v['vol'][i])

                def wrong(name, g, w):
                    return {'cls': 'wrong-answer', 'op': op['id'], 'detail': f'{name} of question {i} is {g!r}, the quotes say {w!r}: {what}'}
                if heston:
                    near = [x for x, k in zip(vols, Ks) if abs(k / K - 1) < 1e-6]
                    if near and not abs(got - near[0]) <= (0.033 if s.get('poor') else 0.01):
                        yield wrong('volatility at a quote', got, near[0])
                        break
                    if not min(vols) - 0.03 < got < max(vols) + 0.03:
                        yield wrong('volatility', got, vols)
                        break
                elif Ks[0] * (1 - 1e-9) <= K <= Ks[-1] * (1 + 1e-9):
                    if day not in smiles:
                        smiles[day] = ref.smile(day)
                    w = smiles[day](K)
                    if not abs(got - w) <= 2e-6:
                        yield wrong('volatility', got, w)
                        break
                if op['name'] in ('vol', 'twisted'):
                    for name, g, w in (('strike', v['K'][i], K), ('option type', v['cp'][i], cp), ('forward', v['fwd'][i], F),
                                       ('domestic rate', v['rd'][i], rd), ('foreign rate', v['rf'][i], rf), ('time', v['tau'][i], tau)):
                        if not abs(g - w) <= 1e-8 * (1 + abs(w)):
                            yield wrong(name, g, w)
                            break
                    if v['date'][i] != (ref.start + dt.timedelta(days=day)).isoformat():
                        yield wrong('date', v['date'][i], day)
                if op['name'] == 'price':
                    r = math.log(F / ref.spot) / tau + rf
                    w = refs.gk_price(ref.spot, F, r, tau, cp, K, got)
                    if not abs(v['price'][i] - w) <= 1e-9 * ref.spot:
                        yield wrong('price', v['price'][i], w)
                    if 'parts' in v and not abs(v['parts'][i] - w) <= 1e-9 * ref.spot:
                        yield wrong('intrinsic plus time value', v['parts'][i], w)

    @staticmethod
    def check_forwards(ref, op, v, what):
        a = op['args']
        x = ref.fx_dates
        if a['by'] == 'delivery_date':
            x = [(ref.delivery(t) if t != 'sp' else ref.later(ref.roll(ref.start))).toordinal() for t in ref.s['fwd_tenors']]
        out = None if a['flat'] else float('nan')
        want = [float(np.interp(ref.start.toordinal() + d, x, ref.s['fwds'], left=out, right=out)) for d in a['days']]
        got = [float(g) for g in v]
        if len(got) != len(want) or any(not (abs(g - w) <= 1e-9 * w or (g != g and w != w)) for g, w in zip(got, want)):
            yield {'cls': 'wrong-answer', 'op': op['id'], 'detail': f'forward rates {got}, the quotes say {want}: {what}'}

    def check_pillars(self, ref, op, v, what):
        want = [e.isoformat() for e in ref.exp]
        if v['dates'] != want or list(v['delta']) != ref.sd or abs(v['spot'] - ref.spot) > 1e-12:
            yield {'cls': 'wrong-answer', 'op': op['id'], 'detail': f'pillars {v["dates"]} {v["delta"]} {v["spot"]}, expected {want} {ref.sd}: {what}'}
            return
        want = [ref.delivery(t).isoformat() for t in ref.s['pillars']], ref.later(ref.roll(ref.start)).isoformat()
        if (v['delivery'], v['spot_date']) != want:
            yield {'cls': 'wrong-answer', 'op': op['id'], 'detail': f'delivery dates {v["delivery"]}, spot date {v["spot_date"]}; the calendar gives {want}: {what}'}
            return
        K = np.array([ref.strikes(d) for d in ref.days()])
        if np.abs(v['vols'] - np.array(ref.vols)).max() > 1e-12:
            yield {'cls': 'wrong-answer', 'op': op['id'], 'detail': f'volatilities {v["vols"].tolist()}, quoted {ref.vols}: {what}'}
        elif np.abs(v['strikes'] / K - 1).max() > 1e-7:
            yield {'cls': 'wrong-answer', 'op': op['id'], 'detail': f'strikes {v["strikes"].tolist()}, the deltas say {K.tolist()}: {what}'}


PROP = C08
