"""C18: caplet volatilities stripped from cap and floor quotes reprice the quotes and price every schedule consistently."""
import bisect
import datetime as dt
import math
import random

import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults, solo_ok
from ..canon import canon, plain, same
from .c06 import RefCurve, build_curve, calendar_of, spellings
from .c09 import hagan

MONTHS = {'QUARTERLY': 3, 'SEMIANNUAL': 6, 'ANNUAL': 12}
BASES = ['ACT_365', 'ACT_360', 'ACT_366', '_30E_360', '_30_360']
SMILE = ('beta', 'rho', 'volvol', 'vol_n_atm')
FIT = 0.05    # of the price of a quote: what a smile in three numbers per maturity may miss
TIGHT = 2.1e-5


# ---------------------------------------------------------------------------------------------- reference
def rolled(d, holidays):
    while d.weekday() >= 5 or d.isoformat() in holidays:
        d += dt.timedelta(days=1)
    return d


def after_days(d, n, holidays):
    d = rolled(d, holidays)
    for _ in range(n):
        d = rolled(d + dt.timedelta(days=1), holidays)
    return d


def months_of(t):
    return int(t[:-1]) * (12 if t[-1] == 'y' else 1)


class Strip:
    """Dates, forwards and annuities of the caplets of a description, and what its quotes are worth."""

    def __init__(self, s):
        self.s, self.curve = s, RefCurve(s['curve'])
        hol = set(s['holidays'])
        m = MONTHS[s['freq']]
        start = dt.date.fromisoformat(s['curve']['date'])
        self.start, b = start, s['curve']['basis']
        settle = dt.date.fromisoformat(s['settle']) if s['settle'] else after_days(start, s['delay'], hol)
        self.settle = settle
        n = months_of(s['tenors'][-1]) // m
        ends = [rolled(refs.add_months(settle, m * (k + 1)), hol) for k in range(n)]
        self.periods = list(zip(ends, ends[1:]))
        self.yf = [refs.year_frac(p, q, b) for p, q in self.periods]
        self.expiry = [refs.year_frac(start, p, b) for p, _ in self.periods]
        self.df = [self.discount(q) for _, q in self.periods]
        self.F = [self.forward(p, q, b) for p, q in self.periods]
        self.af = [y * d for y, d in zip(self.yf, self.df)]
        self.last = [rolled(refs.add_months(settle, months_of(t)), hol) for t in s['tenors']]   # of each quote
        self.quote = [next(i for i, e in enumerate(self.last) if q <= e) for _, q in self.periods]
        self.quote_F = []
        for e in self.last:
            k = [i for i, (_, q) in enumerate(self.periods) if q <= e]
            self.quote_F.append(sum(self.F[i] * self.af[i] for i in k) / sum(self.af[i] for i in k))

    def discount(self, d):
        return self.curve.discount_at((d - self.start).days)

    def forward(self, p, q, basis):
        return (self.discount(p) / self.discount(q) - 1) / refs.year_frac(p, q, basis)

    def rows(self, i):
        return [k for k, q in enumerate(self.quote) if q <= i]

    def value(self, i, K, cp, vol):
        """Price of the cap or floor of quote i, vol(row) the log-normal volatility of each caplet."""
        return sum(self.af[k] * refs.black76(self.F[k], self.expiry[k], 0.0, cp, K, vol(k), self.s['shift']) for k in self.rows(i))

    def value_n(self, i, K, cp, vol_n):
        return sum(self.af[k] * refs.bachelier(self.F[k], self.expiry[k], 0.0, cp, K, vol_n) for k in self.rows(i))

    def quoted(self):
        """(quote, offset in basis points) -> (strike, call or put, quoted flat volatility)."""
        out = {}
        for i in range(len(self.last)):
            for o, v in zip([0] + self.s['offsets'], self.s['vols'][i]):
                out[i, o] = (self.quote_F[i] + o / 1e4, 1 if o > 0 else -1, v)
        return out


def root(f, lo, hi):
    a = f(lo)
    for _ in range(90):
        mid = 0.5 * (lo + hi)
        if (f(mid) > 0) == (a > 0):
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def sln_of_normal(F, tau, vol_n, shift):
    X = refs.bachelier(F, tau, 0.0, 1, F, vol_n)
    return root(lambda v: refs.black76(F, tau, 0.0, 1, F, v, shift) - X, 1e-5, 6.0)


def alpha_of(F, tau, atm, beta, rho, nu, shift):
    g = atm * (F + shift) ** (1 - beta)
    return root(lambda a: hagan(F, F, tau, a, beta, rho, nu, shift) - atm, 0.3 * g, 2.0 * g)


def smile_at(x, X, Y):
    """Straight line through pillars, flat outside."""
    if x <= X[0]:
        return Y[0]
    if x >= X[-1]:
        return Y[-1]
    k = bisect.bisect_right(X, x)
    w = (x - X[k - 1]) / (X[k] - X[k - 1])
    return (1 - w) * Y[k - 1] + w * Y[k]


# ---------------------------------------------------------------------------------------------- worlds
def gen_strip(rng, small=False):
    holidays, date = [], dt.date(rng.randint(2014, 2027), rng.randint(1, 12), rng.randint(1, 28))
    freq = rng.choice(['SEMIANNUAL', 'SEMIANNUAL', 'QUARTERLY'])
    tenors = rng.choice([['1y'], ['1y', '2y'], ['1y', '18m']] if small else
                        [['1y', '2y'], ['1y', '18m', '2y'], ['18m', '3y'], ['1y', '2y', '3y']] + [['6m', '1y', '2y']] * (freq == 'QUARTERLY'))
    if small and freq == 'QUARTERLY':
        tenors = tenors[:1]
    for _ in range(rng.choice([0, 0, 4, 12])):
        holidays.append((date + dt.timedelta(days=rng.randint(0, 1200))).isoformat())
    lv, sl = rng.uniform(0.02, 0.055), rng.uniform(-0.002, 0.002)
    pillars = [30, 200, 380, 700, 1060, 1500, 1800]
    pillars = [p + rng.randint(-20, 20) for p in pillars]
    curve = {'date': date.isoformat(), 'interp': rng.choice(['LINEAR_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_CCZR']),
             'extrap': rng.choice(['NONE', 'FLAT']), 'basis': rng.choice(BASES), 'x': 'days', 'y': rng.choice(['zero_rate', 'discount_factor']),
             'freq': rng.choice(['CONTINUOUS', 'ANNUAL', 'SEMIANNUAL']), 'shuffle': rng.randrange(1000), 'holidays': [], 'pillars': pillars,
             'rates': [round(lv + sl * math.tanh(p / 900) + rng.uniform(-0.0003, 0.0003), 6) for p in pillars]}
    s = {'curve': curve, 'holidays': sorted(set(holidays)), 'freq': freq, 'tenors': tenors, 'shift': rng.choice([0.01, 0.02, 0.03]),
         'delay': rng.choice([0, 1, 2, 2]), 'settle': None, 'how': rng.randrange(1 << 16)}
    if rng.random() < 0.3:
        s['settle'] = after_days(date, rng.randint(0, 4), set(holidays)).isoformat()
    s['offsets'], s['vols'] = [], []
    ref = Strip({**s, 'tenors': tenors})
    if rng.random() < 0.4:       # caplets that start or end on a holiday
        dates = [d for p in ref.periods for d in p if d > ref.settle + dt.timedelta(days=10)]
        s['holidays'] = sorted(set(s['holidays']) | {d.isoformat() for d in rng.sample(dates, min(len(dates), 2)) + dates[-2:]})
        ref = Strip(s)
    while ref.settle.day > 28:   # months without that day
        s['settle'] = after_days(ref.settle + dt.timedelta(days=1), 0, set(holidays)).isoformat()
        ref = Strip(s)
    # a market with a smile of the kind which is fitted
    low = min(ref.F) + s['shift']
    pool = [o for o in (-150, -100, -75, -57, -50, -37.5, -25, 25, 29, 37.5, 50, 96, 100, 150) if abs(o) / 1e4 < 0.4 * low]
    down, up = [o for o in pool if o < 0], [o for o in pool if o > 0]
    s['offsets'] = sorted(rng.sample(down, rng.choice([1, 2])) + rng.sample(up, rng.choice([1, 2])))
    b = rng.choice([0.0, 0.3, 0.5, 0.7])
    X = [ref.expiry[max(ref.rows(i))] for i in range(len(tenors))]
    level, rho, nu = rng.uniform(0.15, 0.35), rng.uniform(-0.3, 0.25), rng.uniform(0.3, 0.6)
    truth = {'vol_n_atm': [], 'rho': [], 'volvol': [], 'beta': [b] * len(X)}
    for i in range(len(X)):
        truth['vol_n_atm'].append(level * (sum(ref.F) / len(ref.F) + s['shift']) * (1 + 0.08 * i * rng.uniform(-1, 1)))
        truth['rho'].append(rho + 0.05 * i * rng.uniform(-1, 1))
        truth['volvol'].append(nu * (1 + 0.1 * i * rng.uniform(-1, 0.5)))
    par = []
    for k, x in enumerate(ref.expiry):
        p = {n: smile_at(x, X, v) for n, v in truth.items()}
        atm = sln_of_normal(ref.F[k], x, p['vol_n_atm'], s['shift'])
        par.append((alpha_of(ref.F[k], x, atm, b, p['rho'], p['volvol'], s['shift']), b, p['rho'], p['volvol']))
    for i in range(len(X)):
        row = []
        for o in [0] + s['offsets']:
            K, cp = ref.quote_F[i] + o / 1e4, 1 if o > 0 else -1
            px = ref.value(i, K, cp, lambda k: hagan(ref.F[k], K, ref.expiry[k], *par[k], s['shift']))
            row.append(round(root(lambda v: ref.value(i, K, cp, lambda k: v) - px, 1e-3, 4.0), 6))
        s['vols'].append(row)
    # without a given beta the fit can run into smiles that have no alpha, which is an error
    s['beta'] = [b] * len(X) if not small or rng.random() < 0.65 else [None] * len(X) if rng.random() < 0.5 else None
    return s


def label_of(o, r):
    if o == 0:
        return r.choice(['atmf', 'ATMF', 'ATM', 'At The Money Forward', 'at-the-money-forward'])
    sign = '+' if o > 0 and r.random() < 0.7 else ''
    return r.choice([f'{sign}{o}bps', f'{sign}{o} bps', f'{sign}{o}bp'] + [f'{sign}{o / 100:g}%'])


def quote_frame(s):
    import pandas as pd
    r = random.Random(s['how'])
    cols = {'tenor': [r.choice(spellings(t)) for t in s['tenors']]}
    names = [0] + s['offsets']
    order = list(range(len(names)))
    r.shuffle(order)
    for j in order:
        cols[label_of(names[j], r)] = [row[j] for row in s['vols']]
    if s['beta'] is not None:
        cols['beta'] = [np.nan if b is None else b for b in s['beta']]
    df = pd.DataFrame(cols)
    rows = list(range(len(df)))
    if r.random() < 0.4:
        r.shuffle(rows)
    df = df.iloc[rows]
    how = r.random()
    df.index = [0] * len(df) if how < 0.2 else [f'q{i}' for i in rows] if how < 0.4 else range(len(df)) if how < 0.8 else rows
    return df


def build_strip(s, curve, frame=None):
    import pandas as pd
    from frm.enums import PeriodFreq
    from frm.term_structures.optionlet import Optionlet
    kw = {'settlement_date': pd.Timestamp(s['settle'])} if s['settle'] else {'settlement_delay': s['delay']}
    return Optionlet(curve_date=pd.Timestamp(s['curve']['date']), quote_vol_sln=quote_frame(s) if frame is None else frame, ln_shift=s['shift'],
                     zero_curve=curve, optionlet_freq=PeriodFreq[s['freq']], busdaycal=calendar_of({'holidays': s['holidays']}), **kw)


def build_schedule(p):
    import pandas as pd
    from frm.enums import DayCountBasis, PeriodFreq
    from frm.utils import BaseSchedule
    x = BaseSchedule(start_date=pd.Timestamp(p['start']), end_date=pd.Timestamp(p['end']), freq=PeriodFreq[p['freq']], cal=calendar_of({'holidays': p['holidays']}),
                     roll_user_specified_dates=True)
    x.add_payment_dates(payment_delay=p['pay'])
    if p['years']:
        x.add_period_yearfrac(DayCountBasis[p['years']])
    return x


def texts(col):
    return [str(x)[:10] for x in col]


def smiles(o):
    t = o.term_structure
    return {'period_start': texts(t['period_start']), **{c: [float(x) for x in t[c]] for c in SMILE}}


def strip_table(o):
    """Everything an Optionlet shows, in plain values."""
    t, out = o.term_structure, {}
    for c in ('period_start', 'period_end', 'payment_date'):
        out[c] = texts(t[c])
    for c in ('quote_nb', 'period_yearfrac', 'discount_factors', 'annuity_factor', 'expiry_years', 'F', 'vol_n_atm', 'vol_sln_atm', 'alpha', 'beta', 'rho', 'volvol'):
        out[c] = [float(x) for x in t[c]]
    cols = list(o.quote_cols)
    out['cols'] = cols
    q = o.quote_vol_sln
    out['quotes'] = {c: texts(q[c]) for c in ('settlement_date', 'effective_date', 'termination_date', 'last_optionlet_expiry_date')}
    out['quotes'].update({c: [float(x) for x in q[c]] for c in ('term_years', 'last_optionlet_expiry_years', 'F')}, tenor=[str(x) for x in q['tenor']])
    for name in ('quote_vol_sln', 'quote_strikes', 'quote_cp', 'quote_pxs', 'quote_vol_n'):
        out[name] = {c: [float(x) for x in getattr(o, name)[c]] for c in cols}
    return out


class C18(Prop):
    id = 'C18'
    title = 'Stripped caplet volatilities reprice quotes and price schedules consistently'
    quick, thorough = 200, 6000
    rtol = atol = 0.0
    fault_kinds = ('cancel', 'memory', 'deadline', 'solver', 'stdout')
    real_components = 'all code under /repo/frm reached by the workload, numpy, pandas, scipy, numba'
    assumptions = ('one to three quotes up to three years, caplets every three or six months, settlement up to the 28th of a month, tenors on the grid of the caplets',
                   'quotes come from a SABR market with moderate smiles; a quote is repriced when it is met to 5% of its price',
                   'schedules start inside the stripped term')
    phase_timeout = 400.0

    # -- workload
    def gen(self, rng, index):
        strips = [gen_strip(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
        schedules = []
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.randrange(len(strips))
            ref, s = Strip(strips[k]), strips[k]
            i = rng.randrange(len(ref.last))
            if rng.random() < 0.45:     # the caplets of a quote
                p = {'start': ref.periods[0][0].isoformat(), 'end': ref.last[i].isoformat(), 'freq': s['freq']}
            else:
                a = ref.periods[0][0] + dt.timedelta(days=rng.choice([0, rng.randint(0, 200)]))
                p = {'start': a.isoformat(), 'end': (max(a, ref.periods[-1][1]) + dt.timedelta(days=rng.randint(-60, 150))).isoformat() if rng.random() < 0.5
                     else (a + dt.timedelta(days=rng.randint(100, 500))).isoformat(), 'freq': rng.choice(['QUARTERLY', 'SEMIANNUAL', 'ANNUAL'])}
            p |= {'k': k, 'holidays': s['holidays'], 'pay': rng.choice([0, 0, 2, 5]), 'years': rng.choice([None, None] + BASES)}
            schedules.append(p)
        clients, n = [], 0
        shown = set()
        for c in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                n += 1
                m = rng.randrange(len(schedules))
                k = schedules[m]['k']
                kind = rng.choice(['ts', 'ts', 'ts', 'sln', 'normal', 'smile', 'bad'] + ['make'] * (rng.random() < 0.25))
                if k not in shown and rng.random() < 0.7:
                    kind = 'table'
                    shown.add(k)
                a = {'k': k}
                if kind in ('ts', 'sln', 'normal', 'smile', 'bad'):
                    a['m'] = m
                if kind in ('ts', 'sln', 'normal'):
                    ref, s = Strip(strips[k]), strips[k]
                    mean = sum(ref.F) / len(ref.F)
                    a |= {'basis': rng.choice(BASES), 'each': rng.random() < 0.35, 'cp': rng.choice([1, -1]), 'u': rng.randrange(1 << 16),
                          'K': mean + rng.choice([0, rng.choice(s['offsets']), rng.uniform(-0.4, 0.6) * 1e4 * (mean + s['shift']) * 0.5]) / 1e4}
                    if kind == 'ts':
                        a['flat'] = rng.random() < 0.4
                    else:
                        a['vol'] = rng.uniform(0.1, 0.6) if kind == 'sln' else rng.uniform(0.004, 0.015)
                        a['vol_each'] = rng.random() < 0.3
                if kind == 'bad':
                    a['what'] = rng.choice(['cp', 'length', 'mixed', 'text'])
                if kind == 'make':
                    a = {'s': gen_strip(rng, small=True)}
                ops.append({'id': f'o{n}', 'name': kind, 'args': a})
            clients.append(ops)
        kinds = [x for x in self.fault_kinds if rng.random() < 0.5] if rng.random() < 0.7 else []
        return {'world': {'strips': strips, 'schedules': schedules}, 'clients': clients, 'sched': gen_schedule(rng),
                'faults': gen_faults(rng, clients, kinds, 0.3)}

    def setup(self):
        from .. import seams
        seams.install()

    def build(self, plan):
        w = plan['world']
        frames = [quote_frame(s) for s in w['strips']]
        curves = [build_curve(s['curve']) for s in w['strips']]
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            strips = [build_strip(s, c, f) for s, c, f in zip(w['strips'], curves, frames)]
        return {'strips': strips, 'frames': frames, 'curves': curves, 'schedules': [build_schedule(p) for p in w['schedules']], 'spec': w}

    def before(self, world, plan):
        return [canon(x) for x in self.seen(world)]

    @staticmethod
    def seen(world):
        out = [('schedule', x.df.copy()) for x in world['schedules']]
        for o, f in zip(world['strips'], world['frames']):
            out += [('term structure', o.term_structure.copy()), ('quotes of the caller', f.copy())]
            out += [(n, getattr(o, n).copy()) for n in ('quote_vol_sln', 'quote_strikes', 'quote_cp', 'quote_pxs', 'quote_vol_n')]
        return out

    def after(self, world, plan, token):
        for (name, x), old in zip(self.seen(world), token):
            d = same(old, canon((name, x)), 0.0, 0.0)
            if d:
                yield {'cls': 'shared-state-changed', 'detail': f'{name}: {d}'}

    # -- operations
    def op_table(self, world, k):
        return strip_table(world['strips'][k])

    def op_make(self, world, s):
        frame = quote_frame(s)
        old = canon(frame.copy())
        out = strip_table(build_strip(s, build_curve(s['curve']), frame))
        return {'table': out, 'frame': same(old, canon(frame), 0.0, 0.0)}

    def ask(self, world, k, m, basis, each, cp, u, K):
        from frm.enums import DayCountBasis
        n = len(world['schedules'][m].df)
        r = random.Random(u)
        kw = {'schedule': world['schedules'][m], 'day_count_basis': DayCountBasis[basis], 'K': K, 'cp': cp}
        if each:
            kw['K'], kw['cp'] = [K + r.uniform(-0.002, 0.002) for _ in range(n)], [r.choice([1, -1]) for _ in range(n)]
            if r.random() < 0.6:
                kw['K'], kw['cp'] = np.array(kw['K']), np.array(kw['cp'])
        return world['strips'][k], kw, n, r

    def shown(self, o, df, **more):
        num = [c for c in df.columns if c not in ('period_start', 'period_end', 'payment_date')]
        return {'rows': {**{c: texts(df[c]) for c in ('period_start', 'period_end', 'payment_date')}, **{c: [float(x) for x in df[c]] for c in num}},
                'smiles': smiles(o), **more}

    def op_ts(self, world, k, m, basis, each, cp, u, K, flat):
        o, kw, n, r = self.ask(world, k, m, basis, each, cp, u, K)
        if isinstance(kw['K'], list):
            kw['K'] = np.array(kw['K'])
        if flat:
            df, a, b = o.price_optionlets_per_term_structure(solve_equivalent_flat_vol=True, **kw)
            return self.shown(o, df, flat=[float(a), float(b)])
        return self.shown(o, o.price_optionlets_per_term_structure(**kw))

    def vols(self, vol, vol_each, n, r):
        return np.array([vol * r.uniform(0.8, 1.2) for _ in range(n)]) if vol_each else r.choice([vol, np.array([vol])])

    def op_sln(self, world, vol, vol_each, **a):
        o, kw, n, r = self.ask(world, **a)
        return self.shown(o, o.price_optionlets_per_flat_vol_sln(vol_sln_override=self.vols(vol, vol_each, n, r), **kw))

    def op_normal(self, world, vol, vol_each, **a):
        o, kw, n, r = self.ask(world, **a)
        return self.shown(o, o.price_optionlets_per_flat_vol_n(vol_n_override=self.vols(vol, vol_each, n, r), **kw))

    def op_smile(self, world, k, m):
        o = world['strips'][k]
        return self.shown(o, o.interpolate_sabr_term_structure(world['schedules'][m].df))

    def op_bad(self, world, k, m, what):
        from frm.enums import DayCountBasis
        n = len(world['schedules'][m].df)
        K, cp = {'cp': (0.03, 2), 'length': ([0.03] * (n + 1), [1] * (n + 1)), 'mixed': ([0.03] * n, 1), 'text': ('3%', 1)}[what]
        world['strips'][k].price_optionlets_per_term_structure(schedule=world['schedules'][m], K=K, cp=cp, day_count_basis=DayCountBasis.ACT_365)

    # -- oracle
    def problems(self, plan, op, value):
        a = op['args']
        v = plain(value)
        if op['name'] in ('table', 'make'):
            if op['name'] == 'make':
                if v['frame'] is not None:
                    yield 'quotes-changed', f"the caller's quotes: {v['frame']}"
                v = v['table']
            yield from self.table_problems(a['s'] if op['name'] == 'make' else plan['world']['strips'][a['k']], v)
        elif op['name'] == 'bad':
            yield 'accepted', f'accepted {a["what"]}'
        else:
            yield from self.price_problems(plan, op, v)

    def table_problems(self, s, t):
        ref = Strip(s)
        n = len(ref.periods)
        for c, want in (('period_start', [p.isoformat() for p, _ in ref.periods]), ('period_end', [q.isoformat() for _, q in ref.periods]),
                        ('payment_date', [q.isoformat() for _, q in ref.periods]), ('quote_nb', [float(q) for q in ref.quote])):
            if list(t[c]) != want:
                yield 'wrong-schedule', f'{c} {list(t[c])[:6]} instead of {want[:6]}'
                return
        for c, want in (('period_yearfrac', ref.yf), ('discount_factors', ref.df), ('annuity_factor', ref.af), ('expiry_years', ref.expiry), ('F', ref.F)):
            d = off(t[c], want, 1e-9)
            if d:
                yield 'wrong-value', f'{c}: {d}'
        q = t['quotes']
        for c, want in (('settlement_date', [ref.settle] * len(ref.last)), ('effective_date', [ref.periods[0][0]] * len(ref.last)), ('termination_date', ref.last),
                        ('last_optionlet_expiry_date', [rolled(refs.add_months(ref.settle, months_of(x) - MONTHS[s['freq']]), set(s['holidays'])) for x in s['tenors']])):
            if list(q[c]) != [x.isoformat() for x in want]:
                yield 'wrong-schedule', f'{c} {list(q[c])} instead of {[x.isoformat() for x in want]}'
        d = off(q['F'], ref.quote_F, 1e-9)
        if d:
            yield 'wrong-value', f'forward of the quotes: {d}'
        labels = {('atmf' if o == 0 else f'{o:g}bps'): o for o in [0] + s['offsets']}
        if sorted(t['cols']) != sorted(labels):
            yield 'wrong-labels', f'{t["cols"]} for the quotes {[0] + s["offsets"]} in basis points'
            return
        quoted = ref.quoted()
        for name, o in labels.items():
            for i in range(len(ref.last)):
                K, cp, vol = quoted[i, o]
                px = ref.value(i, K, cp, lambda k: vol)
                for col, want, tol in (('quote_vol_sln', vol, 1e-12), ('quote_strikes', K, 1e-9), ('quote_cp', cp, 0), ('quote_pxs', px, 1e-7)):
                    if not abs(t[col][name][i] - want) <= tol * abs(want):
                        yield 'wrong-value', f'{col} {name} of quote {i}: {t[col][name][i]!r} instead of {want!r}'
                got = ref.value_n(i, K, cp, t['quote_vol_n'][name][i])
                if not abs(got - px) <= TIGHT * px:
                    yield 'wrong-normal-volatility', f'{name} of quote {i}: {t["quote_vol_n"][name][i]!r} means {got!r}, quoted {px!r}'
        # the stripped smiles
        pillar = [max(ref.rows(i)) for i in range(len(ref.last))]
        X = [ref.expiry[k] for k in pillar]
        for c in SMILE:
            want = [smile_at(x, X, [t[c][k] for k in pillar]) for x in ref.expiry]
            d = off(t[c], want, 1e-9)
            if d:
                yield 'not-interpolated', f'{c}: {d}'
        if not abs(t['vol_n_atm'][0] - t['quote_vol_n']['atmf'][0]) <= 1e-12:
            yield 'wrong-value', f'first at the money volatility {t["vol_n_atm"][0]!r}, quoted {t["quote_vol_n"]["atmf"][0]!r}'
        par = []
        for k in range(n):
            F, x, sln = ref.F[k], ref.expiry[k], t['vol_sln_atm'][k]
            got, want = refs.black76(F, x, 0.0, 1, F, sln, s['shift']), refs.bachelier(F, x, 0.0, 1, F, t['vol_n_atm'][k])
            if not abs(got - want) <= TIGHT * want:
                yield 'wrong-value', f'at the money volatilities {sln!r} and {t["vol_n_atm"][k]!r} of caplet {k} mean {got!r} and {want!r}'
            p = tuple(t[c][k] for c in ('alpha', 'beta', 'rho', 'volvol'))
            par.append(p)
            bad = self.smile_problem(F, x, sln, *p, s['shift'])
            if bad:
                yield 'wrong-smile', f'caplet {k}: {bad}'
                return
        for i in range(len(ref.last)):
            b = s['beta'][i] if s['beta'] else None
            if b is not None and t['beta'][pillar[i]] != b:
                yield 'wrong-smile', f'beta {t["beta"][pillar[i]]!r} instead of {b} at quote {i}'
            if i:
                yield from self.atm_problem(ref, t, i, pillar, par, quoted[i, 0])
            for name, o in labels.items():
                K, cp, vol = quoted[i, o]
                got, want = ref.value(i, K, cp, lambda k: hagan(ref.F[k], K, ref.expiry[k], *par[k], s['shift'])), ref.value(i, K, cp, lambda k: vol)
                if not abs(got - want) <= FIT * want:
                    yield 'not-repriced', f'{name} of quote {i}: the caplets add up to {got!r}, quoted {want!r} ({got / want - 1:+.2%})'

    def atm_problem(self, ref, t, i, pillar, par, quote):
        """The at the money volatility of a pillar makes up for what the caplets before it leave of the quote."""
        K, cp, vol = quote
        s = ref.s
        before = [k for k in range(len(par)) if ref.quote[k] < i]
        mine = [k for k in range(len(par)) if ref.quote[k] == i]
        sln = [hagan(ref.F[k], K, ref.expiry[k], *par[k], s['shift']) for k in before]
        left = ref.value(i, K, cp, lambda k: vol) - sum(ref.af[k] * refs.black76(ref.F[k], ref.expiry[k], 0.0, cp, K, v, s['shift']) for k, v in zip(before, sln))
        k = before[-1]
        X = refs.black76(ref.F[k], ref.expiry[k], 0.0, 1, K, sln[-1], s['shift'])
        prior = root(lambda v: refs.bachelier(ref.F[k], ref.expiry[k], 0.0, 1, K, v) - X, 1e-6, 1.0)
        top = t['vol_n_atm'][pillar[i]]
        got = sum(ref.af[k] * refs.bachelier(ref.F[k], ref.expiry[k], 0.0, cp, K,
                                              smile_at(ref.expiry[k], [ref.expiry[before[-1]], ref.expiry[pillar[i]]], [prior, top])) for k in mine)
        if not abs(got - left) <= 2e-4 * abs(left):
            yield 'wrong-at-the-money', f'quote {i}: its own caplets are worth {got!r}, {left!r} is left of the quote'

    @staticmethod
    def smile_problem(F, x, sln, alpha, beta, rho, nu, shift):
        if not (alpha > 0 and 0 <= beta <= 1 and abs(rho) < 1 and nu > 0):
            return f'parameters {alpha, beta, rho, nu}'
        atm = hagan(F, F, x, alpha, beta, rho, nu, shift)
        if not abs(atm - sln) <= 1e-8:
            return f'{alpha, beta, rho, nu} give {atm!r} at the money instead of {sln!r}'
        g = sln * (F + shift) ** (1 - beta)
        if not 0.3 * g < alpha < 3 * g:
            return f'alpha {alpha} for a volatility of {sln} at {F + shift}'
        return None

    def price_problems(self, plan, op, v):
        a, w = op['args'], plan['world']
        s, rows = w['strips'][a['k']], v['rows']
        ref = Strip(s)
        p = w['schedules'][a['m']]
        days = [[dt.date.fromisoformat(x) for x in rows[c]] for c in ('period_start', 'period_end', 'payment_date')]
        n = len(days[0])
        hol = set(p['holidays'])
        if days[0][0] < ref.periods[0][0] or any(q != u for q, u in zip(days[1], days[0][1:])) or \
                any(pay != after_days(q, p['pay'], hol) for q, pay in zip(days[1], days[2])):
            yield 'wrong-schedule', f'{list(zip(*days))[:5]} for {p}'
            return
        basis = s['curve']['basis']
        expiry = [refs.year_frac(ref.start, d, basis) for d in days[0]]
        F = [ref.forward(d, e, basis) for d, e in zip(days[0], days[1])]
        want = {'expiry_years': expiry, 'F': F}
        X = [dt.date.fromisoformat(x).toordinal() for x in v['smiles']['period_start']]
        for c in SMILE:
            want[c] = [smile_at(d.toordinal(), X, v['smiles'][c]) for d in days[0]]
        for c, y in want.items():
            d = off(rows[c], y, 1e-8)
            if d:
                yield 'wrong-value', f'{c}: {d}'
                return
        par = []
        for k in range(n):
            x, sln = expiry[k], rows['vol_sln_atm'][k]
            got, px = refs.black76(F[k], x, 0.0, 1, F[k], sln, s['shift']), refs.bachelier(F[k], x, 0.0, 1, F[k], want['vol_n_atm'][k])
            if not abs(got - px) <= TIGHT * px:
                yield 'wrong-value', f'at the money volatilities {sln!r} and {want["vol_n_atm"][k]!r} of caplet {k} mean {got!r} and {px!r}'
            par.append((rows['alpha'][k], want['beta'][k], want['rho'][k], want['volvol'][k]))
            bad = self.smile_problem(F[k], x, sln, *par[-1], s['shift'])
            if bad:
                yield 'wrong-smile', f'caplet {k}: {bad}'
                return
        if op['name'] == 'smile':
            return
        # the strikes, flags and volatilities asked for
        r = random.Random(a['u'])
        K, cp = [a['K']] * n, [a['cp']] * n
        if a['each']:
            K, cp = [a['K'] + r.uniform(-0.002, 0.002) for _ in range(n)], [r.choice([1, -1]) for _ in range(n)]
            r.random()
        normal = op['name'] == 'normal'
        if op['name'] == 'ts':
            vol = [hagan(F[k], K[k], expiry[k], *par[k], s['shift']) for k in range(n)]
        elif a['vol_each']:
            vol = [a['vol'] * r.uniform(0.8, 1.2) for _ in range(n)]
        else:
            vol = [a['vol']] * n
        yf = [refs.year_frac(d, e, a['basis']) for d, e in zip(days[0], days[1])]
        df = [ref.discount(d) for d in days[2]]
        af = [y * d for y, d in zip(yf, df)]

        def px(k, f=None, y=None):
            f, y = F[k] if f is None else f, vol[k] if y is None else y
            return af[k] * (refs.bachelier(f, expiry[k], 0.0, cp[k], K[k], y) if normal else refs.black76(f, expiry[k], 0.0, cp[k], K[k], y, s['shift']))
        price = [px(k) for k in range(n)]
        inner = [af[k] * max(0.0, cp[k] * (F[k] - K[k])) for k in range(n)]
        unit = max(af) * max(abs(x) + s['shift'] for x in F)
        for c, y, tol in (('period_yearfrac', yf, 0), ('discount_factor', df, 0), ('annuity_factor', af, 0), ('K', K, 0), ('cp', cp, 0),
                          ('vol_n' if normal else 'vol_sln', vol, 0), ('price', price, 1e-8 * unit), ('forward_price', [x / z for x, z in zip(price, af)], 1e-8 * unit / min(af)),
                          ('intrinsic', inner, 1e-8 * unit), ('time', [x - z for x, z in zip(price, inner)], 2e-8 * unit)):
            d = off(rows[c], y, 1e-8, tol)
            if d:
                yield 'wrong-value', f'{c}: {d}'
                return
        sd = [vol[k] * math.sqrt(expiry[k]) * (1 if normal else F[k] + s['shift']) for k in range(n)]
        delta = [(px(k, f=F[k] + 1e-3 * sd[k]) - px(k, f=F[k] - 1e-3 * sd[k])) / (2e-3 * sd[k]) for k in range(n)]
        vega = [(px(k, y=vol[k] * 1.001) - px(k, y=vol[k] * 0.999)) / (0.002 * vol[k]) * (1e-4 if normal else 0.01) for k in range(n)]
        for c, y, tol in (('delta', delta, 1e-5 * max(af)), ('vega', vega, 1e-5 * max(abs(x) for x in vega))):
            d = off(rows[c], y, 1e-4, tol)
            if d:
                yield 'wrong-sensitivity', f'{c}: {d}'
        if op['name'] == 'ts' and a['flat']:
            total, low = sum(price), sum(inner)
            if total - low > 2e-2 * total:
                got = [sum(px(k, y=v['flat'][0]) for k in range(n)),
                       sum(af[k] * refs.bachelier(F[k], expiry[k], 0.0, cp[k], K[k], v['flat'][1]) for k in range(n))]
                for x, y in zip(got, v['flat']):
                    if not abs(x - total) <= TIGHT * total:
                        yield 'wrong-flat-volatility', f'{y!r} means {x!r}, the caplets add up to {total!r}'

    def expect(self, plan, solo):
        for ci, op, rec in solo_ok(plan, solo):
            what = f'{op["name"]} {op["args"]}'[:500]
            if rec['status'] != 'ok':
                free = op['name'] == 'make' and rec['exc'] == 'ValueError' and (op['args']['s']['beta'] is None or None in op['args']['s']['beta'])
                if op['name'] != 'bad' and not free and not (op['name'] == 'ts' and op['args']['flat'] and not self.time_value(plan, op)):
                    yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{rec["exc"]} {rec["msg"][:300]}: {what}'}
                continue
            for cls, detail in self.problems(plan, op, rec['value']):
                yield {'cls': cls, 'op': op['id'], 'detail': f'{detail}: {what}'}

    def time_value(self, plan, op):
        """Whether the caplets asked about carry enough time value to solve a volatility from."""
        a, w = op['args'], plan['world']
        s = w['strips'][a['k']]
        ref = Strip(s)
        mean = sum(ref.F) / len(ref.F)
        return abs(a['K'] - mean) < 0.25 * (mean + s['shift'])

    def compare(self, plan, solo, conc):
        self.plan = plan
        yield from super().compare(plan, solo, conc)

    def fault_result_ok(self, op, s, r):
        return not list(self.problems(self.plan, op, r['value']))   # a solver which went on differently, to an answer as good

    def probes(self, plan, solo, conc):
        out = {'strips': len(plan['world']['strips'])}
        for ci, op, rec in solo_ok(plan, solo):
            if rec['status'] == 'ok':
                out[op['name']] = out.get(op['name'], 0) + 1
        return out


def off(got, want, rtol, atol=0.0):
    got = list(got)
    if len(got) != len(want):
        return f'{len(got)} values instead of {len(want)}'
    for k, (x, y) in enumerate(zip(got, want)):
        if not abs(x - y) <= rtol * abs(y) + atol + 1e-15:
            return f'row {k}: {x!r} instead of {y!r}'
    return None


PROP = C18
