"""C06: a zero curve answers every client alike, in any order and combination, as an independent curve model says."""
import datetime as dt
import math

import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults, solo_ok
from ..canon import plain

INTERP = ['LINEAR_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_CCZR']
FREQS = ['CONTINUOUS', 'SIMPLE', 'DAILY', 'WEEKLY', 'MONTHLY', 'QUARTERLY', 'SEMIANNUAL', 'ANNUAL']
TENORS = ['1w', '1m', '2m', '3m', '6m', '9m', '1y', '15m', '18m', '2y', '30m', '3y', '4y', '5y', '7y']


def gen_zero_curve(rng, max_years=6):
    """A plain description of a curve: everything both the library and the reference need."""
    d = {'date': f'{rng.randint(2012, 2027)}-{rng.randint(1, 12):02d}-{rng.randint(1, 28):02d}',
         'interp': rng.choice(INTERP), 'extrap': rng.choice(['NONE', 'FLAT']),
         'basis': rng.choice(['ACT_365', 'ACT_365', 'ACT_360', 'ACT_ACT', 'ACT_366', '_30_360', '_30E_360']),
         'x': rng.choice(['tenor', 'date', 'days', 'years']), 'y': rng.choice(['zero_rate', 'discount_factor']),
         'freq': rng.choice(FREQS), 'shuffle': rng.randrange(1000), 'holidays': []}
    n = rng.randint(4, 8)
    o = refs.ord_of(d['date'])
    d['holidays'] = sorted({refs.iso(o + rng.randint(5, 1500)) for _ in range(rng.choice([0, 3, 12, 40]))})
    if d['x'] == 'tenor':
        ts = TENORS if max_years >= 7 else [t for t in TENORS if t != '7y']
        k = sorted(rng.sample(range(len(ts)), n))
        d['pillars'] = [ts[i] for i in k]
    elif d['x'] == 'years':
        t, out = 0.0, []
        for _ in range(n):
            t += rng.uniform(0.1, max_years / n)
            out.append(round(t, 4))
        d['pillars'] = out
    else:
        t, out = 0, []
        for _ in range(n):
            t += rng.randint(20, int(365 * max_years / n))
            out.append(t)
        if max_years < 2:
            out[0] = rng.choice([1, 2, 7, 14])   # overnight deposits and the like
        d['pillars'] = out if d['x'] == 'days' else [refs.iso(o + t) for t in out]
    base, slope = rng.uniform(-0.004, 0.06), rng.uniform(-0.004, 0.004)
    d['rates'] = [round(base + slope * i + rng.uniform(-0.003, 0.003), 6) for i in range(n)]
    if rng.random() < 0.25 and d['x'] != 'tenor' and (d['y'] == 'zero_rate' or d['interp'] != 'CUBIC_SPLINE_ON_CCZR'):
        d['pillars'] = [{'years': 0.0, 'days': 0, 'date': d['date']}[d['x']]] + d['pillars']
        d['rates'] = [round(base, 6)] + d['rates']
    return d


def tenor_date(start, tenor, holidays):
    n, unit = int(tenor[:-1]), tenor[-1]
    d = start + dt.timedelta(days=7 * n) if unit == 'w' else refs.add_months(start, n * (12 if unit == 'y' else 1))
    hol = set(holidays)
    while d.isoformat() in hol or (d.weekday() >= 5):
        d += dt.timedelta(days=1)
    return d


class RefCurve:
    def __init__(self, d):
        self.d = d
        self.start = dt.date.fromisoformat(d['date'])
        b = d['basis']
        if d['x'] == 'years':
            t = list(map(float, d['pillars']))
        else:
            dates = [self.pillar_date(p) for p in d['pillars']]
            t = [refs.year_frac(self.start, x, b) if x > self.start else 0.0 for x in dates]
        df = [refs.df_of_zero_rate(d['freq'], ti, r) for ti, r in zip(t, d['rates'])]
        if d['y'] == 'discount_factor':
            df = [math.exp(-r * ti) for ti, r in zip(t, d['rates'])]
        self.t, self.df = t, df
        if d['interp'] == 'CUBIC_SPLINE_ON_CCZR' and t[0] == 0:
            # a pillar at t=0 carries a rate although its discount factor is 1
            z0 = continuous(d['freq'], d['rates'][0]) if d['y'] == 'zero_rate' else None
            self.curve = refs.Curve(t[1:], df[1:], d['interp'])
            from scipy.interpolate import CubicSpline
            z = [z0] + [-math.log(f) / x for x, f in zip(t[1:], df[1:])]
            self.curve.z = CubicSpline(t, z, bc_type='not-a-knot', extrapolate=True)
        else:
            self.curve = refs.Curve(t, df, d['interp'])
        if d['x'] == 'years':
            end = refs.add_months(self.start, 12 * int(max(t)))
            while refs.year_frac(self.start, end, b) < max(t) - 1e-13:
                end += dt.timedelta(days=1)
            self.end = end
        else:
            self.end = max(dates)

    def pillar_date(self, p):
        if self.d['x'] == 'tenor':
            return tenor_date(self.start, p, self.d['holidays'])
        if self.d['x'] == 'days':
            return self.start + dt.timedelta(days=p)
        return dt.date.fromisoformat(p)

    def years_of(self, day):
        """Year fraction of a date (given as days from the curve date), None outside without extrapolation."""
        x = self.start + dt.timedelta(days=day)
        if x < self.start or x > self.end:
            if self.d['extrap'] == 'NONE':
                return None
            x = self.start if x < self.start else self.end
        return refs.year_frac(self.start, x, self.d['basis'])

    def discount_at(self, day):
        t = self.years_of(day)
        return float('nan') if t is None else float(self.curve.discount(t))

    def last_day(self):
        return (self.end - self.start).days


def continuous(freq, r):
    if freq in ('CONTINUOUS', 'SIMPLE'):
        return r
    n = {'DAILY': 365, 'WEEKLY': 52, 'MONTHLY': 12, 'QUARTERLY': 4, 'SEMIANNUAL': 2, 'ANNUAL': 1}[freq]
    return n * math.log1p(r / n)


def calendar_of(d):
    return np.busdaycalendar(holidays=np.array(d['holidays'], dtype='datetime64[D]')) if d['holidays'] else np.busdaycalendar()


def spellings(t):
    """Ways to write the same tenor."""
    n, u = int(t[:-1]), t[-1]
    out = [t, t.upper(), f'{n} ' + {'w': 'Week', 'm': 'Month', 'y': 'Year'}[u] + ('s' if n > 1 else ''), f'{n}{u} ']
    if u == 'w':
        out += [f'{7 * n}d', f'{7 * n} days']
    if u == 'y':
        out += [f'{12 * n}m', f'{n}yr' + 's' * (n > 1)] + ([f'{n - 1}y12m'] if n > 1 else [])
    if u == 'm' and n > 12:
        out += [f'{n // 12}y{n % 12}m', f'{n // 12} Year {n % 12} months']
    return out


def pillar_frame(d):
    import pandas as pd
    import random
    ref = RefCurve(d)
    x = d['pillars'] if d['x'] != 'date' else [pd.Timestamp(p) for p in d['pillars']]
    if d['x'] == 'tenor':
        pick = random.Random(d['shuffle'] + 7)
        x = [pick.choice(spellings(t)) for t in x]
    y = d['rates'] if d['y'] == 'zero_rate' else ref.df
    k = list(range(len(x)))
    random.Random(d['shuffle']).shuffle(k)
    cols = [(d['x'], [x[i] for i in k]), (d['y'], [y[i] for i in k])]
    if d['shuffle'] % 2:
        cols.reverse()
    df = pd.DataFrame(dict(cols))
    if d['shuffle'] % 4 == 1:   # rows of several sources put together
        df.index = [i // 2 for i in k]
    elif d['shuffle'] % 4 == 2:
        df.index = [f'p{i}' for i in k]
    return df


def build_curve(d, frame=None):
    import pandas as pd
    from frm.enums import CompoundingFreq, DayCountBasis, ZeroCurveExtrapMethod, ZeroCurveInterpMethod
    from frm.term_structures.zero_curve import ZeroCurve
    return ZeroCurve(curve_date=pd.Timestamp(d['date']), pillar_df=pillar_frame(d) if frame is None else frame,
                     compounding_freq=CompoundingFreq[d['freq']] if d['y'] == 'zero_rate' else None,
                     day_count_basis=DayCountBasis[d['basis']], cal=calendar_of(d),
                     interp_method=ZeroCurveInterpMethod[d['interp']], extrap_method=ZeroCurveExtrapMethod[d['extrap']])


def as_form(form, values, start, cast=int):
    """Express a list of days from the curve date in one of the accepted forms of a date query."""
    import pandas as pd
    stamps = [pd.Timestamp(start) + pd.Timedelta(days=v) for v in values]
    return {'scalar': lambda: stamps[0], 'np': lambda: stamps[0].to_datetime64(), 'date': lambda: stamps[0].date(),
            'datetime': lambda: stamps[0].to_pydatetime(),
            'index': lambda: pd.DatetimeIndex(stamps), 'series': lambda: pd.Series(stamps), 'list': lambda: list(stamps),
            'array': lambda: np.array(stamps, dtype='datetime64[ns]'),
            'odd-series': lambda: pd.Series(stamps, index=range(7, 7 + len(stamps))),
            'same-series': lambda: pd.Series(stamps, index=[i // 3 for i in range(len(stamps))])}[form]()


DATE_FORMS = ['scalar', 'np', 'date', 'datetime', 'index', 'series', 'list', 'array', 'odd-series', 'same-series']
SCALAR_FORMS = ('scalar', 'np', 'date', 'datetime')


class C06(Prop):
    id = 'C06'
    title = 'A zero curve answers every client alike, in any order and combination'
    quick, thorough = 420, 14000
    rtol, atol = 0.0, 0.0
    assumptions = ('queries in years stay inside the curve; zero rates are asked at positive times',
                   'a t=0 pillar given as a discount factor is not combined with splines on zero rates')

    def gen(self, rng, index):
        curves = [gen_zero_curve(rng, rng.choice([6, 6, 6, 6, 1.2, 40])) for _ in range(rng.choice([1, 1, 2]))]
        n_clients = rng.choice([1, 2, 2, 3, 4])
        pool = []
        for ki, d in enumerate(curves):
            ref = RefCurve(d)
            last = ref.last_day()
            days = [0, 1, last, last - 1, last + 1, last + rng.randint(2, 900), -1, -rng.randint(2, 400)]
            days += [(p_date - ref.start).days for p_date in ([ref.pillar_date(p) for p in d['pillars']] if d['x'] != 'years' else [])]
            days += [rng.randint(1, max(2, last)) for _ in range(12)]
            starts = [rng.randint(0, max(0, last - 8)) for _ in range(2)]   # accruals that begin together and end apart
            pool.append((ki, d, ref, days, starts))
        clients, k = [], 0
        for c in range(n_clients):
            ops = []
            for _ in range(rng.randint(2, 8)):
                k += 1
                ki, d, ref, days, starts = rng.choice(pool)
                last = ref.last_day()
                kind = rng.choice(['df', 'df', 'zero', 'zero', 'fwd', 'fwd', 'fwd', 'inst', 'table', 'shift', 'bad'])
                size = rng.choice([1, 1, 2, 2, 3, 5, 12, 12, 80])
                a = {'k': ki}
                by = rng.choice(['dates', 'dates', 'days', 'years'])
                inside = [x for x in days if 0 < x <= last]
                if kind in ('df', 'zero', 'shift'):
                    a['by'] = by
                    src = days if kind != 'zero' else [x for x in days if x != 0 and not (d['extrap'] == 'FLAT' and x < 0)]
                    vals = [rng.choice(src) for _ in range(size)]
                    if by == 'years':
                        top = max(ref.t)
                        vals = [rng.choice([round(rng.uniform(0.003, top), 6), top, rng.choice(ref.t[1:])]) for _ in range(size)]
                        if kind != 'zero' and rng.random() < 0.2:
                            vals[rng.randrange(size)] = 0.0
                        a['form'] = rng.choice(['scalar', 'array', 'series'])
                    elif by == 'days':
                        a['form'] = rng.choice(['scalar', 'array', 'series', 'list'])
                    else:
                        a['form'] = rng.choice(DATE_FORMS)
                    if a['form'] in SCALAR_FORMS:
                        vals = vals[:1]
                    a['vals'] = vals
                    if kind == 'zero':
                        a['freq'] = rng.choice(FREQS)
                    if kind == 'shift':
                        a['bp'] = rng.choice([1, -25, 100, rng.uniform(-50, 50)])
                elif kind == 'fwd':
                    a['type'] = rng.choice(['SIMPLE', 'CONTINUOUS', 'ANNUAL', 'DAILY_COMPOUNDED', 'WEIGHTED_AVERAGE', 'WEIGHTED_AVERAGE', 'SIMPLE_AVERAGE'])
                    if d['basis'] in ('ACT_ACT',) and 'AVERAGE' in a['type']:
                        a['type'] = 'SIMPLE'
                    st = [rng.choice(starts) if rng.random() < 0.5 else rng.randint(0, max(0, last - 8)) for _ in range(size)]
                    span = [1, 30, 91, 182, 365] if a['type'] != 'SIMPLE_AVERAGE' else [7, 30, 91, 182]
                    en = [min(last, s + rng.choice(span + [rng.randint(4, 120)])) for s in st]
                    if 'AVERAGE' not in a['type'] and rng.random() < 0.25:
                        en[0] = last + 40
                    if a['type'] != 'SIMPLE_AVERAGE':
                        en = [max(e, s + 4) for s, e in zip(st, en)]
                    else:
                        en = [max(e, s + 7) for s, e in zip(st, en)]
                    a['form'] = rng.choice(['index', 'series', 'scalar', 'odd-series', 'same-series'])
                    if a['form'] == 'scalar':
                        st, en = st[:1], en[:1]
                    a['vals'] = [[s, e] for s, e in zip(st, en)]
                    if rng.random() < 0.25 and max(en) <= last:
                        kind, a['bp'] = 'shiftfwd', rng.choice([1, -25, 100, rng.uniform(-50, 50)])
                elif kind == 'inst':
                    if d['interp'] == 'LINEAR_ON_LN_DISCOUNT':
                        kind, a['by'], a['form'], a['vals'] = 'df', 'days', 'list', [rng.choice(inside)] * 2
                    else:
                        a['vals'] = [round(rng.uniform(0.01, max(ref.t)), 6) for _ in range(size)]
                        a['form'] = rng.choice(['scalar', 'array'])
                        if a['form'] == 'scalar':
                            a['vals'] = a['vals'][:1]
                elif kind == 'bad':
                    a['what'] = rng.choice(['two', 'none', 'reversed', 'early'])
                ops.append({'id': f'o{k}', 'name': kind, 'args': a})
            clients.append(ops)
        kinds = [x for x in ('cancel', 'memory', 'deadline', 'stdout') if rng.random() < 0.5] if rng.random() < 0.7 else []
        return {'world': {'curves': curves}, 'clients': clients, 'sched': gen_schedule(rng),
                'faults': gen_faults(rng, clients, kinds, rng.choice([0.1, 0.3]))}

    def build(self, plan):
        return [(d, build_curve(d)) for d in plan['world']['curves']]

    def query(self, d, by, form, vals):
        import pandas as pd
        if by == 'dates':
            return {'dates': as_form(form, vals, d['date'])}
        v = {'scalar': lambda: vals[0], 'array': lambda: np.array(vals), 'series': lambda: pd.Series(vals), 'list': lambda: list(vals)}[form]()
        return {by: v}

    def op_df(self, world, k, by, form, vals):
        d, z = world[k]
        return z.get_discount_factors(**self.query(d, by, form, vals))

    def op_zero(self, world, k, by, form, vals, freq):
        from frm.enums import CompoundingFreq
        d, z = world[k]
        return z.get_zero_rates(compounding_freq=CompoundingFreq[freq], **self.query(d, by, form, vals))

    def op_fwd(self, world, k, type, form, vals):
        from frm.enums import RFRFixingCalcMethod, TermRate
        d, z = world[k]
        t = TermRate[type] if type in TermRate.__members__ else RFRFixingCalcMethod[type]
        return z.get_forward_rates(as_form(form, [v[0] for v in vals], d['date']), as_form(form, [v[1] for v in vals], d['date']), t)

    def op_inst(self, world, k, form, vals):
        d, z = world[k]
        with np.errstate(all='ignore'):
            return np.asarray(z.get_instantaneous_forward_rate(years=vals[0] if form == 'scalar' else np.array(vals)), float)

    def op_shift(self, world, k, by, form, vals, bp):
        d, z = world[k]
        s = z.flat_shift(basis_points=bp)
        return s.get_discount_factors(**self.query(d, by, form, vals))

    def op_shiftfwd(self, world, k, type, form, vals, bp):
        d, z = world[k]
        return self.op_fwd({k: (d, z.flat_shift(basis_points=bp))}, k, type, form, vals)

    def op_table(self, world, k):
        d, z = world[k]
        return [len(z.daily_df), float(z.daily_df['discount_factor'].iloc[-1]), float(z.pillar_df['discount_factor'].iloc[-1]),
                str(z.daily_df['date'].iloc[-1])[:10]]

    def op_bad(self, world, k, what):
        import pandas as pd
        from frm.enums import TermRate
        d, z = world[k]
        t = pd.Timestamp(d['date'])
        if what == 'two':
            return z.get_discount_factors(days=5, years=0.3)
        if what == 'none':
            return z.index_daily_data()
        if what == 'reversed':
            return z.get_forward_rates(t + pd.Timedelta(days=40), t + pd.Timedelta(days=10), TermRate.SIMPLE)
        return z.get_forward_rates(t - pd.Timedelta(days=40), t + pd.Timedelta(days=10), TermRate.SIMPLE)

    # -- oracle
    def expect(self, plan, solo):
        cs = [RefCurve(d) for d in plan['world']['curves']]
        for ci, op, rec in solo_ok(plan, solo):
            a = op['args']
            what = f'{op["name"]} {a} on {plan["world"]["curves"][a["k"]]}'[:900]
            if op['name'] == 'bad':
                if rec['status'] == 'ok':
                    yield {'cls': 'bad-accepted', 'op': op['id'], 'detail': what}
                continue
            if rec['status'] != 'ok':
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{rec["exc"]} {rec["msg"]}: {what}'}
                continue
            want, tol = getattr(self, 'want_' + op['name'])(cs[a['k']], a)
            got = plain(rec['value'])
            if op['name'] == 'table':
                if got[0] != want[0] or got[3] != want[3] or abs(got[1] - want[1]) > 1e-9 or abs(got[2] - want[2]) > 1e-12:
                    yield {'cls': 'wrong-answer', 'op': op['id'], 'detail': f'{got}, expected {want}: {what}'}
                continue
            if a['form'] in SCALAR_FORMS and op['name'] in ('df', 'zero', 'shift') and not isinstance(got, float):
                yield {'cls': 'shape', 'op': op['id'], 'detail': f'a single question was answered with {type(got).__name__}: {what}'}
                continue
            got = np.atleast_1d(np.asarray(got, float)).ravel()
            if got.shape != (len(want),):
                yield {'cls': 'shape', 'op': op['id'], 'detail': f'{len(want)} questions, {got.size} answers: {what}'}
                continue
            for i, (g, w) in enumerate(zip(got, want)):
                if math.isnan(w) != math.isnan(g) or abs(g - w) > tol * (1 + abs(w)):
                    yield {'cls': 'wrong-answer', 'op': op['id'], 'detail': f'answer {i} is {g!r}, the curve says {w!r}: {what}'}
                    break

    def want_df(self, ref, a):
        if a['by'] == 'years':
            return [float(ref.curve.discount(t)) for t in a['vals']], 1e-10
        return [ref.discount_at(v) for v in a['vals']], 1e-10

    def want_zero(self, ref, a):
        out = []
        for v in a['vals']:
            t = v if a['by'] == 'years' else ref.years_of(v)
            out.append(float('nan') if t is None else zero(a['freq'], t, float(ref.curve.discount(t))))
        return out, 1e-9

    def want_fwd(self, ref, a):
        d = ref.d
        out = []
        hol = set(d['holidays'])
        for s, e in a['vals']:
            f1, f2 = ref.discount_at(s), ref.discount_at(e)
            t = refs.year_frac(ref.start + dt.timedelta(days=s), ref.start + dt.timedelta(days=e), d['basis'])
            if a['type'] in ('SIMPLE', 'DAILY_COMPOUNDED'):
                out.append((f1 / f2 - 1) / t)
            elif a['type'] == 'CONTINUOUS':
                out.append(math.log(f1 / f2) / t)
            elif a['type'] == 'ANNUAL':
                out.append((f1 / f2) ** (1 / t) - 1)
            else:
                daily = [(ref.discount_at(x) / ref.discount_at(x + 1) - 1) * refs.days_per_year(d['basis']) for x in range(s, e)]
                if a['type'] == 'SIMPLE_AVERAGE':
                    daily = [r for x, r in zip(range(s, e), daily) if (ref.start + dt.timedelta(days=x)).weekday() < 5
                             and (ref.start + dt.timedelta(days=x)).isoformat() not in hol]
                out.append(sum(daily) / len(daily))
        return out, 1e-9

    def want_shiftfwd(self, ref, a):
        class Shifted:
            d, start = ref.d, ref.start

            @staticmethod
            def discount_at(day):
                t = ref.years_of(day)
                x = min(t, max(ref.t)) if ref.d['interp'] == 'LINEAR_ON_LN_DISCOUNT' else t
                return float(ref.curve.discount(t)) * math.exp(-a['bp'] / 1e4 * x)
        return self.want_fwd(Shifted, a)

    def want_inst(self, ref, a):
        return [float(ref.curve.fwd(t)) for t in a['vals']], 1e-9

    def want_shift(self, ref, a):
        out = []
        for v in a['vals']:
            t = v if a['by'] == 'years' else ref.years_of(v)
            if t is None:
                out.append(float('nan'))
                continue
            x = t
            if ref.d['interp'] == 'LINEAR_ON_LN_DISCOUNT':
                x = min(t, max(ref.t))
            out.append(float(ref.curve.discount(t)) * math.exp(-a['bp'] / 1e4 * x))
        return out, 1e-9

    def want_table(self, ref, a):
        return [ref.last_day() + 1, ref.discount_at(ref.last_day()), ref.df[-1], ref.end.isoformat()], 0


def zero(freq, t, df):
    if freq == 'WEEKLY':
        return 52 * (df ** (-1.0 / (52 * t)) - 1)
    return refs.zero_rate(freq, t, df)


PROP = C06
