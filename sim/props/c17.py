"""C17: bootstrapped discount factors reprice the quotes, however the feed delivers them."""
import datetime as dt
import math

import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults, solo_ok
from ..canon import canon, plain, same
from .c06 import spellings

ON = ['on', 'ON', 'O/N', 'Overnight', 'over night']
TERMS = ['1w', '2w', '1m', '2m', '3m', '4m', '5m', '6m', '9m', '1y']
BASES = ['ACT_365', 'ACT_360', 'ACT_ACT', 'ACT_366', '_30_360', '_30E_360']
YEARS = ['ACT_ACT', 'ACT_ACT', 'ACT_365', 'ACT_360']
SYDNEY = set()
TOL = 1e-10


def roll(d, hol):
    while d.weekday() >= 5 or d in hol:
        d += dt.timedelta(days=1)
    return d


def later(d, n, hol):
    d = roll(d, hol)
    for _ in range(n):
        d = roll(d + dt.timedelta(days=1), hol)
    return d


def add(d, tenor, hol):
    n, u = int(tenor[:-1]), tenor[-1]
    return roll(d + dt.timedelta(days=7 * n) if u == 'w' else refs.add_months(d, n * (12 if u == 'y' else 1)), hol)


def second_friday(y, m):
    d = dt.date(y, m, 1)
    return d + dt.timedelta(days=(4 - d.weekday()) % 7 + 7)


def gen_world(rng):
    d0 = dt.date(rng.randint(2020, 2028), rng.randint(1, 12), rng.randint(1, 28))
    hol = sorted({d0 + dt.timedelta(days=rng.randint(1, 400)) for _ in range(rng.choice([0, 2, 10, 25]))})
    if rng.random() < 0.3:
        hol = sorted(set(hol) | {d0 + dt.timedelta(days=k) for k in range(1, 1 + rng.randint(1, 4))})
    hs = set(hol)
    d0 = roll(d0, hs)
    w = {'date': d0.isoformat(), 'hol': [h.isoformat() for h in hol], 'basis': rng.choice(BASES), 'years': rng.choice(YEARS), 'form': rng.choice(['tenor', 'tenor', 'dates'])}
    base, slope = rng.uniform(-0.004, 0.06), rng.uniform(-0.01, 0.02)
    if rng.random() < 0.15:   # crisis rates
        base = rng.uniform(0.08, 0.35)
    quotes = []

    def quote(kind, eff, mat, tenor=None):
        t = (mat - d0).days / 365
        quotes.append({'kind': kind, 'tenor': tenor, 'eff': eff.isoformat(), 'mat': mat.isoformat(), 'rate': round(base + slope * t + rng.uniform(-0.002, 0.002), 6)})

    terms = [t for t in TERMS if rng.random() < 0.6] or ['3m']
    if w['form'] == 'tenor':
        w['delay'] = rng.choice([0, 1, 1, 1, 1, 2]) if rng.random() < 0.9 else 1
        w['settle'] = rng.choice(['delay', 'date'])
        spot = later(d0, w['delay'], hs)
        if w['delay'] or rng.random() < 0.6:
            quote('on', d0, roll(d0 + dt.timedelta(days=1), hs), 'on')
        if rng.random() < 0.5:   # deposits that end on a holiday
            for t in terms:
                if rng.random() < 0.4:
                    hs.add(add(spot, t, hs))
        for t in terms:
            quote('term', spot, add(spot, t, hs), t)
    else:
        w['tenor_column'] = rng.random() < 0.3
        n = rng.choice([0, 1, 2, 2, 2, 3])
        d = d0
        for k in range(n):
            e = later(d, 1, hs)
            quote('on' if k == 0 else 'next', d, e, ['on', 'tn', 'sn'][k])
            d = e
        for t in terms:
            quote('term', d, add(d, t, hs), t)
        pillars = [dt.date.fromisoformat(q['mat']) for q in quotes if q['kind'] == 'term']
        for p in pillars:    # deposits that start where another one ends
            if rng.random() < 0.3:
                t = rng.choice(['1w', '1m', '3m', '6m'])
                m = add(p, t, hs)
                if all(q['mat'] != m.isoformat() for q in quotes):
                    quote('forward', p, m, t)
    w['hol'] = [h.isoformat() for h in sorted(hs)]
    seen, w['cash'] = set(), []
    for q in quotes:
        if q['mat'] not in seen:
            seen.add(q['mat'])
            w['cash'].append(q)
    # futures: contracts of any length, and the exchange's quarterly strip
    last = max(dt.date.fromisoformat(q['mat']) for q in w['cash'])
    first = min(dt.date.fromisoformat(q['mat']) for q in w['cash'])
    w['futs'] = []
    d = first + dt.timedelta(days=rng.randint(1, max(1, (last - first).days)))
    for _ in range(rng.randint(1, 6)):
        m = add(d, rng.choice(['1m', '3m', '3m', '6m']), hs)
        w['futs'].append({'eff': d.isoformat(), 'mat': m.isoformat(), 'price': round(100 - 100 * (base + rng.uniform(-0.003, 0.006)), 4), 'cvx': round(rng.uniform(0, 12), 2)})
        d = d + dt.timedelta(days=rng.choice([30, 61, 91, 91, 120]))
    y, m, strip = d0.year, 3, []
    while len(strip) < 14:
        if second_friday(y, m) > max(first, d0):
            strip.append([y, m])
        m += 3
        if m > 12:
            y, m = y + 1, 3
    w['strip'] = [s for s in strip if s[0] <= 2029][:rng.randint(1, 13)]
    w['strip_px'] = [round(100 - 100 * (base + rng.uniform(-0.003, 0.008)), 4) for _ in w['strip']]
    w['shared'] = rng.random() < 0.7
    return w


def code(s, how):
    y, m = s
    return 'IR' + {3: 'H', 6: 'M', 9: 'U', 12: 'Z'}[m] + {1: str(y)[-1], 2: str(y)[-2:], 4: str(y)}[how]


# ------------------------------------------------------------------------------------------ reference
def ref_cash(w, quotes):
    """Discount factors of each quote by its own definition; None where the deliveries do not determine it."""
    known, out = {w['date']: 1.0}, {}
    for q in sorted(quotes, key=lambda q: q['mat']):
        dfe = known.get(q['eff'])
        tau = refs.year_frac(dt.date.fromisoformat(q['eff']), dt.date.fromisoformat(q['mat']), w['basis'])
        dfm = None if dfe is None or q['rate'] is None else dfe / (1 + q['rate'] * tau)
        out[id(q)] = (tau, dfe, dfm)
        if q.get('leaf'):
            continue
        known[q['mat']] = dfm
    return out


def ref_futures(w, cash, futs):
    """cash: (iso, df) points; futures by start date. Log-linear between points, continued past the last two."""
    d0 = dt.date.fromisoformat(w['date'])
    yf = lambda x: refs.year_frac(d0, dt.date.fromisoformat(x), w['years'])
    pts = {yf(d): math.log(f) for d, f in cash}
    out = []
    for f in sorted(futs, key=lambda f: f['eff']):
        xs = sorted(pts)
        x = yf(f['eff'])
        if len(xs) < 2 or x < xs[0] - 1e-12:
            return out, False
        k = min(max(int(np.searchsorted(xs, x)), 1), len(xs) - 1)
        a, b = xs[k - 1], xs[k]
        dfe = math.exp(pts[a] + (pts[b] - pts[a]) * (x - a) / (b - a))
        tau = refs.year_frac(dt.date.fromisoformat(f['eff']), dt.date.fromisoformat(f['mat']), w['basis'])
        dfm = dfe / (1 + f['fwd'] * tau)
        out.append((f['eff'], f['mat'], f['fwd'], tau, dfe, dfm))
        if yf(f['mat']) in pts:
            return out, False
        pts[yf(f['mat'])] = math.log(dfm)
    return out, True


def order_of(rng, n, keep):
    k = [i for i in range(n) if rng.random() < keep] or [rng.randrange(n)]
    rng.shuffle(k)
    return k


class C17(Prop):
    id = 'C17'
    title = 'Bootstrapped discount factors reprice the quotes'
    quick, thorough = 400, 15000
    rtol = atol = 0.0
    assumptions = ('a deposit is priced off the curve date or off the maturity of another one; where a delivery lacks that one, an error or no answer is accepted',
                   'futures start on or after the first deposit matures; one-digit contract years mean 2020 to 2029, as documented in the code')

    def setup(self):
        import frm.utils.business_day_calendar as m
        SYDNEY.update(d for d in m.LOCALE_HOLIDAY['AU-SYDNEY'].keys())

    def gen(self, rng, index):
        w = gen_world(rng)
        n, clients, k = len(w['cash']), [], 0

        def delivery():
            a = {'rows': list(range(n)) if rng.random() < 0.5 else order_of(rng, n, rng.choice([1, 1, 0.8, 0.5])),
                 'labels': rng.choice(['range', 'text', 'back', 'repeat', 'dates', 'same']), 'extra': rng.random() < 0.4, 'seed': rng.randrange(1000), 'frame': None,
                 'dup': rng.choice([None, None, None, 'again', 'conflict']), 'missing': None, 'years': rng.random() < 0.8}
            short = [i for i, q in enumerate(w['cash']) if q['tenor'] in ('on', '1w', '2w')]
            if short and rng.random() < 0.12:
                a['rows'] = short
            if rng.random() < 0.08:
                a['missing'] = rng.choice(a['rows'])
            if w['shared'] and rng.random() < 0.5:
                a = {'frame': rng.randrange(2)}
            return a

        w['frames'] = [dict(delivery(), frame=None) for _ in range(2)]
        for f in w['frames']:
            for key, v in (('rows', list(range(n))), ('labels', 'range'), ('extra', False), ('seed', 1), ('dup', None), ('missing', None), ('years', True)):
                f.setdefault(key, v)
        for c in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                k += 1
                name = rng.choice(['cash', 'cash', 'futs', 'futs', 'asx', 'strip', 'curve', 'bad'])
                a = {}
                if name in ('cash', 'futs', 'strip', 'curve'):
                    a['feed'] = delivery()
                if name == 'futs':
                    a.update(rows=order_of(rng, len(w['futs']), rng.choice([1, 0.7])), cols=rng.choice(['price', 'price', 'rate', 'forward']), cvx=rng.random() < 0.5,
                             labels=rng.choice(['range', 'text', 'back', 'repeat']))
                if name in ('asx', 'strip') and not w['strip']:
                    continue
                if name in ('asx', 'strip'):
                    rows = order_of(rng, len(w['strip']), rng.choice([1, 0.6]))
                    if rng.random() < 0.5:
                        rows.sort()
                    if name == 'asx' and rng.random() < 0.3:
                        rows = rows + [rng.choice(rows)]
                    a.update(rows=rows, how=[rng.choice([1, 2, 4]) for _ in rows] if rng.random() < 0.5 else [rng.choice([1, 2, 4])] * len(rows),
                             by=rng.choice(['ticker', 'ticker', 'ticker', 'columns']), case=rng.randrange(1000), price=name == 'strip' or rng.random() < 0.7,
                             labels=rng.choice(['range', 'text', 'back', 'repeat']))
                if name == 'bad':
                    a = {'ticker': rng.choice(['IRF4', 'XTH4', 'IRH', 'IRH123', 'IRN24', 'ZBH4']), 'with': rng.choice([None, 'IRH4', 'IRU25'])}
                ops.append({'id': f'o{k}', 'name': name, 'args': a})
            if ops:
                clients.append(ops)
        if not clients:
            return self.gen(rng, index)
        kinds = [x for x in ('cancel', 'memory', 'deadline') if rng.random() < 0.5]
        return {'world': w, 'clients': clients, 'sched': gen_schedule(rng), 'faults': gen_faults(rng, clients, kinds, rng.choice([0, 0.2, 0.5]))}

    # ---------------------------------------------------------------------------------------- the library's side
    @staticmethod
    def quotes_of(w, a):
        if a['frame'] is not None:
            a = w['frames'][a['frame']]
        qs = [dict(w['cash'][i]) for i in a['rows']]
        if a['missing'] is not None and a['missing'] < len(w['cash']):
            for q, i in zip(qs, a['rows']):
                if i == a['missing']:
                    q['rate'] = None
        starts = {q['eff'] for q in qs}
        if a['dup'] == 'again':
            qs.append(dict(qs[a['seed'] % len(qs)]))
        if a['dup'] == 'conflict':
            q = dict(qs[a['seed'] % len(qs)])
            if q['rate'] is not None and q['mat'] not in starts:
                for o in qs:
                    o['leaf'] = o['mat'] == q['mat']
                qs.append(dict(q, rate=round(q['rate'] + 0.0013, 6), leaf=True))
        return a, qs

    @staticmethod
    def label(df, how):
        import pandas as pd
        n = len(df)
        df.index = {'range': lambda: pd.RangeIndex(n), 'text': lambda: [f'q{(7 * i) % 11}-{i}' for i in range(n)], 'back': lambda: list(range(n))[::-1],
                    'repeat': lambda: [i // 2 for i in range(n)], 'dates': lambda: pd.date_range('2020-01-01', periods=n), 'same': lambda: [0] * n}[how]()
        return df

    @classmethod
    def cash_frame(cls, w, a):
        import pandas as pd
        import random
        a, qs = cls.quotes_of(w, a)
        pick = random.Random(a['seed'])
        cols = {}
        if w['form'] == 'tenor' or w.get('tenor_column'):
            cols['tenor'] = [pick.choice(ON) if q['tenor'] == 'on' else q['tenor'].upper() if q['tenor'] in ('tn', 'sn') else pick.choice(spellings(q['tenor'])) for q in qs]
        if w['form'] == 'dates':
            cols['effective_date'] = [pd.Timestamp(q['eff']) for q in qs]
            cols['maturity_date'] = [pd.Timestamp(q['mat']) for q in qs]
        cols['rate'] = [float('nan') if q['rate'] is None else q['rate'] for q in qs]
        if a['extra']:
            cols['source'] = [f's{i}' for i in range(len(qs))]
            cols['bid'] = [0.0] * len(qs)
        df = pd.DataFrame(cols)
        if pick.random() < 0.3:
            df = df[list(df.columns)[::-1]]
        return cls.label(df, a['labels'])

    def build(self, plan):
        import frm.term_structures.bootstrap_helpers as b
        w = plan['world']
        cal = np.busdaycalendar(holidays=np.array(w['hol'], dtype='datetime64[D]')) if w['hol'] else np.busdaycalendar()
        return {'w': w, 'lib': b, 'cal': cal, 'frames': [self.cash_frame(w, f) for f in w['frames']]}

    def before(self, world, plan):
        return [canon(f) for f in world['frames']]

    def after(self, world, plan, token):
        return [{'cls': 'feed-altered', 'detail': f'the shared quotes {i} were changed'} for i, (f, t) in enumerate(zip(world['frames'], token)) if same(canon(f), t, 0.0, 0.0)]

    def bootstrap(self, world, a):
        import pandas as pd
        from frm.enums import DayCountBasis
        w = world['w']
        df = world['frames'][a['frame']] if a['frame'] is not None else self.cash_frame(w, a)
        d0, basis = pd.Timestamp(w['date']), DayCountBasis[w['basis']]
        kw = {}
        if w['form'] == 'tenor':
            if w['settle'] == 'delay':
                kw = {'settlement_delay': w['delay']}
            else:
                kw = {'settlement_date': pd.Timestamp(later(dt.date.fromisoformat(w['date']), w['delay'], {dt.date.fromisoformat(h) for h in w['hol']}))}
        else:
            kw = {'settlement_delay': 2}
        q = world['lib'].cash_rates_quote_helper(df, d0, basis, cal=world['cal'], **kw)
        years = {} if w['years'] == 'ACT_ACT' else {'day_count_basis_years': DayCountBasis[w['years']]}
        return world['lib'].bootstrap_cash_rates(q, d0, **years), d0, basis, years

    @staticmethod
    def rows(df, rate):
        out = []
        for i in range(len(df)):
            r = df.iloc[i]
            out.append([str(r['effective_date'])[:10], str(r['maturity_date'])[:10], float(r[rate]), float(r['period_years']),
                        float(r['effective_date_discount_factor']), float(r['maturity_date_discount_factor'])])
        return sorted(out, key=lambda r: (r[1], r[0], r[2] if r[2] == r[2] else 1e9))

    def op_cash(self, world, feed):
        return self.rows(self.bootstrap(world, feed)[0], 'rate')

    def op_futs(self, world, feed, rows, cols, cvx, labels):
        import pandas as pd
        w = world['w']
        cash, d0, basis, years = self.bootstrap(world, feed)
        fs = [w['futs'][i] for i in rows]
        c = {'effective_date': [pd.Timestamp(f['eff']) for f in fs], 'maturity_date': [pd.Timestamp(f['mat']) for f in fs], 'price': [f['price'] for f in fs]}
        if cols == 'rate':
            c['futures_rate'] = [(100 - f['price']) / 100 for f in fs]
        if cols == 'forward':
            c['forward_rate'] = [(100 - f['price']) / 100 - (f['cvx'] / 1e4 if cvx else 0) for f in fs]
        if cvx:
            c['convexity_bps'] = [f['cvx'] for f in fs]
        df = self.label(pd.DataFrame(c), labels)
        return self.rows(world['lib'].bootstrap_futures(df, d0, cash, basis, **years), 'forward_rate')

    def asx_frame(self, world, rows, how, by, case, price, labels):
        import pandas as pd
        import random
        w, pick = world['w'], random.Random(case)
        ss = [w['strip'][i] for i in rows]
        if by == 'ticker':
            c = {'ticker': [pick.choice([str.upper, str.upper, str.lower, lambda t: f' {t} '])(code(s, h)) for s, h in zip(ss, how)]}
        else:
            c = {'years': [s[0] for s in ss], 'months': [s[1] for s in ss]}
        if price:
            c['price'] = [w['strip_px'][i] for i in rows]
        return world['lib'].futures_helper_asx_90day(self.label(pd.DataFrame(c), labels))

    def op_asx(self, world, price, **a):
        df = self.asx_frame(world, price=price, **a)
        cols = ['expiry_date', 'settlement_date', 'effective_date', 'maturity_date']
        return [[str(v)[:10] for v in df[c].tolist()] for c in cols] + [[float(v) for v in df['futures_rate']] if price else None]

    def op_strip(self, world, feed, **a):
        cash, d0, basis, years = self.bootstrap(world, feed)
        return self.rows(world['lib'].bootstrap_futures(self.asx_frame(world, **a), d0, cash, basis, **years), 'forward_rate')

    def op_curve(self, world, feed):
        """A curve through the bootstrapped points, and the quotes read back from it."""
        import pandas as pd
        from frm.enums import TermRate, ZeroCurveInterpMethod
        from frm.term_structures.zero_curve import ZeroCurve
        cash, d0, basis, years = self.bootstrap(world, feed)
        pts = cash[['maturity_date', 'maturity_date_discount_factor']].rename(columns={'maturity_date': 'date', 'maturity_date_discount_factor': 'discount_factor'})
        z = ZeroCurve(curve_date=d0, pillar_df=pts.reset_index(drop=True), day_count_basis=basis, interp_method=ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT)
        e, m = pd.DatetimeIndex(cash['effective_date']), pd.DatetimeIndex(cash['maturity_date'])
        f = z.get_forward_rates(e, m, TermRate.SIMPLE)
        out = [[str(a)[:10], str(b)[:10], float(r), float('nan'), float(x), float(y)] for a, b, r, x, y in
               zip(e, m, f, np.atleast_1d(z.get_discount_factors(dates=e)), np.atleast_1d(z.get_discount_factors(dates=m)))]
        return sorted(out, key=lambda r: (r[1], r[0], r[2]))

    def op_bad(self, world, **a):
        import pandas as pd
        t = [a['ticker']] + ([a['with']] if a['with'] else [])
        df = world['lib'].futures_helper_asx_90day(pd.DataFrame({'ticker': t, 'price': [96.0] * len(t)}))
        return [str(v)[:10] for v in df['effective_date']]

    # ---------------------------------------------------------------------------------------- oracle
    def expect(self, plan, solo):
        w = plan['world']
        for ci, op, rec in solo_ok(plan, solo):
            a, name, ok = op['args'], op['name'], rec['status'] == 'ok'
            got = plain(rec['value']) if ok else None
            err = '' if ok else f'{rec["exc"]} {rec["msg"]}'
            if name == 'bad':
                if ok:
                    yield {'cls': 'bad-ticker', 'op': op['id'], 'detail': f'ticker {a["ticker"]} was given the dates {got}'}
                continue
            if name == 'asx':
                if not ok:
                    yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{err}: {op}'}
                    continue
                want = [self.contract(w['strip'][i]) for i in a['rows']]
                for j, col in enumerate(('expiry', 'settlement', 'effective', 'maturity')):
                    if got[j] != [x[j] for x in want]:
                        yield {'cls': 'contract-date', 'op': op['id'], 'detail': f'{col} dates of contracts {[w["strip"][i] for i in a["rows"]]} are {got[j]}, by the contract {[x[j] for x in want]}'}
                if a['price'] and not np.allclose(got[4], [1 - w['strip_px'][i] / 100 for i in a['rows']], rtol=0, atol=1e-12):
                    yield {'cls': 'futures-rate', 'op': op['id'], 'detail': f'rates {got[4]} of prices {[w["strip_px"][i] for i in a["rows"]]}'}
                continue
            feed, qs = self.quotes_of(w, a['feed'])
            ref = ref_cash(w, qs)
            rows = sorted(([q['eff'], q['mat'], float('nan') if q['rate'] is None else q['rate']] + list(ref[id(q)]) for q in qs), key=lambda r: (r[1], r[0], r[2] if r[2] == r[2] else 1e9))
            sure = all(r[5] is not None for r in rows)
            clean = sure and feed['dup'] is None
            where = f'{name} {a} on {w["date"]} form {w["form"]} {w.get("delay", "")} basis {w["basis"]}'
            if name == 'cash':
                if not ok:
                    if clean:
                        yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{err}: {where}: {qs}'}
                    continue
                yield from self.check(op, got, rows, where, strict=sure)
            elif name == 'curve':
                t = [refs.year_frac(dt.date.fromisoformat(w['date']), dt.date.fromisoformat(r[1]), w['basis']) for r in rows]
                if not clean or min(r[3] for r in rows) <= 0 or min(t) <= 0 or len(set(t)) < len(t):   # a 30/360 year gives some days no length
                    continue
                if not ok:
                    yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{err}: {where}: {qs}'}
                    continue
                yield from self.check(op, got, [r[:3] + [None] + r[4:] for r in rows], where, strict=True, rtol=1e-9)
            else:
                if not clean:
                    continue
                if name == 'futs':
                    fs = [dict(w['futs'][i], fwd=(100 - w['futs'][i]['price']) / 100 - (w['futs'][i]['cvx'] / 1e4 if a['cvx'] else 0)) for i in a['rows']]
                else:
                    fs = []
                    for i in a['rows']:
                        c = self.contract(w['strip'][i])
                        fs.append({'eff': c[2], 'mat': c[3], 'fwd': 1 - w['strip_px'][i] / 100})
                want, full = ref_futures(w, [(r[1], r[5]) for r in rows], fs)
                if not ok:
                    if full:
                        yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{err}: {where}'}
                    continue
                got = sorted(got, key=lambda r: r[0])
                if full or want:
                    yield from self.check(op, got[:len(want)], want, where, strict=True, rtol=1e-9)
                if full and len(got) != len(want):
                    yield {'cls': 'rows', 'op': op['id'], 'detail': f'{len(got)} rows for {len(want)} contracts: {where}'}

    @staticmethod
    def contract(s):
        d = second_friday(*s)
        return [(d - dt.timedelta(days=1)).isoformat(), d.isoformat(), d.isoformat(), roll(refs.add_months(d, 3), SYDNEY).isoformat()]

    @staticmethod
    def check(op, got, want, where, strict, rtol=TOL):
        if [r[:2] for r in got] != [list(r[:2]) for r in want]:
            yield {'cls': 'dates', 'op': op['id'], 'detail': f'{where}: periods {[r[:2] for r in got]}, should be {[list(r[:2]) for r in want]}'}
            return
        for g, r in zip(got, want):
            for j, col in ((2, 'rate'), (3, 'year fraction'), (4, 'discount factor at the start'), (5, 'discount factor at the end')):
                if r[j] is None:
                    continue
                if g[j] == g[j] and r[j] == r[j]:
                    tol = 1e-11 if j == 3 else 1e-8 if j == 2 else rtol
                    if abs(g[j] - r[j]) > tol * max(1.0, abs(r[j])):
                        yield {'cls': 'reprice', 'op': op['id'], 'detail': f'{where}: {col} of {g[:3]} is {g[j]!r}, by the quotes {r[j]!r}'}
                        return
                elif r[j] == r[j] and (strict or j < 4):
                    yield {'cls': 'no-answer', 'op': op['id'], 'detail': f'{where}: {col} of {g[:2]} is missing, by the quotes {r[j]!r}'}
                    return
                elif g[j] == g[j] and r[j] != r[j]:
                    yield {'cls': 'invented', 'op': op['id'], 'detail': f'{where}: {col} of {g[:2]} is {g[j]!r} although the quote has no value'}
                    return
            if r[5] is None and g[5] == g[5] and r[2] != r[2]:
                yield {'cls': 'invented', 'op': op['id'], 'detail': f'{where}: discount factor of {g[:2]} although the quote has no value'}
            if r[5] is None and g[4] == g[4] and g[5] == g[5] and r[2] == r[2] and abs(g[4] / g[5] - 1 - r[2] * r[3]) > 1e-10:
                yield {'cls': 'reprice', 'op': op['id'], 'detail': f'{where}: {g} does not reprice its own quote'}


PROP = C17
