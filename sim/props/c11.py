"""C11: index rates are right or explicit, whatever the fixing feed delivers and when."""
import bisect
import datetime as dt
import math

import numpy as np

from .. import refs
from ..base import Prop, gen_schedule, gen_faults
from ..canon import canon, plain
from .c06 import RefCurve, build_curve
from .c08 import gen_flat_curve

METHODS = ['DAILY_COMPOUNDED', 'WEIGHTED_AVERAGE', 'SIMPLE_AVERAGE']
DPY = {'ACT_365': 365, 'ACT_360': 360}


def gen_feed(rng, date):
    """What the publisher fixed, and the batches in which an unreliable feed delivers it."""
    d = dt.date.fromisoformat(date)
    span = rng.choice([60, 150, 300, 150, 300, 900])
    hol = {rng.randint(1, span) for _ in range(rng.choice([0, 2, 6]))}
    if rng.random() < 0.2:   # a closed week
        k = rng.randint(1, span)
        hol |= set(range(k, k + rng.randint(3, 8)))
    days = [k for k in range(-span, 1) if (d + dt.timedelta(days=k)).weekday() < 5 and -k not in hol]
    if days[-1] == 0 and rng.random() < 0.5:
        days.pop()
    base = rng.uniform(-0.005, 0.06)
    rows = [[k, round(base + rng.uniform(-0.004, 0.004), 6)] for k in days]
    faults = []
    n = rng.choice([1, 1, 2, 3, 4])
    cuts = sorted(rng.sample(range(1, len(rows)), n - 1)) if n > 1 else []
    batches = [rows[a:b] for a, b in zip([0, *cuts], [*cuts, len(rows)])]
    rate = rng.choice([0, 0.02, 0.15])
    out = []
    for b in batches:
        b = [list(r) for r in b]
        if rng.random() < 0.4:
            lost = [r for r in b if rng.random() < rate]
            if rng.random() < 0.3 and len(b) > 4:  # a whole stretch, often an end
                at = rng.choice([0, len(b) - 3, rng.randrange(len(b) - 2)])
                lost += b[at:at + 3]
            if lost:
                faults.append('loss')
                b = [r for r in b if r not in lost]
                if rng.random() < 0.6:
                    faults.append('delay')
                    out.append(('late', lost))
        if rng.random() < 0.4 and b:
            faults.append('duplicate')
            b = b + [list(rng.choice(b)) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.3 and b:
            faults.append('correction')
            b = b + [[r[0], round(r[1] + 0.01, 6)] for r in rng.sample(b, min(len(b), 2))]
        if rng.random() < 0.3 and b:
            faults.append('empty-value')
            for r in rng.sample(b, min(len(b), rng.choice([1, 3]))):
                r[1] = None
        if rng.random() < 0.5 and 'correction' not in faults:
            faults.append('reorder')
            rng.shuffle(b)
        out.append(('batch', b))
    late = [b for k, b in out if k == 'late']
    batches = [b for k, b in out if k == 'batch']
    if rng.random() < 0.3 and len(batches) > 1:
        faults.append('reorder-batches')
        rng.shuffle(batches)
    return {'batches': batches + late, 'span': span, 'faults': sorted(set(faults))}


def delivered(batches):
    """day -> fixing, as the rows delivered so far define it: the last delivery of a date counts, an empty one is none."""
    out = {}
    for b in batches:
        for k, v in b:
            if v is not None:
                out.pop(k, None)
                out[k] = v
    return out


class Ref:
    """Index rates by hand, day by day."""

    def __init__(self, fixings, basis):
        self.f = fixings
        self.days = sorted(fixings)
        self.dpy = DPY[basis]

    def at(self, day):
        i = bisect.bisect_right(self.days, day)
        return None if i == 0 else self.f[self.days[i - 1]]

    def covered(self, s, e):
        return bool(self.days) and self.days[0] <= s and e - 1 <= self.days[-1]

    def overnight(self, s, e, method):
        if method == 'SIMPLE_AVERAGE':
            v = [self.f[k] for k in self.days if s <= k < e]
            return sum(v) / len(v) if v else float('nan')
        v = [self.at(k) for k in range(s, e)]
        if method == 'WEIGHTED_AVERAGE':
            return sum(v) / len(v)
        x = 1.0
        for r in v:
            x *= 1 + r / self.dpy
        return (x - 1) * self.dpy / len(v)


class C11(Prop):
    id = 'C11'
    title = 'Index rates are right or explicit whatever the fixing feed delivers'
    quick, thorough = 420, 16000
    skip_solo = False
    independent = False
    assumptions = ('a day without a delivered fixing inside the history accrues at the last one before it, as on a holiday',
                   'overnight conventions with a fixed number of days per year')

    def gen(self, rng, index):
        date = (dt.date(rng.randint(2016, 2026), rng.randint(1, 12), rng.randint(1, 28))).isoformat()
        curve = gen_flat_curve(rng, date)
        curve.update(basis=rng.choice(['ACT_365', 'ACT_360']), extrap='FLAT')
        feeds = {'rfr': gen_feed(rng, date), 'term': gen_feed(rng, date)}
        last = RefCurve(curve).last_day()
        clients, k = [], 0

        def period(span, past_only=False):
            kind = rng.choice(['past', 'past', 'across', 'future', 'edge', 'long'])
            if kind == 'future' and not past_only:
                s = rng.choice([0, 1, rng.randint(0, last // 2)])
                return [s, s + rng.choice([1, 7, 30, 91, 91, 182])]
            if kind == 'across' and not past_only:
                s = -rng.randint(1, span - 1)
                return [s, rng.randint(7, 100)]
            if kind == 'edge':
                return rng.choice([[-span, -span + 20], [-span - 5, -span + 20], [-20, 0], [-9, -1], [-1, 0], [-span + 1, -span + 40]])
            if kind == 'long':
                return [-span + rng.randint(0, 5), rng.choice([0, -1, -2, -5])]
            s = -rng.randint(2, span)
            return [s, min(0, s + rng.choice([1, 2, 7, 30, 91, 91, 182, 366]))]

        for which in ('rfr', 'term'):
            n = len(feeds[which]['batches'])
            first = rng.randint(0, n)
            feeds[which]['first'] = first if rng.random() < 0.6 else n
            ops = []
            for _ in range(n - feeds[which]['first']):
                k += 1
                ops.append({'id': f'o{k}', 'name': 'deliver', 'args': {'which': which}, 'nofault': True})
            if ops:
                clients.append(ops)
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(2, 6)):
                k += 1
                which = rng.choice(['rfr', 'rfr', 'term'])
                direct = rng.random() < 0.35
                span = feeds[which]['span']
                a = {'which': which, 'direct': direct, 'method': rng.choice(METHODS) if which == 'rfr' else 'SIMPLE',
                     'periods': [period(span, direct and which == 'rfr') for _ in range(rng.choice([1, 1, 2, 2, 4, 7, 20]))]}
                if direct and which == 'term':
                    a['periods'] = [[s, s + 90] for s, _ in a['periods']]
                if rng.random() < 0.2:
                    a['reload'] = True
                ops.append({'id': f'o{k}', 'name': 'query', 'args': a})
            clients.append(ops)
        rng.shuffle(clients)
        kinds = [x for x in ('cancel', 'memory', 'deadline') if rng.random() < 0.6]
        return {'world': {'date': date, 'curve': curve, 'feeds': feeds}, 'clients': clients, 'sched': gen_schedule(rng),
                'faults': gen_faults(rng, clients, kinds, rng.choice([0, 0.2, 0.5]))}

    @staticmethod
    def frame(date, batches):
        import pandas as pd
        t = pd.Timestamp(date)
        rows = [r for b in batches for r in b]
        return pd.DataFrame({'date': pd.DatetimeIndex([t + pd.Timedelta(days=k) for k, _ in rows]),
                             'fixing': np.array([np.nan if v is None else v for _, v in rows], float)})

    def build(self, plan):
        from frm.enums import DayCountBasis
        from frm.term_structures.historical_swap_index_fixings import RFRFixings, TermFixings
        from frm.term_structures.swap_curve import RFRSwapCurve, TermSwapCurve
        w = plan['world']
        b = DayCountBasis[w['curve']['basis']]
        world = {'curve': build_curve(w['curve']), 'version': {}, 'seen': [], 'basis': b}
        for which, Fix, Swap in (('rfr', RFRFixings, RFRSwapCurve), ('term', TermFixings, TermSwapCurve)):
            f = w['feeds'][which]
            world[which] = Swap(zero_curve=world['curve'], historical_fixings=Fix(fixings=self.frame(w['date'], f['batches'][:f['first']]), day_count_basis=b))
            world['version'][which] = f['first']
        return world

    def run_op(self, world, plan, client, op):
        import pandas as pd
        from frm.enums import PeriodFreq, RFRFixingCalcMethod, TermRate
        a, w = op['args'], plan['world']
        which = a['which']
        swap = world[which]
        f = w['feeds'][which]
        if op['name'] == 'deliver':
            old = swap.historical_fixings.fixings
            v = world['version'][which] + 1
            new = pd.concat([old, self.frame(w['date'], f['batches'][v - 1:v])], ignore_index=v % 2 == 0)
            world['version'][which] = v
            swap.historical_fixings.fixings = new
            return None
        t = pd.Timestamp(w['date'])
        start = pd.DatetimeIndex([t + pd.Timedelta(days=s) for s, _ in a['periods']])
        end = pd.DatetimeIndex([t + pd.Timedelta(days=e) for _, e in a['periods']])
        v0 = world['version'][which]
        if a.get('reload'):  # restart: the objects are made again from the stored rows
            fix = type(swap.historical_fixings)(fixings=swap.historical_fixings.fixings.copy(), day_count_basis=world['basis'])
            swap = type(swap)(zero_curve=world['curve'], historical_fixings=fix)
        seen = {'op': op, 'v': [v0, None], 'value': None, 'exc': None}
        try:
            if which == 'term':
                out = swap.historical_fixings.index_historical_fixings(start) if a['direct'] else \
                    swap.get_fixings(start, end, PeriodFreq.QUARTERLY, TermRate.SIMPLE)
            elif a['direct']:
                out = swap.historical_fixings.get_coupon_rates(start, end, RFRFixingCalcMethod[a['method']])
            else:
                out = swap.get_fixings(start, end, RFRFixingCalcMethod[a['method']])
            seen['value'] = plain(canon(np.asarray(out)))
        except BaseException as e:
            seen['exc'] = [type(e).__name__, str(e)[:200]]
            raise
        finally:
            seen['v'][1] = world['version'][which]
            from .. import core
            c = core.current_client()
            seen['fired'] = bool(c is not None and c.fired)
            world['seen'].append(seen)
        return None

    def before(self, world, plan):
        world['seen'] = []

    def compare_op(self, op, s, c):
        for r in (c, c.get('retry')):
            if r is not None and r['status'] == 'exc' and r['exc'] in ('SimLivelock', 'SimDeadlock'):
                yield {'cls': 'stuck', 'op': op['id'], 'detail': f'{op["name"]}: {r["exc"]} {r["msg"]}'}

    def after(self, world, plan, token):
        w = plan['world']
        curve = RefCurve(w['curve'])
        memo = {}
        out = []
        for seen in world['seen']:
            a = seen['op']['args']
            refs_ = []
            for v in range(seen['v'][0], seen['v'][1] + 1):
                if (a['which'], v) not in memo:
                    memo[(a['which'], v)] = Ref(delivered(w['feeds'][a['which']]['batches'][:v]), w['curve']['basis'])
                refs_.append(memo[(a['which'], v)])
            try:
                found = list(self.judge(w, curve, a, seen, refs_))
            except (TypeError, ValueError, KeyError, IndexError) as e:
                found = [('malformed-answer', f'{type(e).__name__}: {e}: {str(seen["value"])[:200]}')]
            for cls, text in found:
                out.append({'cls': cls, 'op': seen['op']['id'], 'detail': f'{text}: {a} with deliveries {seen["v"]}; curve date {w["date"]}, feed '
                                                                          f'{w["feeds"][a["which"]]["faults"]}'[:1800]})
        return out

    def judge(self, w, curve, a, seen, versions):
        want = [[self.want(w, curve, a, s, e, r) for r in versions] for s, e in a['periods']]
        if seen['exc']:
            if not seen['fired'] and not any(x is None or x[0] != x[0] for row in want for x in row):
                yield 'unexpected-error', f'{seen["exc"]} although everything needed was delivered'
            return
        got = np.atleast_1d(np.asarray(seen['value'], float)).ravel()
        if got.size != len(want):
            yield 'shape', f'{len(want)} periods, {got.size} answers'
            return
        for g, row, p in zip(got, want, a['periods']):
            if any((x is None and math.isnan(g)) or (x is not None and any((math.isnan(y) and math.isnan(g)) or abs(g - y) <= 1e-10 + 1e-9 * abs(y) for y in x))
                   for x in row):
                continue
            if all(x is None for x in row):
                yield 'partial-history', f'period {p} reaches beyond the delivered history, answered {g!r}'
            else:
                yield 'wrong-rate', f'period {p}: {g!r}, the delivered fixings define {row}'
            return

    @staticmethod
    def want(w, curve, a, s, e, ref):
        """The acceptable rates of a period, or None where the history does not reach (no value or an error then)."""
        D = curve.discount_at
        yf = lambda x, y: refs.year_frac(curve.start + dt.timedelta(days=x), curve.start + dt.timedelta(days=y), w['curve']['basis'])
        if a['which'] == 'term':
            if s >= 0 and not a['direct']:
                return [(D(s) / D(e) - 1) / yf(s, e)]
            v = ref.at(s)
            return None if v is None else [v]

        def forward(x, y):
            if a['method'] == 'DAILY_COMPOUNDED':
                return (D(x) / D(y) - 1) / yf(x, y)
            r = [(D(k) / D(k + 1) - 1) * ref.dpy for k in range(x, y)]
            if a['method'] == 'SIMPLE_AVERAGE':
                r = [v for k, v in zip(range(x, y), r) if (curve.start + dt.timedelta(days=k)).weekday() < 5]
            return sum(r) / len(r) if r else float('nan')
        if s >= 0 and not a['direct']:
            return [forward(s, e)]
        h_end = e if e <= 0 or a['direct'] else 0
        if not ref.covered(s, h_end):
            return None
        h = ref.overnight(s, h_end, a['method'])
        if h_end == e:
            return [h]
        f, t1, t2 = forward(0, e), yf(s, 0), yf(0, e)
        out = [(h * t1 + (1 + t1 * h) * t2 * f) / (t1 + t2)]
        if a['method'] != 'DAILY_COMPOUNDED':
            out.append((h * t1 + f * t2) / (t1 + t2))
        return out

    def environment_faults(self, plan, solo, conc):
        out = {}
        for f in plan['world']['feeds'].values():
            for x in f['faults']:
                out['feed-' + x] = out.get('feed-' + x, 0) + 1
        return out

    def probes(self, plan, solo, conc):
        out = {}
        for c in plan['clients']:
            for op in c:
                k = op['name'] + ' ' + op['args']['which']
                out[k] = out.get(k, 0) + 1
        return out


PROP = C11
