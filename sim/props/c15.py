"""C15: schedule decoration is idempotent, order independent and safe to retry."""
import calendar
import datetime as dt
import random

import numpy as np

from ..base import Prop, gen_schedule, gen_faults, solo_ok
from ..refs import year_frac, add_months

FREQ = {'DAILY': 1, 'WEEKLY': 7, '_28_DAYS': 28, 'MONTHLY': 31, 'QUARTERLY': 92, 'SEMIANNUAL': 184, 'ANNUAL': 366, 'ZERO_COUPON': 366}
BASES = ['ACT_360', 'ACT_365', 'ACT_ACT', 'ACT_366', '_30_360', '_30E_360', '_30E_360_ISDA']
ROLLS = ['FOLLOWING', 'PRECEDING', 'MODIFIED_FOLLOWING', 'MODIFIED_PRECEDING']
NOTIONAL = ('notional', 'notional_payment', 'notional_payment_date')


# ---------------------------------------------------------------------------------------------- reference
class Cal:
    def __init__(self, holidays):
        self.holidays = {dt.date.fromisoformat(h) for h in holidays}

    def good(self, d):
        return d.weekday() < 5 and d not in self.holidays

    def walk(self, d, step):
        while not self.good(d):
            d += dt.timedelta(days=step)
        return d

    def roll(self, d, conv):
        first = 1 if conv.endswith('FOLLOWING') else -1
        x = self.walk(d, first)
        if conv.startswith('MODIFIED') and x.month != d.month:
            x = self.walk(d, -first)
        return x

    def offset(self, d, n, conv):
        d = self.roll(d, conv)
        for _ in range(abs(n)):
            d = self.walk(d + dt.timedelta(days=1 if n > 0 else -1), 1 if n > 0 else -1)
        return d


def feb_end(d):
    return d.month == 2 and d.day == calendar.monthrange(d.year, 2)[1]


def ref_days(a, b, basis, last):
    if basis.startswith('ACT'):
        return (b - a).days
    if basis == '_30E_360_ISDA':
        d1 = 30 if a.day == 31 or feb_end(a) else a.day
        d2 = 30 if b.day == 31 or (feb_end(b) and not last) else b.day
        return 360 * (b.year - a.year) + 30 * (b.month - a.month) + d2 - d1
    return round(year_frac(a, b, basis) * 360)


def ref_years(a, b, basis, last):
    if basis == '_30E_360_ISDA':
        return ref_days(a, b, basis, last) / 360.0
    if basis == 'ACT_ACT':  # the year parts at both ends over the length of their years
        return year_frac(a, b, basis) if a.year != b.year else \
            (b - a).days / (366.0 if calendar.isleap(a.year) else 365.0)
    return year_frac(a, b, basis)


def amounts(a, n):
    """The notionals of n periods: one number, or one per period."""
    if a.get('profile') is None or n < 2:
        return float(a['amount'])
    rng = random.Random(a['profile'])
    return np.array([a['amount'] * rng.choice([1.0, 1.0, 0.5, 1.5, 0.25 + rng.random()]) for _ in range(n)])


class Model:
    """What the schedule must look like: periods, an optional initial exchange row, and one value per row and column."""

    def __init__(self, spec, periods):
        self.spec, self.periods, self.cols, self.initial = spec, periods, {}, False
        self.cal = Cal(spec['holidays'])
        if spec['kind'] != 'base':
            self.notional(spec, spec['exchange'], spec['ndelay'], spec['ntiming'])
        if spec['kind'] == 'coupon':
            self.payment(spec['cdelay'], spec['ctiming'], 'coupon_payment_date')

    def copy(self):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        m.cols = dict(self.cols)
        return m

    def dates(self, delay, timing):
        return [self.cal.offset(b if timing == 'IN_ARREARS' else a, delay, self.spec['roll']) for a, b in self.periods]

    def daycount(self, basis):
        n = len(self.periods)
        self.cols['period_daycount'] = (None, [float(ref_days(a, b, basis, k == n - 1)) for k, (a, b) in enumerate(self.periods)])

    def yearfrac(self, basis):
        n = len(self.periods)
        self.cols['period_yearfrac'] = (None, [ref_years(a, b, basis, k == n - 1) for k, (a, b) in enumerate(self.periods)])

    def payment(self, delay, timing, name='payment_date'):
        self.cols[name] = (None, self.dates(delay, timing))

    def notional(self, a, exchange, delay, timing):
        n = len(self.periods)
        each = [float(x) for x in np.broadcast_to(amounts(a, n), n)]
        self.initial = exchange in ('START', 'BOTH')
        first = dt.date.fromisoformat(self.spec['initial']) if self.spec['initial'] else self.periods[0][0]
        self.cols['notional'] = (0.0, each)
        self.cols['notional_payment'] = (-each[0], [x - y for x, y in zip(each, each[1:])] + [each[-1] if exchange in ('END', 'BOTH') else 0.0])
        self.cols['notional_payment_date'] = (first, self.dates(delay, timing))


def plainly(v):
    import pandas as pd
    if v is None or v is pd.NaT or (isinstance(v, float) and v != v):
        return None
    if isinstance(v, (pd.Timestamp, dt.datetime, np.datetime64)):
        t = pd.Timestamp(v)
        return t.date() if t == t.normalize() else t
    return float(v)


def view(df):
    """(has an initial exchange row, periods, {column: (value of the initial row, values of the periods)})."""
    cols = {c: [plainly(v) for v in df[c]] for c in df.columns}
    a, b = cols.pop('period_start'), cols.pop('period_end')
    initial = bool(a) and a[0] is None
    k = 1 if initial else 0
    return initial, list(zip(a[k:], b[k:])), {c: (v[0] if initial else None, v[k:]) for c, v in cols.items()}


def close(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return abs(x - y) <= 1e-12 * max(1.0, abs(y))
    return x == y


def column_differs(got, want, initial):
    if initial and not close(got[0], want[0]):
        return f'first row {got[0]} instead of {want[0]}'
    if len(got[1]) != len(want[1]):
        return f'{len(got[1])} periods instead of {len(want[1])}'
    for k, (x, y) in enumerate(zip(got[1], want[1])):
        if not close(x, y):
            return f'period {k}: {x} instead of {y}'
    return None


def compare(df, model, own=()):
    """Every difference between the schedule and the model; columns in own are not judged."""
    if [str(c) for c in df.index] != [str(k) for k in range(len(df))]:
        yield 'the rows are no longer numbered from 0'
    if df.columns.duplicated().any():
        yield f'columns doubled: {list(df.columns)}'
        return
    for c in ('period_start', 'period_end'):
        if c not in df.columns:
            yield f'column {c} is gone'
            return
    initial, periods, cols = view(df)
    loose = any(c in NOTIONAL for c in own)
    if periods != model.periods:
        yield f'the periods changed: {len(periods)} rows {periods[:3]}.. instead of {len(model.periods)} rows {model.periods[:3]}..'
        return
    if not loose and initial != model.initial:
        yield f'initial exchange row {"appeared" if initial else "disappeared"}'
    for c in sorted(set(cols) | set(model.cols)):
        if c in own:
            continue
        if c not in cols or c not in model.cols:
            yield f'column {c} {"appeared" if c in cols else "disappeared"}'
            continue
        d = column_differs(cols[c], model.cols[c], initial and model.initial)
        if d:
            yield f'column {c}: {d}'


# ---------------------------------------------------------------------------------------------- the schedules of a plan
def gen_spec(rng):
    freq = rng.choice(['DAILY', 'WEEKLY', '_28_DAYS', 'MONTHLY', 'MONTHLY', 'QUARTERLY', 'QUARTERLY', 'SEMIANNUAL', 'ANNUAL', 'ZERO_COUPON'])
    start = dt.date(rng.randint(2018, 2030), rng.randint(1, 12), rng.randint(1, 28)) + dt.timedelta(days=rng.choice([0, 0, 1, 2, 3]))
    if rng.random() < 0.5 and FREQ[freq] > 28:
        end = add_months(start, rng.choice([3, 6, 12]) * rng.randint(1, 5) + (rng.randint(1, 5) if rng.random() < 0.3 else 0))
    else:
        end = start + dt.timedelta(days=FREQ[freq] * rng.choice([3, 5, 9, 14]) + rng.randint(0, 20))
    if freq in ('DAILY', 'ZERO_COUPON', 'ANNUAL', 'SEMIANNUAL'):
        end = max(end, start + dt.timedelta(days=8))
    if rng.random() < 0.3:  # periods which start or end on the last day of February
        end = dt.date(start.year + rng.randint(1, 4), 3, 1) - dt.timedelta(days=1)
    s = {'kind': rng.choice(['base', 'notional', 'coupon']), 'freq': freq, 'start': start.isoformat(), 'end': end.isoformat(), 'roll': rng.choice(ROLLS),
         'day_roll': rng.choice(['UNADJUSTED', 'UNADJUSTED', 'EOM'] + [f'_{k}' for k in (1, 5, 15, 20, 29, 30, 31)]) if FREQ[freq] > 28 and freq != 'ZERO_COUPON' else 'UNADJUSTED',
         'rolled': freq in ('DAILY', 'WEEKLY') or rng.random() < 0.3, 'stubs': None, 'first': None, 'last': None,
         'holidays': sorted({(start + dt.timedelta(days=rng.randint(0, (end - start).days))).isoformat() for _ in range(rng.choice([0, 0, 5, 30]))}),
         'amount': rng.choice([1.0, 2.5e6, 1e8]), 'profile': rng.choice([None, None, rng.randrange(1 << 16)]), 'exchange': rng.choice(['NEITHER', 'START', 'END', 'BOTH', 'BOTH']),
         'ndelay': rng.choice([0, 0, 1, 2]), 'ntiming': rng.choice(['IN_ARREARS', 'IN_ARREARS', 'IN_ADVANCE']),
         'cdelay': rng.choice([0, 0, 2, 5]), 'ctiming': rng.choice(['IN_ARREARS', 'IN_ARREARS', 'IN_ADVANCE']),
         'initial': (start + dt.timedelta(days=rng.randint(-3, 3))).isoformat() if rng.random() < 0.3 else None}
    span = (end - start).days
    many = span >= rng.choice([0.3, 4, 4]) * FREQ[freq] and span > 12 and freq not in ('ZERO_COUPON', 'DAILY')
    if many and rng.random() < 0.35:
        which = rng.choice(['first', 'last', 'both'])
        if which != 'last':
            s['first'] = (start + dt.timedelta(days=rng.randint(5, min(span - 1, FREQ[freq])))).isoformat()
        if which != 'first':
            s['last'] = (end - dt.timedelta(days=rng.randint(5, min(span - 1, FREQ[freq])))).isoformat()
        if rng.random() < 0.5:   # ends on dates of the rule
            cal = Cal(s['holidays'])
            back, forth = dates_by_rule(s, cal, start, end, -1), dates_by_rule(s, cal, start, end, 1)
            if min(len(back), len(forth)) > 3:
                side = rng.choice(['back', 'forth', None])
                if s['first']:
                    x = rng.choice([back[1], back[2], forth[1]] if side is None else [back[1], back[2]] if side == 'back' else [forth[1]])
                    s['first'] = x.isoformat() if start < x < end else s['first']
                if s['last']:
                    x = rng.choice([back[-2], forth[-2], forth[-3]] if side is None else [back[-2]] if side == 'back' else [forth[-2], forth[-3]])
                    s['last'] = x.isoformat() if start < x < end else s['last']
        if which == 'both' and rng.random() < 0.15:   # exactly two periods
            s['last'] = s['first']
        if which != 'both' and rng.random() < 0.5:   # one end given, the other by rule
            stub = rng.choice(['SHORT', 'LONG', 'LONG', 'DEFAULT'])
            s['stubs'] = ['DEFINED_PER_FIRST_PERIOD_END_DATE', stub] if which == 'first' else [stub, 'DEFINED_PER_LAST_PERIOD_START_DATE']
    elif many and rng.random() < 0.4:
        s['stubs'] = [f if rng.random() < 0.6 or f != 'DEFAULT' else 'NONE' for f in
                      rng.choice([['SHORT', 'DEFAULT'], ['LONG', 'DEFAULT'], ['DEFAULT', 'SHORT'], ['DEFAULT', 'LONG']])]
    return s


def create(s):
    import pandas as pd
    from frm.enums.utils import DayRoll, ExchangeNotionals, PeriodFreq, RollConv, Stub, TimingConvention
    from frm.utils.schedule import BaseSchedule, CouponSchedule, NotionalSchedule
    kw = {'start_date': pd.Timestamp(s['start']), 'end_date': dt.date.fromisoformat(s['end']), 'freq': PeriodFreq[s['freq']], 'roll_conv': RollConv[s['roll']],
          'day_roll': DayRoll[s['day_roll']], 'roll_user_specified_dates': s['rolled'],
          'cal': np.busdaycalendar(holidays=np.array(s['holidays'], dtype='datetime64[D]'))}
    if s['first']:
        kw['first_period_end'] = pd.Timestamp(s['first'])
    if s['last']:
        kw['last_period_start'] = np.datetime64(s['last'])
    if s['stubs']:
        kw['first_stub'], kw['last_stub'] = Stub[s['stubs'][0]], Stub[s['stubs'][1]]
    if s['kind'] != 'base':
        kw |= {'notional_amount': amounts(s, len(expected_periods(s) or [])), 'exchange_notionals': ExchangeNotionals[s['exchange']], 'notional_payment_delay': s['ndelay'],
               'notional_payment_timing': TimingConvention[s['ntiming']], 'initial_notional_exchange_date': pd.Timestamp(s['initial']) if s['initial'] else None}
    if s['kind'] == 'coupon':
        kw |= {'coupon_payment_delay': s['cdelay'], 'coupon_payment_timing': TimingConvention[s['ctiming']]}
    return {'base': BaseSchedule, 'notional': NotionalSchedule, 'coupon': CouponSchedule}[s['kind']](**kw)


STEP = {'DAILY': (1, 0), 'WEEKLY': (7, 0), '_28_DAYS': (28, 0), 'MONTHLY': (0, 1), 'QUARTERLY': (0, 3), 'SEMIANNUAL': (0, 6), 'ANNUAL': (0, 12)}


def dates_by_rule(s, cal, a, b, sign):
    """Boundaries from a to b, counted from a (sign 1) or back from b (sign -1), each put on the roll day, then on a business day."""
    days, months = STEP[s['freq']]
    lo, hi = (cal.roll(a, s['roll']), cal.roll(b, s['roll'])) if s['rolled'] else (a, b)
    inner, base = [], a if sign > 0 else b
    for i in range(1, 4000):
        d = add_months(base, sign * i * months) + dt.timedelta(days=sign * i * days)
        if s['day_roll'] != 'UNADJUSTED':
            top = calendar.monthrange(d.year, d.month)[1]
            d = d.replace(day=top if s['day_roll'] == 'EOM' else min(top, int(s['day_roll'][1:])))
        d = cal.roll(d, s['roll'])
        if not (d < hi if sign > 0 else d > lo):
            break
        inner.append(d)
    return [lo] + inner[::sign] + [hi]


def expected_periods(s):
    """The periods the frequency, roll day, business days and stubs ask for; None where the ends given contradict one another."""
    cal = Cal(s['holidays'])
    a, b = dt.date.fromisoformat(s['start']), dt.date.fromisoformat(s['end'])
    first, last = (dt.date.fromisoformat(s[x]) if s[x] else None for x in ('first', 'last'))
    stubs = s['stubs'] or ['DEFAULT', 'DEFAULT']
    if s['freq'] == 'ZERO_COUPON' or first == b or last == a:
        x = [a, b]
    elif first is not None and first == last:
        x = [a, first, b]
    elif first is None and last is None:
        if stubs[1] in ('DEFAULT', 'NONE'):      # a stub at the start, counted from the end
            x = dates_by_rule(s, cal, a, b, -1)
            if stubs[0] == 'LONG' and len(x) > 2:
                del x[1]
        else:                          # a stub at the end, counted from the start
            x = dates_by_rule(s, cal, a, b, 1)
            if stubs[1] == 'LONG' and len(x) > 2:
                del x[-2]
    else:
        back, forth = dates_by_rule(s, cal, a, b, -1), dates_by_rule(s, cal, a, b, 1)
        # an end on a date the rule gives by itself says from which end to count
        if first is not None and last is not None:
            if first >= last:
                return None
            if first == forth[1] and last in forth[-3:-1] and last > a:
                x = forth if last == forth[-2] else forth[:-2] + forth[-1:]
            elif last == back[-2] and first in back[1:3]:
                x = back if first == back[1] else back[:1] + back[2:]
            else:
                x = [a] + dates_by_rule(s, cal, first, last, -1) + [b]
        elif first is not None:
            if first == forth[1]:
                x = forth if stubs[1] != 'LONG' or len(forth) < 3 else forth[:-2] + forth[-1:]
            elif first in back[1:3]:
                if stubs[1] in ('SHORT', 'LONG'):
                    return None
                x = back if first == back[1] else back[:1] + back[2:]
            else:
                x = [a] + dates_by_rule(s, cal, first, b, 1)
                if stubs[1] == 'LONG' and len(x) > 3:
                    del x[-2]
        else:
            if last == back[-2]:
                x = back if stubs[0] != 'LONG' or len(back) < 3 else back[:1] + back[2:]
            elif last in forth[-3:-1]:
                if stubs[0] in ('SHORT', 'LONG'):
                    return None
                x = forth if last == forth[-2] else forth[:-2] + forth[-1:]
            else:
                x = dates_by_rule(s, cal, a, last, -1) + [b]
                if stubs[0] == 'LONG' and len(x) > 3:
                    del x[1]
    if s['rolled']:
        x = [cal.roll(d, s['roll']) for d in x]
    return list(zip(x, x[1:]))


def check_periods(s, periods):
    d = tiling_problem(s, periods)
    want = None if d else expected_periods(s)
    if want is not None and periods != want:
        k = next(k for k, (x, y) in enumerate(zip(periods + [None], want + [None])) if x != y)
        return f'{len(periods)} periods, number {k} {periods[k:k + 1]} instead of {want[k:k + 1]} of {len(want)}'
    return d


def tiling_problem(s, periods):
    cal = Cal(s['holidays'])
    a, b = dt.date.fromisoformat(s['start']), dt.date.fromisoformat(s['end'])
    if s['rolled']:
        a, b = cal.roll(a, s['roll']), cal.roll(b, s['roll'])
    if not periods:
        return 'no periods'
    for (p, q), (u, v) in zip(periods, periods[1:]):
        if q != u:
            return f'{"gap" if q < u else "overlap"} between {q} and {u}'
    if periods[0][0] != a or periods[-1][1] != b:
        return f'from {periods[0][0]} to {periods[-1][1]} instead of {a} to {b}'
    for p, q in periods:
        if p > q:
            return f'a period runs backwards from {p} to {q}'
        if p == q and s['rolled'] and s['day_roll'] == 'UNADJUSTED' and s['freq'] not in ('DAILY', 'WEEKLY'):
            return f'an empty period at {p}'
    return None


class C15(Prop):
    id = 'C15'
    title = 'Schedule decoration is idempotent, order independent and safe to retry'
    quick, thorough = 900, 40000
    fault_kinds = ('cancel', 'memory', 'deadline')
    independent = False
    rtol, atol = 0.0, 0.0

    def gen(self, rng, index):
        clients, specs, k = [], [], 0
        for c in range(rng.choice([1, 2, 2, 3])):
            mine = []
            for _ in range(rng.choice([1, 1, 2])):
                specs.append(gen_spec(rng))
                mine.append(len(specs) - 1)
            ops = []
            for m in mine:
                k += 1
                ops.append({'id': f'o{k}', 'name': 'create', 'args': {'k': m}})
            for _ in range(rng.randint(2, 8)):
                k += 1
                m = rng.choice(mine)
                ops.append({'id': f'o{k}', **self.gen_op(rng, m, specs[m])})
            clients.append(ops)
        kinds = [x for x in self.fault_kinds if rng.random() < 0.6]
        faults = gen_faults(rng, clients, kinds, rng.choice([0.1, 0.3, 0.6]))
        creates = {op['id'] for ops in clients for op in ops if op['name'] == 'create'}
        for f in faults:
            f['retry'] = f['op'] in creates or rng.random() < 0.6
        return {'world': {'specs': specs}, 'clients': clients, 'sched': gen_schedule(rng), 'faults': faults}

    def gen_op(self, rng, m, spec):
        name = rng.choice(['daycount', 'daycount', 'yearfrac', 'yearfrac', 'payment', 'notional', 'notional', 'rebuild', 'shapes', 'refused'])
        if name == 'notional' and spec['kind'] == 'base' or name == 'shapes' and spec['kind'] != 'coupon':
            name = rng.choice(['daycount', 'yearfrac'])
        args = {'k': m}
        if name in ('daycount', 'yearfrac'):
            args['basis'] = rng.choice(BASES)
        elif name == 'payment':
            args |= {'delay': rng.choice([0, 1, 2, 5, -2]), 'timing': rng.choice(['IN_ARREARS', 'IN_ADVANCE']), 'col': rng.choice(['payment_date', 'fixing_date', 'accrual_cutoff'])}
        elif name == 'notional':
            again = rng.random() < 0.5
            args |= {x: spec[x] if again else y for x, y in (('amount', rng.choice([5.0, 1e6])), ('profile', rng.choice([None, rng.randrange(1 << 16)])), ('exchange', rng.choice(['NEITHER', 'START', 'END', 'BOTH'])),
                                                             ('ndelay', rng.choice([0, 1, 3])), ('ntiming', rng.choice(['IN_ARREARS', 'IN_ADVANCE'])))}
        elif name == 'rebuild':
            args['order'] = rng.randrange(1 << 16)
        elif name == 'refused':
            args['odd'] = rng.random() < 0.5
            args['how'] = rng.choice(['daycount', 'yearfrac', 'payment'] + ['notional'] * (spec['kind'] != 'base'))
        return {'name': name, 'args': args}

    def build(self, plan):
        n = len(plan['world']['specs'])
        return {'specs': plan['world']['specs'], 'sched': [None] * n, 'model': [None] * n, 'done': [dict() for _ in range(n)], 'bad': []}

    def report(self, world, op, cls, detail, k):
        world['bad'].append({'cls': cls, 'op': op['id'], 'detail': f'{op["name"]} {op["args"]}: {detail}; schedule {world["specs"][k]}'[:1500]})

    def own_columns(self, op):
        if op['name'] == 'notional' or op['args'].get('how') == 'notional':
            return NOTIONAL
        return {'daycount': ('period_daycount',), 'yearfrac': ('period_yearfrac',), 'payment': (op['args'].get('col'),)}.get(op['name'], ())

    def decorate(self, sched, name, a):
        from frm.enums.utils import DayCountBasis, ExchangeNotionals, TimingConvention
        if name == 'daycount':
            sched.add_period_daycount(DayCountBasis[a['basis']])
        elif name == 'yearfrac':
            sched.add_period_yearfrac(DayCountBasis[a['basis']])
        elif name == 'payment':
            sched.add_payment_dates(a['delay'], TimingConvention[a['timing']], col_name=a['col'])
        elif name == 'notional':
            n = int(sched.df['period_start'].notnull().sum())
            sched.notional_amount, sched.exchange_notionals = amounts(a, n), ExchangeNotionals[a['exchange']]
            sched.notional_payment_delay, sched.notional_payment_timing = a['ndelay'], TimingConvention[a['ntiming']]
            sched.add_notional_schedule()

    def model_after(self, model, name, a):
        m = model.copy()
        if name == 'daycount':
            m.daycount(a['basis'])
        elif name == 'yearfrac':
            m.yearfrac(a['basis'])
        elif name == 'payment':
            m.payment(a['delay'], a['timing'], a['col'])
        elif name == 'notional':
            m.notional(a, a['exchange'], a['ndelay'], a['ntiming'])
        return m

    def run_op(self, world, plan, client, op):
        name, a = op['name'], op['args']
        k = a['k']
        if name == 'create':
            world['sched'][k] = None
            s = create(world['specs'][k])
            initial, periods, cols = view(s.df)
            d = check_periods(world['specs'][k], periods)
            if d:
                self.report(world, op, 'periods', d, k)
            world['sched'][k], world['model'][k], world['done'][k] = s, Model(world['specs'][k], periods), {}
            self.check(world, op, k)
            return [[str(x), str(y)] for x, y in periods]
        s, model = world['sched'][k], world['model'][k]
        if s is None:
            return None
        if name == 'refused':
            return self.refused(world, op, s, k)
        if name == 'shapes':
            index, shapes = s.determine_valid_shapes_for_coupon_param()
            n = len(model.periods)
            if 'notional' not in world['done'][k].get('torn', ()) and (list(shapes) != [(1,), (n,)] or [int(x) for x in index] != list(range(model.initial, n + model.initial))):
                self.report(world, op, 'shapes', f'{shapes} rows {list(index)[:3]}.. for {n} periods', k)
            return n
        if name == 'rebuild':
            return self.rebuild(world, op, k)
        torn = world['done'][k].get('torn', ())
        try:
            self.decorate(s, name, a)
        except BaseException:
            own = tuple(set(self.own_columns(op)) | set(torn))
            for d in compare(s.df, model, own):
                self.report(world, op, 'torn', f'interrupted: {d}', k)
                break
            world['done'][k]['torn'] = own
            raise
        world['model'][k] = model = self.model_after(model, name, a)
        world['done'][k][name + a.get('col', '')] = (name, a)
        own = self.own_columns(op)
        world['done'][k]['torn'] = tuple(c for c in torn if c not in own)
        self.check(world, op, k)
        _, periods, cols = view(s.df)
        return [[c, [str(x) for x in cols[c][1]]] for c in own if c in cols]

    def check(self, world, op, k, own=()):
        for d in compare(world['sched'][k].df, world['model'][k], tuple(own) + tuple(world['done'][k].get('torn', ()))):
            self.report(world, op, 'schedule-differs', d, k)
            return

    def refused(self, world, op, s, k):
        """A call the library refuses leaves the schedule as it was."""
        how = op['args']['how']
        keep = s.notional_amount if how == 'notional' else None
        try:
            if how == 'daycount':
                s.add_period_daycount('act/999')
            elif how == 'yearfrac':
                s.add_period_yearfrac('act/999')
            elif how == 'payment':
                s.add_payment_dates(2, 'in the middle', col_name='payment_date')
            else:
                s.notional_amount = np.ones((3, 3)) if op['args'].get('odd') else np.ones(len(world['model'][k].periods) + 1)
                s.add_notional_schedule()
        except (ValueError, TypeError, AttributeError):
            self.check(world, op, k)
            return 'refused'
        finally:
            if how == 'notional':
                s.notional_amount = keep
        self.report(world, op, 'accepted', 'a meaningless call was accepted', k)

    def rebuild(self, world, op, k):
        """The process was restarted: the same decorations in another order, some twice, give the same schedule."""
        s = create(world['specs'][k])
        todo = [v for x, v in world['done'][k].items() if x != 'torn']
        rng = random.Random(op['args']['order'])
        todo += [v for v in todo if rng.random() < 0.3]
        rng.shuffle(todo)
        for name, a in todo:
            self.decorate(s, name, a)
        fresh = Model(world['specs'][k], world['model'][k].periods)
        for name, a in todo:
            fresh = self.model_after(fresh, name, a)
        for d in compare(s.df, fresh):
            self.report(world, op, 'order', f'decorated in the order {[x[0] for x in todo]}: {d}', k)
            return None
        if not world['done'][k].get('torn'):
            for d in compare(s.df, world['model'][k]):
                self.report(world, op, 'order', f'decorated in the order {[x[0] for x in todo]}: {d} of the first', k)
                return None
        return True

    def after(self, world, plan, token):
        for k, s in enumerate(world['sched']):
            if s is not None:
                self.check(world, {'id': None, 'name': 'end', 'args': {}}, k)
        return world['bad']

    def expect(self, plan, solo):
        for ci, op, rec in solo_ok(plan, solo):
            s = plan['world']['specs'][op['args']['k']]
            contradictory = op['name'] == 'create' and expected_periods(s) is None
            if rec['status'] != 'ok' and not (op['name'] == 'create' and contradictory):
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{op["name"]} {op["args"]}: {rec["exc"]} {rec["msg"]}; schedule '
                                                                            f'{plan["world"]["specs"][op["args"]["k"]]}'[:1500]}

    def fault_result_ok(self, op, s, r):
        return False


PROP = C15
