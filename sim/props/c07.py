"""C07: nothing the caller passed in is ever altered, whatever happens to the call."""
import datetime as dt
import hashlib
import math
import random

import numpy as np

from ..base import Prop, gen_schedule, gen_faults, solo_ok, warm
from ..canon import canon, same
from .c01 import zero_curve, gen_curve
from .c06 import gen_zero_curve, RefCurve, build_curve, pillar_frame, as_form
from .c08 import gen_surface, gen_flat_curve, RefSurface, build_surface, quote_frame, forward_frame, C08


def fingerprint(x):
    """Every bit of a caller's object: values, order, names, index, types."""
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return ('frame', type(x).__name__, [repr(c) for c in x.columns], repr(x.columns.name), fingerprint(x.index),
                [fingerprint(x.iloc[:, k]) for k in range(x.shape[1])], repr(x.attrs))
    if isinstance(x, pd.Series):
        body = [fingerprint(v) for v in x] if x.dtype == object else x.to_numpy().tobytes()
        return ('series', str(x.dtype), repr(x.name), fingerprint(x.index), body)
    if isinstance(x, pd.Index):
        return (type(x).__name__, str(x.dtype), repr(x.name), repr(getattr(x, 'freq', None)), [repr(v) for v in x])
    if isinstance(x, np.ndarray):
        body = [fingerprint(v) for v in x.ravel()] if x.dtype == object else x.tobytes()
        return ('array', str(x.dtype), x.shape, x.strides, x.flags.writeable, body)
    if isinstance(x, np.busdaycalendar):
        return ('calendar', x.weekmask.tobytes(), x.holidays.tobytes())
    if isinstance(x, dict):
        return ('dict', [(repr(k), fingerprint(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [fingerprint(v) for v in x])
    return (type(x).__name__, repr(x))


def mark(x):
    return hashlib.sha256(repr(fingerprint(x)).encode()).hexdigest()


class Case:
    """One kind of call: a plain spec, the caller's objects made from it, and the call."""
    heavy = False
    solver = False
    fails = False

    def gen(self, rng):
        raise NotImplementedError

    def inputs(self, s):
        raise NotImplementedError

    def call(self, s, i):
        raise NotImplementedError


def days_of(rng, n, last):
    return [rng.randint(1, max(2, last)) for _ in range(n)]


def weekday(rng):
    d = dt.date(rng.randint(2018, 2026), rng.randint(1, 12), rng.randint(1, 24))
    return d + dt.timedelta(days=max(0, 7 - d.weekday()) if d.weekday() > 4 else 0)


class Zero(Case):
    def gen(self, rng):
        d = gen_zero_curve(rng, 4)
        last = RefCurve(d).last_day()
        n = rng.choice([1, 2, 4])
        st = [rng.randint(0, max(0, last - 100)) for _ in range(n)]
        return {'curve': d, 'form': rng.choice(['index', 'series', 'list', 'array', 'odd-series']), 'days': days_of(rng, n, last),
                'years': [rng.uniform(0.05, max(RefCurve(d).t)) for _ in range(n)], 'se': [[x, x + 91] for x in st], 'shift': rng.random() < 0.3}

    def inputs(self, s):
        d = s['curve']
        return {'pillars': pillar_frame(d), 'dates': as_form(s['form'], s['days'], d['date']), 'years': np.array(s['years']), 'days': list(s['days']),
                'start': as_form('series', [x[0] for x in s['se']], d['date']), 'end': as_form('odd-series', [x[1] for x in s['se']], d['date'])}

    def call(self, s, i):
        from frm.enums import CompoundingFreq, TermRate
        z = build_curve(s['curve'], i['pillars'])
        if s['shift']:
            z = z.flat_shift(basis_points=10)
        return [z.get_discount_factors(dates=i['dates']), z.get_zero_rates(years=i['years'], compounding_freq=CompoundingFreq.ANNUAL),
                z.get_discount_factors(days=i['days']), z.get_forward_rates(i['start'], i['end'], TermRate.SIMPLE)]


class ZeroBad(Case):
    fails = True

    def gen(self, rng):
        d = gen_zero_curve(rng, 4)
        d['x'], d['pillars'] = 'tenor', ['1m', '3m', '1y', '2y'][:max(2, min(4, len(d['pillars'])))]
        d['rates'] = d['rates'][:len(d['pillars'])]
        d['shuffle'] = rng.randrange(1000)
        return {'curve': d, 'how': rng.choice(['no-x', 'no-y', 'text', 'tenor', 'nan-date'])}

    def inputs(self, s):
        import pandas as pd
        f = pillar_frame(s['curve'])
        if s['how'] == 'no-x':
            f = f.drop(columns='tenor')
        elif s['how'] == 'no-y':
            f = f.drop(columns=s['curve']['y'])
        elif s['how'] == 'text':
            f[s['curve']['y']] = f[s['curve']['y']].astype(object)
            f.loc[1, s['curve']['y']] = 'n/a'
        elif s['how'] == 'tenor':
            f.loc[1, 'tenor'] = '3 fortnights'
        else:
            f['date'] = [pd.NaT] * len(f)
            f.loc[0, 'tenor'] = None
        return {'pillars': f}

    def call(self, s, i):
        return build_curve(s['curve'], i['pillars']).get_discount_factors(years=0.5)


def sane_surface(rng):
    while True:
        s = gen_surface(rng)
        ref = RefSurface(s)
        if len(set(ref.exp)) == len(ref.exp) and ref.monotone_variance() and C08.sane(ref):
            return s, ref


class Surface(Case):
    solver = True

    def gen(self, rng):
        s, ref = sane_surface(rng)
        items = []
        for _ in range(rng.choice([1, 2, 4])):
            day = rng.randint(ref.days()[0], ref.days()[-1])
            Ks = ref.strikes(day)
            items.append([day, float(rng.uniform(Ks[0], Ks[-1])), rng.choice([1, -1])])
        return {'s': s, 'items': items, 'price': rng.random() < 0.5}

    def inputs(self, spec):
        import pandas as pd
        s = spec['s']
        t = pd.Timestamp(s['date'])
        return {'quotes': quote_frame(s), 'forwards': forward_frame(s), 'domestic': pillar_frame(s['dcurve']), 'foreign': pillar_frame(s['fcurve']),
                'expiry': pd.DatetimeIndex([t + pd.Timedelta(days=x[0]) for x in spec['items']]), 'K': np.array([x[1] for x in spec['items']]),
                'cp': np.array([x[2] for x in spec['items']])}

    def call(self, spec, i):
        s = spec['s']
        f = build_surface(s, (i['quotes'], i['forwards']), (build_curve(s['dcurve'], i['domestic']), build_curve(s['fcurve'], i['foreign'])))
        v = f.interp_vol_surface(i['expiry'], i['K'], i['cp'])['vol'].values
        if spec['price']:
            p = f.price_vanilla_european(i['expiry'], i['K'], i['cp'], analytical_greeks_flag=True, intrinsic_time_split_flag=True)
            return [v, np.asarray(p['price'])]
        return [v]


class SurfaceBad(Surface):
    fails = True

    def gen(self, rng):
        return dict(super().gen(rng), how=rng.choice(['no-atm', 'half-strategy', 'no-forward', 'tenor', 'convention', 'expiry']))

    def inputs(self, spec):
        import pandas as pd
        i = super().inputs(spec)
        if spec['how'] == 'no-atm':
            i['quotes'] = i['quotes'][[c for c in i['quotes'].columns if 't' != c[1:2] or 'delta_conv' in c or c == 'tenor']]
        elif spec['how'] == 'half-strategy':
            i['quotes'] = i['quotes'].assign(**{'40_delta_rr': 0.001})
        elif spec['how'] == 'no-forward':
            i['forwards'] = i['forwards'].rename(columns={'fx_forward_rate': 'rate'})
        elif spec['how'] == 'tenor':
            i['quotes'].loc[0, 'tenor'] = 'soon'
        elif spec['how'] == 'convention':
            i['quotes'].loc[0, 'delta_convention'] = 'sticky'
        else:
            i['expiry'] = pd.DatetimeIndex([pd.Timestamp(spec['s']['date']) - pd.Timedelta(days=9)] * len(spec['items']))
        return i


def fixing_frame(s):
    import pandas as pd
    t = pd.Timestamp(s['date'])
    days = [t - pd.Timedelta(days=k) for k in range(s['span'], -1, -1)]
    days = [x for x in days if x.weekday() < 5]
    rng = random.Random(s['seed'])
    f = pd.DataFrame({'date': days, 'fixing': [0.03 + 0.002 * rng.uniform(-1, 1) for _ in days]})
    if s['dup']:
        f = pd.concat([f, f.iloc[[3, 9]].assign(fixing=0.05)], ignore_index=True)
    if s['mix']:
        f = f.sample(frac=1, random_state=s['seed'] % 1000)
    return f


class Rfr(Case):
    def gen(self, rng):
        date = weekday(rng).isoformat()
        d = gen_flat_curve(rng, date)
        d['basis'] = rng.choice(['ACT_365', 'ACT_360'])
        d['extrap'] = 'FLAT'
        return {'date': date, 'span': 200, 'seed': rng.randrange(1 << 20), 'dup': rng.random() < 0.5, 'mix': rng.random() < 0.5, 'curve': d,
                'se': [[a, a + rng.randint(30, 120)] for a in [rng.randint(-150, 60) for _ in range(rng.choice([1, 2, 4]))]],
                'method': rng.choice(['DAILY_COMPOUNDED', 'WEIGHTED_AVERAGE', 'SIMPLE_AVERAGE'])}

    def inputs(self, s):
        return {'fixings': fixing_frame(s), 'pillars': pillar_frame(s['curve']), 'start': as_form('index', [x[0] for x in s['se']], s['date']),
                'end': as_form('index', [x[1] for x in s['se']], s['date'])}

    def call(self, s, i):
        from frm.enums import DayCountBasis, RFRFixingCalcMethod
        from frm.term_structures.historical_swap_index_fixings import RFRFixings
        from frm.term_structures.swap_curve import RFRSwapCurve
        b = DayCountBasis[s['curve']['basis']]
        w = RFRSwapCurve(zero_curve=build_curve(s['curve'], i['pillars']), historical_fixings=RFRFixings(fixings=i['fixings'], day_count_basis=b))
        return [w.get_fixings(i['start'], i['end'], RFRFixingCalcMethod[s['method']]), w.get_discount_factors(i['end'])]


class Term(Rfr):
    def gen(self, rng):
        return dict(super().gen(rng), mix=False, dup=False)

    def call(self, s, i):
        from frm.enums import DayCountBasis, PeriodFreq, TermRate
        from frm.term_structures.historical_swap_index_fixings import TermFixings
        from frm.term_structures.swap_curve import TermSwapCurve
        b = DayCountBasis[s['curve']['basis']]
        w = TermSwapCurve(zero_curve=build_curve(s['curve'], i['pillars']), historical_fixings=TermFixings(fixings=i['fixings'], day_count_basis=b))
        return [w.get_fixings(i['start'], i['end'], PeriodFreq.QUARTERLY, TermRate.SIMPLE)]


class Cash(Case):
    def gen(self, rng):
        t = ['on'] + sorted(rng.sample(['1w', '2w', '1m', '2m', '3m', '6m'], rng.randint(2, 5)), key=lambda x: {'w': 1, 'm': 30}[x[-1]] * int(x[:-1]))
        return {'date': weekday(rng).isoformat(), 'tenors': t,
                'rates': [round(rng.uniform(0.02, 0.05), 5) for _ in t], 'mix': rng.randrange(1 << 16), 'delay': 1}

    def inputs(self, s):
        import pandas as pd
        k = list(range(len(s['tenors'])))
        random.Random(s['mix']).shuffle(k)
        return {'quotes': pd.DataFrame({'tenor': [s['tenors'][x].upper() for x in k], 'rate': [s['rates'][x] for x in k]})}

    def call(self, s, i):
        import pandas as pd
        from frm.enums import DayCountBasis
        from frm.term_structures.bootstrap_helpers import bootstrap_cash_rates, cash_rates_quote_helper
        t = pd.Timestamp(s['date'])
        a = cash_rates_quote_helper(i['quotes'], t, DayCountBasis.ACT_365, settlement_delay=s['delay'], cal=np.busdaycalendar())
        keep = mark(a)
        b = bootstrap_cash_rates(a, t)
        if mark(a) != keep:
            raise InputAltered('the quotes given to bootstrap_cash_rates')
        return [b['maturity_date_discount_factor'].values.astype(float), [str(x)[:10] for x in b['maturity_date']]]


class InputAltered(Exception):
    pass


class Futures(Case):
    def gen(self, rng):
        y = rng.randint(2020, 2028)
        c = [(y + k // 4, 3 * (k % 4 + 1)) for k in range(8)]
        a = rng.randint(0, 3)
        c = c[a:a + rng.randint(1, 4)]
        return {'date': f'{y}-01-{rng.randint(3, 28):02d}', 'contracts': c, 'price': [round(rng.uniform(94.5, 98), 3) for _ in c],
                'ticker': rng.random() < 0.5, 'convexity': rng.random() < 0.3}

    def inputs(self, s):
        import pandas as pd
        if s['ticker']:
            f = pd.DataFrame({'ticker': [f' ir{ {3: "h", 6: "m", 9: "u", 12: "z"}[m]}{y % 10}' for y, m in s['contracts']], 'price': s['price']})
        else:
            f = pd.DataFrame({'months': [m for y, m in s['contracts']], 'years': [y for y, m in s['contracts']], 'price': s['price']})
        if s['convexity']:
            f['convexity_bps'] = [0.5 * k for k in range(len(f))]
        cash = pd.DataFrame({'maturity_date_years': [0.0833, 0.25, 0.5], 'maturity_date_discount_factor': [0.997, 0.99, 0.98]})
        return {'contracts': f, 'cash': cash}

    def call(self, s, i):
        import pandas as pd
        from frm.enums import DayCountBasis
        from frm.term_structures.bootstrap_helpers import bootstrap_futures, futures_helper_asx_90day
        f = futures_helper_asx_90day(i['contracts'])
        keep = mark(f)
        b = bootstrap_futures(f, pd.Timestamp(s['date']), i['cash'], DayCountBasis.ACT_365)
        if mark(f) != keep:
            raise InputAltered('the contracts given to bootstrap_futures')
        return [b['maturity_date_discount_factor'].values.astype(float), [str(x)[:10] for x in b['maturity_date']]]


class FxForward(Case):
    def gen(self, rng):
        s, ref = sane_surface(rng)
        return {'s': s, 'days': days_of(rng, 3, ref.fx_dates[-1] - ref.start.toordinal())}

    def inputs(self, spec):
        return {'forwards': forward_frame(spec['s']), 'dates': as_form('index', spec['days'], spec['s']['date']),
                'cal': np.busdaycalendar(holidays=np.array(spec['s']['holidays'], dtype='datetime64[D]'))}

    def call(self, spec, i):
        import pandas as pd
        from frm.term_structures.fx_helpers import fx_forward_curve_helper, interp_fx_forward_curve_df
        f = fx_forward_curve_helper(fx_forward_curve_df=i['forwards'], curve_date=pd.Timestamp(spec['s']['date']), spot_offset=2, cal=i['cal'])
        keep = mark(f)
        out = interp_fx_forward_curve_df(f, dates=i['dates'], date_type='fixing_date')
        if mark(f) != keep:
            raise InputAltered('the forward curve given to interp_fx_forward_curve_df')
        return [out, f['fx_forward_rate'].values]


class Vanilla(Case):
    solver = True

    def gen(self, rng):
        n = rng.choice([1, 3, 5])
        return {'n': n, 'seed': rng.randrange(1 << 20), 'conv': rng.choice(['regular_spot', 'premium_adjusted_spot', 'premium_adjusted_forward']),
                'what': rng.choice(['gk', 'gk', 'strike', 'black', 'bach']), 'edge': rng.choice([None, None, 'expired', 'flat', 'far'])}

    def inputs(self, s):
        g = np.random.RandomState(s['seed'])
        n = s['n']
        i = {'S0': g.uniform(0.9, 1.2, n), 'tau': g.uniform(0.1, 2, n), 'r_d': g.uniform(0, 0.05, n), 'r_f': g.uniform(0, 0.05, n),
             'cp': np.where(g.uniform(size=n) < 0.5, 1, -1), 'K': g.uniform(0.9, 1.2, n), 'vol': g.uniform(0.05, 0.2, n),
             'delta': np.where(g.uniform(size=n) < 0.5, 1, -1) * g.uniform(0.08, 0.4, n)}
        e = s.get('edge')   # options at expiry, without volatility, far from the money: the arithmetic meets 0/0, 1/0 and underflow
        if e == 'expired':
            i['tau'][0] = 0.0
        elif e == 'flat':
            i['vol'][-1] = 0.0
        elif e == 'far':
            i['K'][0], i['vol'][0] = 40.0, 1e-4
        return i

    def call(self, s, i):
        from frm.pricing_engine import black76_bachelier as b, garman_kohlhagen as g
        if s['what'] == 'strike':
            return [g.garman_kohlhagen_solve_strike_from_delta(S0=1.1, tau=0.5, r_d=0.02, r_f=0.01, vol=i['vol'], signed_delta=i['delta'], delta_convention=s['conv'])]
        if s['what'] == 'black':
            px = b.black76_price(F=i['S0'], tau=i['tau'], cp=i['cp'], K=i['K'], vol_sln=i['vol'], ln_shift=0.02, annuity_factor=i['r_d'])['price']
            return [px, b.black76_solve_implied_vol(F=i['S0'], tau=i['tau'], cp=i['cp'], K=i['K'], ln_shift=0.02, X=float(np.sum(px)), annuity_factor=i['r_d'])]
        if s['what'] == 'bach':
            px = b.bachelier_price(F=i['S0'], tau=i['tau'], cp=i['cp'], K=i['K'], vol_n=i['vol'], annuity_factor=i['r_d'])['price']
            return [px, b.bachelier_solve_implied_vol(F=i['S0'], tau=i['tau'], cp=i['cp'], K=i['K'], X=float(np.sum(px)), annuity_factor=i['r_d'])]
        r = g.garman_kohlhagen_price(S0=i['S0'], tau=i['tau'], r_d=i['r_d'], r_f=i['r_f'], cp=i['cp'], K=i['K'], vol=i['vol'],
                                     analytical_greeks=True, intrinsic_time_split=True)
        return [r['price'], r['intrinsic']]


class Fit(Case):
    solver = True

    def gen(self, rng):
        from .c09 import C09
        while True:
            a = C09().gen_sabr(rng)
            if a['beta'] is not None and a['beta'] < 1:
                return a

    def inputs(self, a):
        return {'K': np.array(a['K']), 'vols': np.array(a['vols']), 'par': {k: np.array([a['truth'][j]] * len(a['K'])) for j, k in
                                                                            enumerate(('alpha', 'beta', 'rho', 'volvol'))}}

    def call(self, a, i):
        from frm.pricing_engine.sabr import calc_sln_vol_for_strike_from_sabr_params, fit_sabr_params_to_sln_smile
        n = len(a['K'])
        v = calc_sln_vol_for_strike_from_sabr_params(tau=np.full(n, a['tau']), F=np.full(n, a['F']), K=i['K'], ln_shift=a['shift'], **i['par'])
        try:
            p = fit_sabr_params_to_sln_smile(tau=a['tau'], F=a['F'], K=i['K'], vols_sln=i['vols'], ln_shift=a['shift'], beta_overide=a['beta'])[0]
        except ValueError:
            return [v]
        return [v, np.array([float(x) for x in p])]


class HestonFit(Case):
    heavy = solver = True

    def gen(self, rng):
        from .c09 import C09
        return dict(C09().gen_heston(rng), method='heston_cosine')

    def inputs(self, a):
        return {'quotes': np.array(a['vols']), 'deltas': np.array(a['delta']), 'cp': np.where(np.array(a['delta']) < 0, -1, 1)}

    def call(self, a, i):
        from frm.pricing_engine.heston import heston_calibrate_vanilla_smile
        out = heston_calibrate_vanilla_smile(volatility_quotes=i['quotes'], delta_of_quotes=i['deltas'], S0=a['S0'], r=a['r'], q=a['q'], tau=a['tau'],
                                             cp=i['cp'], delta_convention=a['conv'], pricing_method='heston_cosine')
        return [] if out is None else [np.asarray(out[6], float)]


class Paths(Case):
    def gen(self, rng):
        return {'what': rng.choice(['gbm', 'gbm', 'heston', 'corr', 'cs', 'variance']), 'seed': rng.randrange(1 << 20), 'n': rng.choice([2, 4]),
                'm': rng.choice([1, 2, 3]), 'sims': rng.choice([2, 6]), 'method': rng.choice(['quadratic_exponential', 'euler_with_absorption_of_volatility_process',
                                                                                             'euler_with_reflection_of_volatility_process'])}

    def inputs(self, s):
        g = np.random.RandomState(s['seed'])
        n, m, k = s['n'], s['m'], s['sims']
        A = g.normal(size=(m, m))
        return {'s0': g.uniform(1, 2, m), 'drift': g.uniform(0, 0.05, (n, m)), 'vol': g.uniform(0.05, 0.2, (n, m)), 'dt': g.uniform(0.1, 0.5, n),
                'z': g.normal(size=(n, m, k)), 'z2': g.normal(size=(n, 2, k)), 'cov': A @ A.T + np.eye(m), 'obs': g.normal(size=(k, m)),
                'curve': np.column_stack([np.arange(4.0), g.uniform(20, 60, 4)])}

    def call(self, s, i):
        if s['what'] == 'gbm':
            from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
            return [simulate_gbm_path(initial_px=i['s0'], drift=i['drift'], forward_volatility=i['vol'], timestep_length=i['dt'], rand_nbs=i['z'])]
        if s['what'] == 'heston':
            from frm.pricing_engine.heston import heston_simulate
            with np.errstate(all='ignore'):
                return [heston_simulate(1.2, 0.01, 0.04, 0.3, 1.5, 0.04, -0.3, 1.0, i['z2'], method=s['method'])]
        if s['what'] == 'corr':
            from frm.pricing_engine.monte_carlo_generic import normal_corr
            return [normal_corr(i['cov'], i['obs'])]
        if s['what'] == 'variance':
            from frm.pricing_engine.volatility_generic import flat_forward_interp, forward_volatility
            n = s['n']
            t1, t2 = np.cumsum(i['dt']), np.cumsum(i['dt']) + 0.5
            v = i['vol'][:, 0]
            keep = mark([t1, t2, v])
            out = [forward_volatility(t1, v, t2, v * 1.02), flat_forward_interp(t1, v, t2, v * 1.02, (t1 + t2) / 2)]
            if mark([t1, t2, v]) != keep:
                raise InputAltered('the volatilities given to the interpolation')
            return out
        from frm.pricing_engine.clewlow_strickland_1_factor import clewlow_strickland_1_factor_simulate
        return [clewlow_strickland_1_factor_simulate(i['curve'], s['sims'], 2, 3, 0.2, 0.05).shape]


class Model(Case):
    heavy = solver = True

    def gen(self, rng):
        return {'curve': gen_curve(rng), 'hw': [rng.uniform(0.03, 0.2), rng.uniform(0.004, 0.012)], 'fit': rng.random() < 0.4, 'tau': rng.uniform(0.5, 2)}

    def inputs(self, s):
        import pandas as pd
        c = s['curve']
        return {'pillars': pd.DataFrame({'years': c['years'], 'discount_factor': np.exp(-np.array(c['rates']) * np.array(c['years']))}),
                'dts': [0.25, 0.1], 'nums': [20, 35], 'times': s['tau'] + 0.5 * np.arange(1, 4), 'yf': np.full(3, 0.5)}

    def call(self, s, i):
        import contextlib
        import io
        import pandas as pd
        from frm.enums import DayCountBasis, ZeroCurveInterpMethod
        from frm.pricing_engine.hw1f import HullWhite1Factor
        from frm.term_structures.zero_curve import ZeroCurve
        z = ZeroCurve(curve_date=pd.Timestamp(s['curve']['date']), pillar_df=i['pillars'], day_count_basis=DayCountBasis.ACT_365,
                      interp_method=ZeroCurveInterpMethod[s['curve']['interp']])
        hw = HullWhite1Factor(zero_curve=z, mean_rev_lvl=s['hw'][0], vol=s['hw'][1])
        if s['fit']:
            hw.fit_theta(dts=i['dts'], nums=i['nums'])
        else:
            hw.setup_theta(num=30)
        return [hw.price_swaption(swaption_expiry=s['tau'], coupon_payment_times=i['times'], coupon_year_fractions=i['yf'],
                                  notional_payment_time=float(i['times'][-1]), fixed_rate=0.03, is_payer=True)]


class Dates(Case):
    def gen(self, rng):
        return {'date': dt.date(rng.randint(2018, 2026), rng.randint(1, 12), rng.randint(1, 28)).isoformat(), 'keys': rng.sample(['USD', 'eur', 'GBP', 'Aud', 'JPY'], rng.randint(1, 3)),
                'days': sorted(days_of(rng, 4, 900)), 'basis': rng.choice(['ACT_365', '_30_360', 'ACT_ACT', '_30E_360']), 'form': rng.choice(['index', 'series', 'list', 'odd-series'])}

    def inputs(self, s):
        return {'keys': list(s['keys']), 'end': as_form(s['form'], s['days'], s['date']), 'index': as_form('index', s['days'], s['date']),
                'cal': np.busdaycalendar(holidays=np.array([s['date']], dtype='datetime64[D]'))}

    def call(self, s, i):
        import pandas as pd
        from frm.enums import DayCountBasis, PeriodFreq
        from frm.utils import get_busdaycal, workday, year_frac
        from frm.utils.schedule import CouponSchedule
        t = pd.Timestamp(s['date'])
        cal = get_busdaycal(i['keys'])
        y = year_frac(t, i['end'], DayCountBasis[s['basis']])
        w = workday(i['index'], 1, i['cal'])
        c = CouponSchedule(start_date=t, end_date=t + pd.DateOffset(years=2), freq=PeriodFreq.QUARTERLY, cal=i['cal'])
        c.add_period_daycount(DayCountBasis[s['basis']])
        c.add_period_yearfrac(DayCountBasis[s['basis']])
        return [cal.holidays.astype(str).tolist()[:5], np.asarray(y), w.astype(str).tolist(), c.df['period_yearfrac'].values]


CASES = {'zero': Zero(), 'zero-bad': ZeroBad(), 'surface': Surface(), 'surface-bad': SurfaceBad(), 'rfr': Rfr(), 'term': Term(), 'cash': Cash(),
         'futures': Futures(), 'fx': FxForward(), 'vanilla': Vanilla(), 'fit': Fit(), 'heston': HestonFit(), 'paths': Paths(), 'model': Model(),
         'dates': Dates()}


class C07(Prop):
    id = 'C07'
    title = "The caller's market data is never altered"
    quick, thorough = 260, 12000
    rtol, atol = 0.0, 0.0
    fault_kinds = ('cancel', 'memory', 'deadline', 'solver')
    assumptions = ()

    def setup(self):
        from .. import seams
        seams.install()
        rng = random.Random(2)
        for name in ('heston', 'surface', 'paths', 'model'):
            for _ in range(8 if name == 'paths' else 1):
                c = CASES[name]
                s = c.gen(rng)
                warm(lambda: c.call(s, c.inputs(s)))

    def gen(self, rng, index):
        names = [n for n in CASES if n != 'heston'] * 3 + ['heston']
        pool = rng.sample(names, rng.choice([1, 1, 2, 3]))
        cases = [{'kind': n, 'spec': CASES[n].gen(rng)} for n in pool]
        clients, k = [], 0
        for c in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 3)):
                k += 1
                ci = rng.randrange(len(cases))
                ops.append({'id': f'o{k}', 'name': 'call', 'args': {'k': ci, 'twice': rng.random() < 0.3 and not CASES[cases[ci]['kind']].heavy},
                            'loose': cases[ci]['kind'] in ('heston',)})
            clients.append(ops)
        kinds = [x for x in ('cancel', 'memory', 'deadline', 'solver') if rng.random() < 0.6]
        return {'world': {'cases': cases}, 'clients': clients, 'sched': gen_schedule(rng),
                'faults': gen_faults(rng, clients, kinds, rng.choice([0.2, 0.5, 0.8]), ('raise', 'value', 'limit'))}

    def op_tol(self, op):
        return (1e-5, 1e-7) if op.get('loose') else (0.0, 0.0)

    def fault_result_ok(self, op, s, r):
        return True  # what a failing solver may answer is C09; here the inputs are judged

    def build(self, plan):
        world = []
        for c in plan['world']['cases']:
            case = CASES[c['kind']]
            world.append((case, c['kind'], c['spec'], case.inputs(c['spec'])))
        return {'cases': world, 'altered': []}

    def before(self, world, plan):
        world['marks'] = {(k, n): mark(v) for k, (_, _, _, inputs) in enumerate(world['cases']) for n, v in inputs.items()}

    def check(self, world, op):
        for (k, n), m in list(world['marks'].items()):
            now = mark(world['cases'][k][3][n])
            if now != m:
                world['marks'][(k, n)] = now
                world['altered'].append({'cls': 'input-altered', 'op': op, 'detail': f'"{n}" passed to {world["cases"][k][1]} was altered: '
                                                                                    f'now {str(world["cases"][k][3][n])[:300]!r}, made from {world["cases"][k][2]}'[:1500]})

    def run_op(self, world, plan, client, op):
        case, kind, spec, inputs = world['cases'][op['args']['k']]
        try:
            out = case.call(spec, inputs)
            if op['args']['twice'] and not any(f['kind'] == 'solver' and f['op'] == op['id'] for f in plan['faults']):
                again = case.call(spec, inputs)
                d = same(canon(out), canon(again), *self.op_tol(op))
                if d:
                    world['altered'].append({'cls': 'rebuild-differs', 'op': op['id'], 'detail': f'{kind}: the same inputs gave another answer the second time: {d}; {spec}'[:1200]})
            return out
        except InputAltered as e:
            world['altered'].append({'cls': 'input-altered', 'op': op['id'], 'detail': f'{e} were altered: {kind} {spec}'[:1200]})
        finally:
            self.check(world, op['id'])

    def after(self, world, plan, token):
        self.check(world, None)
        return world['altered']

    def expect(self, plan, solo):
        for ci, op, rec in solo_ok(plan, solo):
            c = plan['world']['cases'][op['args']['k']]
            if rec['status'] != 'ok' and not CASES[c['kind']].fails and not (c['kind'] == 'vanilla' and (c['spec']['what'] == 'strike' or c['spec'].get('edge'))):
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{rec["exc"]} {rec["msg"]}: {c}'[:1500]}


PROP = C07
