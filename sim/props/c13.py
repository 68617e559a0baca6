"""C13: clients of one process never disturb each other or process-wide settings."""
import datetime as dt
import decimal
import enum
import hashlib
import locale
import os
import random
import sys
import threading
import types
import warnings

import numpy as np

from .. import core
from ..base import Prop, gen_schedule, gen_faults, solo_ok
from . import c15
from .c07 import CASES, Case, InputAltered, fingerprint
from .c01 import gen_curve, zero_curve
from .c06 import as_form

PLAIN = (int, float, str, bool, tuple, bytes, type(None), enum.Enum, np.generic, np.ndarray, np.busdaycalendar, dt.date)


# ---------------------------------------------------------------------------------------------- process-wide state
def is_table(x):
    return isinstance(x, dict) and len(x) > 20


def digest_of(x):
    if is_table(x):  # holiday tables: too many entries to serialise after every operation
        return [(repr(k), hash(frozenset(v.items())) if isinstance(v, dict) else repr(v)) for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        x = sorted(map(repr, x))
    return hashlib.md5(repr(fingerprint(x)).encode()).hexdigest()


def watch_list():
    """Settings, tables and defaults of the library, as loaded: (label, getter)."""
    out, seen = [], set()
    for mname, mod in sorted(sys.modules.items()):
        if not (mname == 'frm' or mname.startswith('frm.')):
            continue
        for attr, val in sorted(vars(mod).items()):
            if attr.startswith('__'):
                continue
            if isinstance(val, type) and val.__module__.startswith('frm'):
                if id(val) not in seen:
                    seen.add(id(val))
                    for a, v in sorted(vars(val).items()):
                        if not a.startswith('_') and isinstance(v, PLAIN + (list, dict)):
                            out.append((f'{val.__module__}.{val.__name__}.{a}', lambda c=val, a=a: vars(c)[a]))
                        if isinstance(v, types.FunctionType) and v.__module__.startswith('frm'):
                            out += defaults(v, seen)
            elif isinstance(val, types.FunctionType) and (val.__module__ or '').startswith('frm'):
                out += defaults(val, seen)
            elif isinstance(val, PLAIN) or isinstance(val, (list, dict, set)) and val:
                if is_table(val):
                    if id(val) in seen:
                        continue
                    seen.add(id(val))
                out.append((f'{mname}.{attr}', lambda m=mod, a=attr: vars(m)[a]))
    return out


def defaults(f, seen):
    f = getattr(f, '__wrapped__', f)
    if id(f) in seen or not (f.__defaults__ or f.__kwdefaults__):
        return []
    seen.add(id(f))
    return [(f'defaults of {f.__module__}.{f.__qualname__}', lambda f=f: [f.__defaults__, f.__kwdefaults__])]


def pandas_options():
    import pandas as pd
    from pandas._config import config
    return {k: repr(config._get_option(k, silent=True)) if 'mode.chained' not in k else '' for k in sorted(config._registered_options)}


def process_state():
    return {'numpy global random stream': repr(np.random.get_state(legacy=True)[1:]) + hashlib.md5(np.random.get_state()[1].tobytes()).hexdigest(),
            'random module stream': hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
            'warning filters of all': repr(warnings.filters),
            'numpy print options': repr(np.get_printoptions()), 'pandas options': repr(pandas_options()),
            'working directory': os.getcwd(), 'environment': repr(sorted(os.environ.items())), 'locale': locale.setlocale(locale.LC_ALL),
            'import path': repr(sys.path), 'recursion limit': sys.getrecursionlimit(), 'exception hook': repr(sys.excepthook),
            'trace hook': repr((sys.gettrace(), sys.getprofile())), 'umask': umask(), 'integer digits': sys.get_int_max_str_digits()}


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def thread_state():
    return {'warning filters': repr(warnings.filters), 'warnings hook': repr(warnings.showwarning), 'floating point error handling': repr(np.geterr()), 'floating point error callback': repr(np.geterrcall()), 'decimal context': repr(decimal.getcontext()),
            'scipy error handling': repr(scipy_errors())}


def scipy_errors():
    import scipy.special
    return scipy.special.geterr()


# ---------------------------------------------------------------------------------------------- more kinds of calls
class Tape(Case):
    def gen(self, rng):
        return {'n': rng.choice([1, 3]), 'm': rng.choice([1, 2]), 'sims': rng.choice([2, 5, 8]), 'seed': rng.choice([0, 7, rng.randrange(1 << 20)]), 'anti': rng.random() < 0.5}

    def inputs(self, s):
        return {}

    def call(self, s, i):
        from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
        sims = s['sims'] + s['sims'] % 2 if s['anti'] else s['sims']
        return [generate_rand_nbs(s['n'], s['m'], sims, s['anti'], s['seed'])]


class Rates(Case):
    solver = heavy = True

    def gen(self, rng):
        return {'curve': gen_curve(rng), 'hw': [rng.uniform(0.03, 0.2), rng.uniform(0.004, 0.012)], 'seed': rng.randrange(1 << 16), 'tau': rng.uniform(0.5, 1.5),
                'cp': rng.choice([1, -1]), 'K': rng.uniform(0.9, 1.0)}

    def inputs(self, s):
        return {}

    def call(self, s, i):
        from frm.pricing_engine.hw1f import HullWhite1Factor
        hw = HullWhite1Factor(zero_curve=zero_curve(s['curve']), mean_rev_lvl=s['hw'][0], vol=s['hw'][1])
        hw.setup_theta(num=20)
        return [hw.price_zero_coupon_bond_option(s['tau'], s['tau'] + 0.5, s['K'], s['cp']), hw.simulate(tau=s['tau'], nb_steps=3, nb_simulations=4, random_seed=s['seed'])]


class Sched(Case):
    def gen(self, rng):
        while True:
            s = c15.gen_spec(rng)
            if not (s['first'] and s['last']) and c15.expected_periods(s) is not None:   # nothing that contradicts itself
                return dict(s, basis=rng.choice(c15.BASES))

    def inputs(self, s):
        return {}

    def call(self, s, i):
        from frm.enums.utils import DayCountBasis
        c = c15.create(s)
        c.add_period_yearfrac(DayCountBasis[s['basis']])
        c.add_payment_dates(2)
        return [c.df]


class Words(Case):
    def gen(self, rng):
        return {'basis': rng.choice(['ACT/360', 'act/365', ' 30/360 ', 'ActAct', 'act/999']), 'freq': rng.choice(['Q', '3m', 'semi-annual', 'fortnight']),
                'tenor': rng.choice(['ON', '1W', '3 months', '1y6m', '2yrs', '18M', 'soon']), 'date': dt.date(rng.randint(2019, 2026), rng.randint(1, 12), rng.randint(1, 28)).isoformat()}

    def inputs(self, s):
        return {'cal': np.busdaycalendar(holidays=np.array([s['date']], dtype='datetime64[D]'))}

    def call(self, s, i):
        import pandas as pd
        from frm.enums.utils import DayCountBasis, PeriodFreq
        from frm.utils.tenor import clean_tenor, tenor_to_date_offset
        out = []
        for f, a in ((DayCountBasis.from_value, s['basis']), (PeriodFreq.from_value, s['freq']), (clean_tenor, s['tenor'])):
            try:
                out.append(str(f(a)))
            except Exception as e:
                out.append(type(e).__name__)
        try:
            out.append(str(pd.Timestamp(s['date']) + tenor_to_date_offset(s['tenor'])))
        except Exception as e:
            out.append(type(e).__name__)
        return out


class Sabr(Case):
    def gen(self, rng):
        n = rng.choice([1, 3])
        return {'n': n, 'F': rng.uniform(0.01, 0.05), 'seed': rng.randrange(1 << 16), 'shift': rng.choice([0.0, 0.02])}

    def inputs(self, s):
        g = np.random.RandomState(s['seed'])
        n = s['n']
        return {'tau': g.uniform(0.5, 3, n), 'F': np.full(n, s['F']), 'K': s['F'] * g.uniform(0.7, 1.4, n)}

    def call(self, s, i):
        from frm.pricing_engine import sabr
        n = s['n']
        one = np.ones(n)
        out = [sabr.calc_sln_vol_for_strike_from_sabr_params(tau=i['tau'], F=i['F'], K=i['K'], ln_shift=s['shift'], alpha=0.03 * one, beta=0.6 * one, rho=-0.2 * one, volvol=0.4 * one)]
        p = sabr.calc_sln_vol_for_strike_from_sabr_params(tau=i['tau'][:1], F=i['F'][:1], K=i['F'][:1], ln_shift=s['shift'], alpha=0.03 * one[:1], beta=one[:1], rho=-0.2 * one[:1],
                                                        volvol=0.4 * one[:1])
        return out + [p]


MORE = {'tape': Tape(), 'rates': Rates(), 'sched': Sched(), 'words': Words(), 'sabr': Sabr()}
ALL = {**CASES, **MORE}
LOOSE = ('heston',)


class C13(Prop):
    id = 'C13'
    title = 'Clients of one process never disturb each other or process-wide settings'
    quick, thorough = 420, 20000
    rtol, atol = 0.0, 0.0
    fault_kinds = ('cancel', 'memory', 'deadline', 'solver')

    def setup(self):
        from .. import seams
        seams.install()
        self.watch = watch_list()
        self.loaded = {n: digest_of(g()) for n, g in self.watch}
        rng = random.Random(3)
        self.tables = {n for n, g in self.watch if is_table(g())}
        for name in sorted(ALL):
            for _ in range(8 if name == 'paths' else 2):
                case = ALL[name]
                s = case.gen(rng)
                try:
                    case.call(s, case.inputs(s))
                except Exception:
                    pass

    def gen(self, rng, index):
        names = sorted(n for n in ALL if n != 'heston') * 4 + ['heston']
        pool = rng.sample(names, rng.choice([2, 3, 4, 6]))
        cases = [{'kind': n, 'spec': ALL[n].gen(rng)} for n in pool]
        clients, k = [], 0
        for c in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                k += 1
                ci = rng.randrange(len(cases))
                ops.append({'id': f'o{k}', 'name': 'call', 'args': {'k': ci}, 'loose': cases[ci]['kind'] in LOOSE})
            clients.append(ops)
        kinds = [x for x in self.fault_kinds if rng.random() < 0.5]
        return {'world': {'cases': cases, 'seterr': rng.choice(['warn', 'warn', 'ignore', 'raise-nothing']), 'seed': rng.randrange(1 << 30)}, 'clients': clients,
                'sched': gen_schedule(rng), 'faults': gen_faults(rng, clients, kinds, rng.choice([0.0, 0.2, 0.5]), ('raise', 'value', 'limit'))}

    def op_tol(self, op):
        return (1e-5, 1e-7) if op.get('loose') else (0.0, 0.0)

    def fault_result_ok(self, op, s, r):
        return True  # what a failing solver may answer is C09

    def build(self, plan):
        np.random.seed(plan['world']['seed'] % (1 << 32))  # the application's own settings
        random.seed(plan['world']['seed'])
        np.set_printoptions(precision=5)
        out = []
        for c in plan['world']['cases']:
            case = ALL[c['kind']]
            out.append((case, c['kind'], c['spec'], case.inputs(c['spec'])))
        world = {'cases': out, 'bad': [], 'pid': os.getpid()}
        return world

    def before(self, world, plan):
        world['process'] = process_state()
        return 'quick' if os.getpid() != world['pid'] else 'full'  # the big tables once a run: after all clients

    def judge_state(self, world, op, was, now):
        for k in was:
            if was[k] != now[k]:
                world['bad'].append({'cls': 'process-state', 'op': op and op['id'],
                                     'detail': f'{k} changed from {str(was[k])[:200]} to {str(now[k])[:200]} by {self.what(world, op)}'[:1500]})

    def what(self, world, op):
        if op is None:
            return f'one of {[c[1] for c in world["cases"]]}'
        c = world['cases'][op['args']['k']]
        return f'{c[1]} {c[2]}'

    def run_op(self, world, plan, client, op):
        case, kind, spec, inputs = world['cases'][op['args']['k']]
        was = thread_state()
        try:
            return case.call(spec, inputs)
        finally:
            self.judge_state(world, op, was, thread_state())

    def after(self, world, plan, token):
        self.judge_state(world, None, world['process'], process_state())
        for n, g in self.watch:
            if n in self.tables and token == 'quick':
                continue
            try:
                now = digest_of(g())
            except KeyError:
                now = 'gone'
            if now != self.loaded[n]:
                world['bad'].append({'cls': 'library-state', 'op': None, 'detail': f'{n} changed, now {str(g() if now != "gone" else now)[:300]}; calls: {self.what(world, None)}'[:1500]})
        return world['bad']

    def expect(self, plan, solo):
        for ci, op, rec in solo_ok(plan, solo):
            c = plan['world']['cases'][op['args']['k']]
            if rec['status'] != 'ok' and not ALL[c['kind']].fails and not (c['kind'] == 'vanilla' and (c['spec']['what'] == 'strike' or c['spec'].get('edge'))):
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{rec["exc"]} {rec["msg"]}: {c}'[:1500]}


PROP = C13
