"""C14: the same inputs give the same answers after a restart, in any process environment."""
import json
import os
import random
import shutil
import subprocess
import sys

from .. import life
from ..base import Prop, HarnessError, Stuck
from ..canon import same, digest
from . import c13
from .c07 import Case

ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland', 'Pacific/Apia', 'XYZ+11:30', 'America/St_Johns']
DAYS = [915148799, 951782399, 1078099190, 1582934400 + 86390, 1709164800 + 86399, 1711850395, 1767225590, 2145916795, 4102444799, 86390]
MODULES = ['frm', 'frm.enums', 'frm.enums.helper', 'frm.enums.term_structures', 'frm.enums.utils', 'frm.pricing_engine', 'frm.pricing_engine.black76_bachelier',
           'frm.pricing_engine.clewlow_strickland_1_factor', 'frm.pricing_engine.cosine_method_generic', 'frm.pricing_engine.garman_kohlhagen',
           'frm.pricing_engine.geometric_brownian_motion', 'frm.pricing_engine.heston', 'frm.pricing_engine.hw1f', 'frm.pricing_engine.monte_carlo_generic',
           'frm.pricing_engine.sabr', 'frm.pricing_engine.volatility_generic', 'frm.term_structures', 'frm.term_structures.bootstrap_helpers', 'frm.term_structures.fx_helpers',
           'frm.term_structures.fx_volatility_surface', 'frm.term_structures.historical_swap_index_fixings', 'frm.term_structures.iban_ccys',
           'frm.term_structures.interest_rate_option_helpers', 'frm.term_structures.optionlet', 'frm.term_structures.swap_curve', 'frm.term_structures.swaption',
           'frm.term_structures.zero_curve', 'frm.term_structures.zero_curve_helpers', 'frm.utils', 'frm.utils.business_day_calendar', 'frm.utils.custom_errors_and_warnings',
           'frm.utils.daycount', 'frm.utils.interpolation', 'frm.utils.schedule', 'frm.utils.settings', 'frm.utils.tenor', 'frm.utils.utilities']
PLAIN_LIFE = {'hash': 0, 'zone': 'UTC', 'day': 1718000000, 'step': 1000, 'jump': 0, 'every': 0, 'cwd': 'empty', 'imports': MODULES, 'encoding': 'utf-8', 'warnings': 'ignore',
              'lc': 'C.UTF-8', 'caches': 'warm', 'kill': None, 'utf8': '1'}


class Holidays(Case):
    names = ['USD', 'EUR', 'GBP', 'JPY', 'AUD', 'NZD', 'CAD', 'CHF', 'GB-LONDON', 'US-NEW_YORK', 'AE-DUBAI', 'IL-TEL_AVIV', 'European_Central_Bank']

    def gen(self, rng):
        return {'keys': rng.sample(self.names, rng.choice([1, 2, 4])), 'from': f'{rng.randint(2019, 2029)}-0{rng.randint(1, 9)}-{rng.randint(10, 28)}'}

    def inputs(self, s):
        return {'keys': list(s['keys'])}

    def call(self, s, i):
        import numpy as np
        from frm.utils import get_busdaycal
        try:
            cal = get_busdaycal(i['keys'])
        except ValueError as e:
            return [str(e)]
        d = np.datetime64(s['from'])
        return [cal, np.busday_offset(d, [0, 5, 260], roll='forward', busdaycal=cal), int(np.busday_count(d, d + 4000, busdaycal=cal))]


ALL = {**c13.ALL, 'holidays': Holidays()}


class C14(Prop):
    id = 'C14'
    title = 'Answers do not depend on the process they are computed in'
    quick, thorough = 44, 3000
    rtol, atol = 0.0, 0.0
    real_components = 'all code under /repo/frm reached by the workload, the interpreter, numpy, pandas, scipy, numba, their start-up and their caches, each life in a process of its own'
    stub_components = 'the wall clock (preloaded clock_gettime, gettimeofday and time), standard output (in-memory, seeded encoding), process kills'
    rule = ('one evaluation is one simulated run: a plain life and two or three more lives of the same work in other environments, some of them killed and restarted; '
            'non-trivial: more than one life; distinct: hash of every answer and of the fault trace')

    def setup(self):
        scratch = os.environ.get('FRM_SIM_SCRATCH') or '/tmp/frmsim.c14'
        os.makedirs(scratch, exist_ok=True)
        self.scratch = scratch
        self.shim = os.path.join(scratch, 'clock.so')
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'clock.c')
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', self.shim, src], capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('the clock shim does not compile: ' + r.stderr[-500:])
        self.warm = os.path.join(scratch, 'warm')
        os.makedirs(self.warm + '/numba', exist_ok=True)
        # one life that leaves filled caches behind, as an installation in use has
        rng = random.Random(5)
        cases = [{'kind': n, 'spec': ALL[n].gen(rng)} for n in sorted(ALL) for _ in range(8 if n == 'paths' else 1)]
        run = os.path.join(scratch, 'warmup')
        os.makedirs(run, exist_ok=True)
        self.live(run, dict(PLAIN_LIFE, caches='fill'), cases, [{'id': f'w{k}', 'k': k} for k in range(len(cases))], 'w')
        shutil.rmtree(run)

    def gen(self, rng, index):
        names = sorted(n for n in ALL if n != 'heston') * 3 + ['heston', 'holidays', 'paths']
        cases = [{'kind': n, 'spec': ALL[n].gen(rng)} for n in rng.sample(names, 14)]
        plain = [{'id': f'o{k}', 'k': k} for k in range(len(cases))]
        lives, clients = [dict(PLAIN_LIFE)], [plain]
        for _ in range(rng.choice([2, 2, 3])):
            imports = MODULES[:]
            rng.shuffle(imports)
            order = plain[:]
            rng.shuffle(order)
            kill = None
            if rng.random() < 0.4:
                kill = {'what': 'op', 'op': rng.choice(order)['id'], 'frac': rng.random()} if rng.random() < 0.7 else {'what': 'write', 'nth': rng.randint(1, 30)}
            lives.append({'hash': rng.choice([1, 42, rng.randrange(1 << 32)]), 'zone': rng.choice(ZONES), 'day': rng.choice(DAYS) + rng.randrange(-20, 20),
                          'step': rng.choice([0, 1000, 10 ** 9, -10 ** 6]), 'every': rng.choice([0, 3, 50]), 'jump': rng.choice([86400, -86400, 3600 * 24 * 366]) * 10 ** 9,
                          'cwd': rng.choice(['empty', 'decoy', 'root']), 'imports': imports[:rng.choice([1, 5, len(imports)])], 'encoding': rng.choice(['utf-8', 'utf-8', 'latin-1', 'ascii']),
                          'warnings': rng.choice(['ignore', 'default']), 'lc': rng.choice(['C', 'C.UTF-8', 'POSIX']), 'utf8': rng.choice(['0', '1']),
                          'caches': rng.choice(['warm', 'warm', 'code-cold'] if kill is None or kill['what'] == 'op' else ['code-cold']), 'kill': kill})
            clients.append(order)
        return {'world': {'cases': cases, 'lives': lives}, 'clients': clients, 'faults': []}

    def link_caches(self, run, spec, tag):
        """Warm caches are the installation's; cold ones have no byte code and no machine code of this package."""
        warm = os.path.join(self.warm, 'pyc')
        if spec['caches'] in ('warm', 'fill'):
            return warm, os.path.join(self.warm, 'numba')
        pyc, numba = os.path.join(run, tag + '.pyc'), os.path.join(run, tag + '.numba')
        repo = os.path.realpath(os.environ['PROJECT_DIR_FRM']).strip('/')
        os.makedirs(os.path.join(pyc, repo), exist_ok=True)
        at = ''
        for part in repo.split('/'):  # everything but the package itself stays as it was
            for name in os.listdir(os.path.join(warm, at)):
                dst = os.path.join(pyc, at, name)
                if name != part and not os.path.lexists(dst):
                    os.symlink(os.path.join(warm, at, name), dst)
            at = os.path.join(at, part)
        if not os.path.isdir(numba):
            shutil.copytree(os.path.join(self.warm, 'numba'), numba)
        return pyc, numba

    def live(self, run, spec, cases, ops, tag):
        cwd = os.path.join(run, tag + '.cwd')
        os.makedirs(cwd, exist_ok=True)
        if spec['cwd'] == 'decoy':  # files with the names of the package's own, of somebody else
            for name in ('CCY_HOLIDAY.pkl', 'LOCALE_HOLIDAY.pkl', 'settings.json', 'fixings.csv'):
                with open(os.path.join(cwd, name), 'w') as f:
                    f.write('decoy')
        plan, out = os.path.join(run, tag + '.json'), os.path.join(run, tag + '.out')
        with open(plan, 'w') as f:
            json.dump({'package': os.path.realpath(os.environ['PROJECT_DIR_FRM']) + '/', 'cases': cases, 'ops': ops, 'imports': spec['imports'], 'encoding': spec['encoding'], 'warnings': spec['warnings'], 'kill': spec['kill']}, f)
        pyc, numba = self.link_caches(run, spec, tag)
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'PROJECT_DIR_FRM', 'PYTHONPATH', 'MPLBACKEND', 'MPLCONFIGDIR', 'HOME') or k.endswith('_NUM_THREADS')}
        env.update({'PYTHONHASHSEED': str(spec['hash']), 'TZ': spec['zone'], 'LC_ALL': spec['lc'], 'PYTHONPYCACHEPREFIX': pyc, 'NUMBA_CACHE_DIR': numba, 'PYTHONUTF8': spec['utf8'],
                    'LD_PRELOAD': self.shim, 'SIM_CLOCK_START': str(spec['day']), 'SIM_CLOCK_STEP_NS': str(spec['step']), 'SIM_CLOCK_JUMP_EVERY': str(spec['every']),
                    'SIM_CLOCK_JUMP_NS': str(spec['jump'])})
        if spec['caches'] == 'warm':
            env['PYTHONDONTWRITEBYTECODE'] = '1'
        try:
            r = subprocess.run([sys.executable, '-m', 'sim.life', plan, out], cwd='/' if spec['cwd'] == 'root' else cwd, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        except subprocess.TimeoutExpired:
            raise Stuck('a process came to no end within 400 s of wall time') from None
        error = None
        if os.path.exists(out + '.err'):
            with open(out + '.err') as f:
                error = f.read()
            os.unlink(out + '.err')
            if '/frm/' not in error:
                raise HarnessError(error)
        got = life.frames(out)
        done = got and got[-1][0] == ''
        if not done and r.returncode != -9 and error is None:
            raise HarnessError(f'a life ended with status {r.returncode}')
        return dict(g for g in got if g[0]), bool(done), error

    def _execute(self, plan):
        run = os.path.join(self.scratch, f'run.{os.getpid()}')
        os.makedirs(run, exist_ok=True)
        try:
            return self._run(plan, run)
        finally:
            shutil.rmtree(run)

    def _run(self, plan, run):
        cases, lives = plan['world']['cases'], plan['world']['lives']
        needed = {op['id']: op for ops in plan['clients'] for op in ops}
        base, done, error = self.live(run, dict(lives[0], kill=None), cases, [needed[k] for k in sorted(needed)], 'l0')
        violations, fired, configured, logs, trace = [], {}, {}, [], []
        if not done:
            violations.append({'cls': 'no-start', 'op': None, 'detail': f'the plain environment: {str(error)[-800:]}'})
        steps = sum(r['ticks'] for r in base.values())
        logs.append(digest(tuple((k, base[k]['status'], digest(base[k].get('value'))) for k in sorted(base))))

        def count(d, k):
            d[k] = d.get(k, 0) + 1

        for ci, ops in enumerate(plan['clients']):
            if ci == 0 or not ops or not done:
                continue
            spec = dict(lives[ci])
            kill = spec['kill']
            for k, plain in PLAIN_LIFE.items():
                if k not in ('kill', 'step', 'every', 'jump', 'encoding', 'imports', 'utf8') and spec[k] != plain:
                    count(fired, k)
                    count(configured, k)
            for k, on in (('clock-jump', spec['every']), ('clock-backwards', spec['step'] < 0), ('import-order', spec['imports'] != MODULES), ('output-encoding', spec['encoding'] != 'utf-8')):
                if on:
                    count(fired, k)
                    count(configured, k)
            if kill and kill['what'] == 'op':
                ticks = base.get(kill['op'], {}).get('ticks', 0)
                spec['kill'] = {'op': kill['op'], 'tick': 1 + min(ticks - 1, int(kill['frac'] * ticks))} if ticks and any(o['id'] == kill['op'] for o in ops) else None
            tag = f'l{ci}'
            got, done_now, error = self.live(run, spec, cases, ops, tag)
            if kill:
                count(configured, 'kill-' + kill['what'])
            if not done_now and error is None:
                count(fired, 'kill-' + kill['what'])
                trace.append([ci, kill, sorted(got)])
                rest = [o for o in ops if o['id'] not in got]
                if os.path.exists(os.path.join(run, tag + '.out')):
                    os.unlink(os.path.join(run, tag + '.out'))
                more, done_now, error = self.live(run, dict(spec, kill=None, day=spec['day'] + 86400), cases, rest, tag)
                got = {**got, **more}
            if error or not done_now:
                violations.append({'cls': 'no-start', 'op': None, 'detail': f'{self.tell(spec)}: {str(error)[-800:]}'[:1500]})
                continue
            steps += sum(r['ticks'] for r in got.values())
            logs.append(digest(tuple((k, got[k]['status'], digest(got[k].get('value'))) for k in sorted(got))))
            for op in ops:
                a, b = base[op['id']], got.get(op['id'])
                d = 'no answer' if b is None else self.differs(cases[op['k']], a, b)
                if d:
                    violations.append({'cls': 'environment', 'op': op['id'], 'detail': f'{d}: {cases[op["k"]]} in {self.tell(spec)}'[:1500]})
        t = digest((json.dumps(trace, sort_keys=True), tuple(logs)))
        return {'violations': violations, 'steps': steps, 'fired': fired, 'configured': configured, 'trace': t, 'log': t, 'switches': [],
                'switch_count': len(plan['clients']) - 1, 'ops': sum(len(c) for c in plan['clients']), 'probes': {'processes': len(plan['clients']) + len(trace)}}

    def differs(self, case, a, b):
        if a['status'] != b['status'] or a['status'] == 'exc' and a['exc'] != b['exc']:
            return f'plain: {a["exc"] or "an answer"} {str(a["msg"] or "")[:150]}, here: {b["exc"] or "an answer"} {str(b["msg"] or "")[:150]}'
        if a['status'] == 'ok':
            return same(a['value'], b['value'], *((1e-5, 1e-7) if case['kind'] in c13.LOOSE else (0.0, 0.0)))

    def tell(self, spec):
        return {k: v for k, v in spec.items() if k != 'imports' and v != PLAIN_LIFE[k]}

    def nontrivial(self, plan, outcome):
        return outcome['switch_count'] > 0

    def shrinks(self, plan):
        for ci in range(1, len(plan['world']['lives'])):
            for k, plain in PLAIN_LIFE.items():
                if plan['clients'][ci] and plan['world']['lives'][ci][k] != plain:
                    p = json.loads(json.dumps(plan))
                    p['world']['lives'][ci][k] = plain
                    yield p


PROP = C14
