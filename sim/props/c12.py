"""C12: holiday calendars are complete or the load fails, and combine by their parts alone."""
import builtins
import contextlib
import datetime as dt
import importlib
import io
import os
import sys

import numpy as np

from .. import core
from ..base import Prop, gen_schedule, gen_faults, solo_ok
from ..canon import plain

DAYS = np.arange('1990-01-01', '2100-01-01', dtype='datetime64[D]')
STORE = {}  # name -> (weekend days, holidays), as the installed files have them
FILES = []  # (path, size)


class FaultyFile(io.RawIOBase):
    """A file whose storage misbehaves."""

    def __init__(self, data, fault):
        self.data, self.fault, self.pos = data, fault, 0
        self.at = int(fault['frac'] * len(data))
        if fault['kind'] == 'truncated':
            self.data = data[:self.at]
        elif fault['kind'] == 'empty':
            self.data = b''
        elif fault['kind'] == 'zero-tail':  # the size was written, the last blocks were not
            self.data = data[:self.at] + bytes(len(data) - self.at)
        elif fault['kind'] == 'lost-page':
            a = self.at // 4096 * 4096
            self.data = data[:a] + bytes(min(4096, len(data) - a)) + data[a + 4096:]

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        self.pos = {0: 0, 1: self.pos, 2: len(self.data)}[whence] + offset
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        f = self.fault
        if f['kind'] == 'eio' and self.pos + len(b) > self.at:
            raise OSError(5, 'Input/output error (injected)')
        n = min(len(b), len(self.data) - self.pos)
        if f['kind'] == 'short':
            n = min(n, 1 + self.pos % 1700)
        if n <= 0:
            return 0
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


@contextlib.contextmanager
def storage(fault, opened):
    """The holiday files as this fault leaves them, however they are opened."""
    real_open, real_io = builtins.open, io.open

    def opener(file, mode='r', *args, **kwargs):
        name = os.path.basename(os.fspath(file)) if isinstance(file, (str, bytes, os.PathLike)) else ''
        name = os.fsdecode(name)
        if fault is None or not name.endswith('.pkl') or 'w' in mode or 'a' in mode:
            return real_open(file, mode, *args, **kwargs)
        opened.append(name)
        if fault['file'] not in ('both', name):
            return real_open(file, mode, *args, **kwargs)
        if fault['kind'] == 'missing':
            raise FileNotFoundError(2, 'No such file or directory (injected)', str(file))
        if fault['kind'] == 'denied':
            raise PermissionError(13, 'Permission denied (injected)', str(file))
        if fault['kind'] == 'too-many':
            raise OSError(24, 'Too many open files (injected)', str(file))
        with real_open(file, 'rb') as f:
            return io.BufferedReader(FaultyFile(f.read(), fault), 8192)
    builtins.open = io.open = opener
    try:
        yield
    finally:
        builtins.open, io.open = real_open, real_io


KINDS = ['missing', 'denied', 'too-many', 'truncated', 'truncated', 'truncated', 'empty', 'zero-tail', 'eio', 'eio', 'short']


def want_mask(names):
    """Which days are business days when every one of the parts has to be open."""
    week = set()
    ok = np.ones(len(DAYS), bool)
    wd = (DAYS.astype(int) + 3) % 7
    for n in names:
        weekend, hol = STORE[n]
        ok &= ~np.isin(wd, list(weekend)) & ~np.isin(DAYS, hol)
    return ok


def purge():
    for m in [m for m in sys.modules if m == 'frm' or m.startswith('frm.')]:
        del sys.modules[m]


class C12(Prop):
    id = 'C12'
    title = 'Holiday calendars are complete or the load fails'
    quick, thorough = 260, 9000
    rtol = atol = 0.0
    fault_kinds = ('cancel', 'memory', 'deadline', 'missing', 'denied', 'too-many', 'truncated', 'empty', 'zero-tail', 'eio', 'short')
    stub_components = 'thread scheduling (cooperative, seeded), the file layer under the holiday files (faults), fault injection'
    assumptions = ('bytes that are delivered are the bytes that were written: flipped bits inside a complete file are not simulated',)

    def setup(self):
        import dill
        import frm.utils.business_day_calendar as m
        folder = os.path.dirname(os.path.realpath(m.__file__))
        for name in ('LOCALE_HOLIDAY.pkl', 'CCY_HOLIDAY.pkl'):
            with open(os.path.join(folder, name), 'rb') as f:
                data = f.read()
            FILES.append((name, len(data)))
            for k, v in dill.loads(data).items():
                STORE[k] = (sorted(v.weekend), np.array(sorted(v.keys()), dtype='datetime64[D]'))

    def gen(self, rng, index):
        names = sorted(STORE)
        odd = [n for n in names if list(STORE[n][0]) != [5, 6]] + ['European_Central_Bank', 'ICE_Futures_Europe']
        k = 0

        def spell(n):
            return rng.choice([n, n, n.upper(), n.lower(), n.title(), ''.join(c.upper() if rng.random() < 0.5 else c.lower() for c in n)])

        def keys():
            if rng.random() < 0.05:
                return {'keys': None, 'parts': []}
            if rng.random() < 0.25:
                n = rng.choice(names + odd)
                return {'keys': spell(n), 'parts': [n]}
            parts = [rng.choice(names + odd * 2) for _ in range(rng.choice([1, 2, 2, 3, 5]))]
            if rng.random() < 0.35:   # relatives: cities of one country, a currency and its cities
                family = [n for n in names if n[:2].upper() == parts[0][:2].upper()]
                parts = rng.sample(family, min(len(family), rng.choice([2, 2, 3])))
            ks = [spell(n) for n in parts]
            if rng.random() < 0.4:
                for n in rng.sample(parts, rng.randint(1, len(parts))):
                    ks.append(spell(n))
            rng.shuffle(ks)
            return {'keys': ks, 'parts': sorted(set(parts))}

        pool = [keys() for _ in range(3)]
        clients = []
        for c in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 5)):
                k += 1
                kind = rng.choice(['cal', 'cal', 'cal', 'workday', 'unknown'])
                if kind == 'cal':
                    a = dict(rng.choice(pool)) if rng.random() < 0.3 else keys()
                elif kind == 'workday':
                    a = keys()
                    a.update(days=[rng.randint(400, 39000) for _ in range(rng.choice([1, 3, 6]))], offset=rng.randint(-5, 5))
                else:
                    bad = rng.choice(['XXX', 'US', '', 'USD ', 'EUR/USD', 'AU-SYDNEYX', 'usdeur', 'BITCOIN', 'AE'])
                    ks = [bad] + [spell(rng.choice(names)) for _ in range(rng.choice([0, 1, 2]))]
                    rng.shuffle(ks)
                    a = {'keys': bad if rng.random() < 0.3 else ks}
                ops.append({'id': f'o{k}', 'name': kind, 'args': a})
            clients.append(ops)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            k += 1
            f = {'kind': rng.choice(KINDS), 'file': rng.choice([FILES[0][0], FILES[1][0], FILES[1][0], 'both']),
                 'frac': rng.choice([rng.random(), rng.random(), 0.999, 0.9999, 1 - 1e-6, 1e-5])}
            op = {'id': f'o{k}', 'name': 'load', 'args': {'fault': f, 'ask': sorted(set(rng.sample(names, 6) + rng.sample(odd, 2)))}}
            at = clients[0]
            at.insert(rng.randrange(len(at) + 1), op)
        kinds = [x for x in ('cancel', 'memory', 'deadline') if rng.random() < 0.5]
        return {'world': {}, 'clients': clients, 'sched': gen_schedule(rng), 'faults': gen_faults(rng, clients, kinds, rng.choice([0, 0.2, 0.5]))}

    def build(self, plan):
        import frm.utils as u
        return {'get': u.get_busdaycal, 'workday': u.workday, 'bad': [], 'storage': {}}

    def before(self, world, plan):
        world['bad'], world['storage'] = [], {}

    def after(self, world, plan, token):
        out = list(world['bad'])
        # the files themselves are only read
        return out

    @staticmethod
    def closed(cal):
        """The days that are not business days, as positions."""
        return np.flatnonzero(~np.is_busday(DAYS, busdaycal=cal)).astype(np.int64)

    def op_cal(self, world, keys, parts):
        keys = list(keys) if isinstance(keys, list) else keys
        given = list(keys) if isinstance(keys, list) else keys
        out = self.closed(world['get'](keys))
        if keys != given:
            world['bad'].append({'cls': 'input-altered', 'detail': f'the list of names {given} became {keys}'})
        return out

    def op_workday(self, world, keys, parts, days, offset):
        import pandas as pd
        d = pd.DatetimeIndex([pd.Timestamp('1990-01-01') + pd.Timedelta(days=x) for x in days])
        cal = world['get'](keys)
        one = [str(np.asarray(world['workday'](x, offset, cal)).astype('datetime64[D]')) for x in d[:1]]
        return one + [str(x) for x in np.asarray(world['workday'](d, offset, cal)).astype('datetime64[D]')]

    def op_unknown(self, world, keys):
        return self.closed(world['get'](keys))

    def op_load(self, world, fault, ask):
        opened = []
        c = core.current_client()
        purge()
        failed = None
        with storage(fault, opened):
            try:
                get = importlib.import_module('frm.utils').get_busdaycal
            except Exception as e:
                if c is not None and c.fired:
                    raise
                failed = e
            if failed is None:
                self.look(world, get, ask, c, f'loaded with {fault}', True)
        if opened and c is not None:
            world['storage'][fault['kind']] = world['storage'].get(fault['kind'], 0) + 1
        if failed is not None and fault['kind'] == 'short':
            world['bad'].append({'cls': 'load-failed', 'detail': f'a file delivered in short reads failed to load: {type(failed).__name__} {failed}'})
        get = importlib.import_module('frm.utils').get_busdaycal
        self.look(world, get, ask, c, f'reloaded from good storage after {fault}', False)
        return len(opened) > 0

    def look(self, world, get, ask, c, when, faulty):
        for n in ask:
            try:
                got = self.closed(get(n))
            except Exception as e:
                if c is not None and c.fired:
                    raise
                if not faulty:
                    world['bad'].append({'cls': 'not-recovered', 'detail': f'calendar {n} {when}: {type(e).__name__} {e}'})
                    return
                continue
            want = np.flatnonzero(~want_mask([n]))
            if not np.array_equal(got, want):
                world['bad'].append({'cls': 'incomplete-calendar', 'detail': f'calendar {n} {when}: {len(got)} closed days, the stored calendar has {len(want)}'})
                return

    def expect(self, plan, solo):
        for ci, op, rec in solo_ok(plan, solo):
            a = op['args']
            if op['name'] == 'load':
                if rec['status'] != 'ok':
                    yield {'cls': 'not-recovered', 'op': op['id'], 'detail': f'after {a["fault"]} the calendars could not be loaded again: {rec["exc"]} {rec["msg"]}'}
                continue
            if op['name'] == 'unknown':
                if rec['status'] == 'ok':
                    yield {'cls': 'unknown-accepted', 'op': op['id'], 'detail': f'calendar {a["keys"]} was accepted'}
                continue
            if rec['status'] != 'ok':
                yield {'cls': 'unexpected-error', 'op': op['id'], 'detail': f'{rec["exc"]} {rec["msg"]}: {op["name"]} {a}'}
                continue
            mask = want_mask(a['parts']) if a['parts'] else (DAYS.astype(int) + 3) % 7 < 5
            got = plain(rec['value'])
            if op['name'] == 'cal':
                want = np.flatnonzero(~mask)
                if not np.array_equal(np.asarray(got), want):
                    d = sorted(set(np.asarray(got).tolist()) ^ set(want.tolist()))
                    yield {'cls': 'wrong-calendar', 'op': op['id'], 'detail': f'calendar {a["keys"]}: {len(d)} days differ from the union of {a["parts"]}, first '
                                                                              f'{DAYS[d[0]]} is {"open" if mask[d[0]] else "closed"} in all parts together'}
            else:
                open_days = np.flatnonzero(mask)
                want = []
                for x in a['days'][:1] + a['days']:
                    i = np.searchsorted(open_days, x) + a['offset']
                    want.append(str(DAYS[open_days[i]]))
                if got != want:
                    yield {'cls': 'wrong-day', 'op': op['id'], 'detail': f'{a}: {got}, by counting {want}'}

    def compare_op(self, op, s, c):
        if op['name'] != 'load':
            yield from super().compare_op(op, s, c)
        else:
            for r in (c, c.get('retry')):
                if r is not None and r['status'] == 'exc' and r['exc'] in ('SimLivelock', 'SimDeadlock'):
                    yield {'cls': 'stuck', 'op': op['id'], 'detail': f'{op["name"]}: {r["exc"]} {r["msg"]}'}
            r = c.get('retry') if c['fired'] else c
            if r is not None and r['status'] != 'ok':
                yield {'cls': 'not-recovered', 'op': op['id'], 'detail': f'loading again failed: {r["exc"]} {r["msg"][:200]}'}

    def environment_faults(self, plan, solo, conc):
        out = {}
        for ci, c in enumerate(plan['clients']):
            for op in c:
                rec = solo.get((ci, op['id']))
                if op['name'] == 'load' and rec is not None and rec['status'] == 'ok' and plain(rec['value']):
                    k = 'storage-' + op['args']['fault']['kind']
                    out[k] = out.get(k, 0) + 1
        return out

    def probes(self, plan, solo, conc):
        out = {}
        for c in plan['clients']:
            for op in c:
                out[op['name']] = out.get(op['name'], 0) + 1
        return out


PROP = C12
