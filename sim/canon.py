"""Turn results of the library into plain comparable values, and compare them."""
import hashlib
import numbers
import types
import numpy as np
import pandas as pd
from enum import Enum


def canon(x):
    """A nested structure of tuples, floats, strings and float arrays with no reference to library objects."""
    if isinstance(x, np.busdaycalendar):
        return ('cal', x.weekmask.tobytes().hex(), tuple(str(d) for d in x.holidays))
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, Enum):
        return ('enum', type(x).__name__, x.name)
    if x is pd.NaT:
        return ('NaT',)
    if isinstance(x, (pd.Timestamp,)):
        return ('ts', x.value)
    if isinstance(x, np.datetime64):
        return ('ts', pd.Timestamp(x).value)
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, numbers.Real):
        return float(x)
    if isinstance(x, complex):
        return ('c', x.real, x.imag)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fiub':
            return ('nd', x.shape, np.ascontiguousarray(x, dtype=float) if x.dtype.kind != 'b' else x.astype(float))
        if x.dtype.kind == 'c':
            return ('nd', x.shape + (2,), np.stack([x.real, x.imag], -1))
        if x.dtype.kind == 'M':
            return ('nd-ts', x.shape, tuple(str(v) for v in x.astype('datetime64[ns]').ravel()))
        return ('nd-obj', x.shape, tuple(canon(v) for v in x.ravel()))
    if isinstance(x, pd.Series):
        return ('series', str(x.name), canon(np.asarray(x.index)), canon(np.asarray(x)))
    if isinstance(x, pd.DataFrame):
        return ('df', tuple(map(str, x.columns)), canon(np.asarray(x.index)),
                tuple(canon(np.asarray(x.iloc[:, i])) for i in range(x.shape[1])))
    if isinstance(x, pd.Index):
        return ('index', canon(np.asarray(x)))
    if isinstance(x, dict):
        return ('dict', tuple((canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('seq', tuple(canon(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted((canon(v) for v in x), key=repr)))
    if hasattr(x, '__dataclass_fields__') or type(x).__module__.startswith('frm'):
        d = {k: v for k, v in vars(x).items()}
        return ('obj', type(x).__name__, tuple((k, canon(v)) for k, v in sorted(d.items())))
    if isinstance(x, (types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
        return ('fn', getattr(x, '__qualname__', '?'))
    if type(x).__module__.startswith('scipy.interpolate'):
        out = [type(x).__name__]
        for a in ('_eval_args', 'c', 'x', 't', 'k'):
            if hasattr(x, a):
                try:
                    out.append(canon(getattr(x, a)))
                except RecursionError:
                    pass
        return ('interp', tuple(out))
    if isinstance(x, pd.DateOffset):
        return ('offset', repr(x))
    return ('repr', type(x).__name__)


def same(a, b, rtol=1e-9, atol=1e-12):
    """None if equal, else a short description of the first difference."""
    return _diff(a, b, rtol, atol, '')


def _num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def _diff(a, b, rtol, atol, path):
    if _num(a) and _num(b):
        fa, fb = float(a), float(b)
        if fa == fb or (fa != fa and fb != fb):
            return None
        if abs(fa - fb) <= atol + rtol * max(abs(fa), abs(fb)):
            return None
        return f'{path or "value"}: {fa!r} != {fb!r}'
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f'{path or "array"}: shape {a.shape} != {b.shape}'
        if a.size == 0:
            return None
        eq = (a == b) | (np.isnan(a) & np.isnan(b))
        if rtol or atol:
            with np.errstate(all='ignore'):
                eq |= np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
        if eq.all():
            return None
        idx = tuple(int(i) for i in np.argwhere(~eq)[0])
        return f'{path or "array"}{list(idx)}: {a[idx]!r} != {b[idx]!r} ({int((~eq).sum())} of {a.size} differ)'
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f'{path}: length {len(a)} != {len(b)}'
        for i, (u, v) in enumerate(zip(a, b)):
            d = _diff(u, v, rtol, atol, f'{path}.{i}')
            if d:
                return d
        return None
    if type(a) is type(b) and a == b:
        return None
    return f'{path or "value"}: {str(a)[:80]} != {str(b)[:80]}'


def digest(x):
    h = hashlib.sha256()

    def feed(v):
        if isinstance(v, np.ndarray):
            h.update(b'A' + repr(v.shape).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, tuple):
            h.update(b'(')
            for u in v:
                feed(u)
            h.update(b')')
        else:
            h.update(repr(v).encode())
    feed(x)
    return h.hexdigest()[:16]


def plain(x):
    """A canonical value back as dictionaries, lists, numbers and arrays."""
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        if x[0] == 'dict' and len(x) == 2:
            return {plain(k): plain(v) for k, v in x[1]}
        if x[0] == 'seq' and len(x) == 2:
            return [plain(v) for v in x[1]]
        if x[0] == 'nd' and len(x) == 3:
            return x[2]
    return x
