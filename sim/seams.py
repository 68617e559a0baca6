"""Seams around the numerical solvers the package calls: count every call a client makes, and fail chosen ones."""
import functools
import sys

import scipy.integrate
import scipy.interpolate
import scipy.optimize

from . import core

SOLVERS = ['newton', 'root_scalar', 'brentq', 'brenth', 'ridder', 'bisect', 'toms748', 'minimize', 'minimize_scalar',
           'least_squares', 'root', 'fsolve']
OTHER = [(scipy.integrate, 'quad'), (scipy.interpolate, 'splrep'), (scipy.interpolate, 'splev')]


class InjectedNonConvergence(RuntimeError):
    pass


def _limited(name, real, args, kwargs):
    """The solver stops after two iterations: what it returns or raises is genuinely unconverged."""
    kw = dict(kwargs)
    if name == 'minimize':
        opts = dict(kw.get('options') or {})
        opts['maxiter'] = 2
        kw['options'] = opts
    elif name in ('least_squares',):
        kw['max_nfev'] = 2
    elif name == 'minimize_scalar':
        kw['options'] = {**(kw.get('options') or {}), 'maxiter': 2}
    elif name == 'root':
        kw['options'] = {**(kw.get('options') or {}), 'maxfev': 3}
    elif name == 'fsolve':
        kw['maxfev'] = 3
    else:
        kw['maxiter'] = 2
    return real(*args, **kw)


def _wrap(name, real):
    @functools.wraps(real)
    def seam(*args, **kwargs):
        c = core.current_client()
        if c is None:
            return real(*args, **kwargs)
        n = c.seam_count[name] = c.seam_count.get(name, 0) + 1
        f = c.fault
        if f is None or f['kind'] != 'solver' or 'seam' not in f:
            return real(*args, **kwargs)
        if f['seam'] == name:
            hit = n >= f['nth'] if f.get('sticky') else n == f['nth']
        else:      # a wide failure takes every other solver with it from then on, fallbacks included
            hit = f.get('wide') and c.fired and name in SOLVERS
        if not hit:
            return real(*args, **kwargs)
        core.SIM.fire(c, 'solver-' + f['mode']) if not c.fired else None
        if f['mode'] == 'raise':
            raise InjectedNonConvergence(f'{name}: failed to converge (injected)')
        if f['mode'] == 'value':
            raise ValueError(f'{name}: f(a) and f(b) must have different signs (injected)')
        if f['mode'] == 'limit':
            return _limited(name, real, args, kwargs)
        if f['mode'] == 'flag':  # the solver gives up at a point that is no solution and says so
            out = real(*args, **kwargs)
            return _spoil(name, out, args, kwargs)
        raise AssertionError(f['mode'])
    seam.__frm_sim_real__ = real
    return seam


def _spoil(name, out, args, kwargs):
    if hasattr(out, 'converged') and hasattr(out, 'root'):
        out.root = out.root * 1.37 + 0.05
        out.converged = False
        if hasattr(out, 'flag'):
            out.flag = 'convergence error (injected)'
        return out
    if hasattr(out, 'success') and hasattr(out, 'x'):
        import numpy as np
        x = np.asarray(out.x) * 1.37 + 0.05
        bounds = kwargs.get('bounds')
        if bounds is not None and not hasattr(bounds, 'lb'):
            x = np.array([min(max(v, -np.inf if lo is None else lo), np.inf if hi is None else hi) for v, (lo, hi) in zip(np.ravel(x), bounds)])
        out.x = x
        if name == 'minimize':  # the value reported is the value there
            fun = kwargs.get('fun', args[0] if args else None)
            extra = kwargs.get('args', ())
            out.fun = fun(x, *(extra if isinstance(extra, tuple) else (extra,)))
        out.success = False
        out.status = 1
        out.message = 'Maximum number of iterations has been exceeded (injected)'
        return out
    raise InjectedNonConvergence(f'{name}: failed to converge (injected)')


def install():
    table = {}
    for name in SOLVERS:
        table[(scipy.optimize, name)] = name
    for mod, name in OTHER:
        table[(mod, name)] = name
    wrapped = {}
    for (mod, name), label in table.items():
        real = getattr(mod, name)
        w = _wrap(label, real)
        setattr(mod, name, w)
        wrapped[id(real)] = (real, w)
    for mname, mod in list(sys.modules.items()):
        if mname == 'frm' or mname.startswith('frm.'):
            for attr, val in list(vars(mod).items()):
                hit = wrapped.get(id(val))
                if hit and hit[0] is val:
                    setattr(mod, attr, hit[1])

