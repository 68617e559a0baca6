"""The randomness seam: record, or replace, the random tapes the package draws, per client."""
import functools
import sys

import numpy as np

from . import core


class TapeSeam:
    """Wraps every module-level name bound to generate_rand_nbs.  log(client) -> tapes since mark(client)."""

    def __init__(self):
        self.by_client = {}
        self.substitute = {}   # client -> callable(kwargs) -> array or None

    def install(self):
        import frm.pricing_engine.monte_carlo_generic as mcg
        real = mcg.generate_rand_nbs

        @functools.wraps(real)
        def seam(*args, **kwargs):
            c = core.current_client()
            if c is None:
                return real(*args, **kwargs)
            f = c.fault
            n = c.seam_count['tape'] = c.seam_count.get('tape', 0) + 1
            if f is not None and f['kind'] == 'tape' and not c.fired and n == f.get('nth', 1):
                core.SIM.fire(c, 'tape')
                raise core.SimMemoryError('cannot allocate the random tape (injected)')
            sub = self.substitute.get(c.index)
            out = None
            if sub is not None:
                out = sub(args, kwargs)
            if out is None:
                out = real(*args, **kwargs)
            self.by_client.setdefault(c.index, []).append(np.array(out))
            return out
        for mname, mod in list(sys.modules.items()):
            if mname == 'frm' or mname.startswith('frm.'):
                for attr, val in list(vars(mod).items()):
                    if val is real:
                        setattr(mod, attr, seam)
        return self

    def mark(self):
        c = core.current_client()
        self.by_client[c.index] = []

    def taken(self):
        c = core.current_client()
        return self.by_client.get(c.index, [])


def set_chunk_limit(limit):
    """Swarm knob: the size of one Monte Carlo chunk (MAX_SIMULATIONS_PER_LOOP), wherever the name is bound."""
    for mname, mod in list(sys.modules.items()):
        if (mname == 'frm' or mname.startswith('frm.')) and 'MAX_SIMULATIONS_PER_LOOP' in vars(mod):
            mod.MAX_SIMULATIONS_PER_LOOP = limit
