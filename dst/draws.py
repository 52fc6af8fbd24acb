"""The random generator behind a seam.

While mounted, every standard-normal draw asked of numpy (the legacy global
functions, RandomState, default_rng and scipy's norm) is delivered by the
simulator from a seeded schedule and recorded; any draw can be made to fail.
All other draws come from the real generators.
"""
import contextlib

import numpy as np

KINDS = ("normal", "zeros", "ones", "onehot", "extreme", "tiny", "alternate")


class Draws:
    def __init__(self, kind, seed):
        self.r = np.random.RandomState(seed % 2**32)
        self._choice, self._normal = self.r.randint, self.r.standard_normal
        self.kind = kind
        self.got = []
        self.calls = 0
        self.fail_at = None
        self.failed = False

    def take(self, size):
        self.calls += 1
        if self.fail_at is not None and self.calls > self.fail_at:
            self.fail_at = None
            self.failed = True
            raise MemoryError("injected: no memory for the draws")
        shape = () if size is None else tuple(np.atleast_1d(size).astype(int))
        n = int(np.prod(shape)) if shape else 1
        k = self.kind
        if k == "normal":
            z = self._normal(n)
        elif k == "zeros":
            z = np.zeros(n)
        elif k == "ones":
            z = np.ones(n)
        elif k == "onehot":
            z = np.zeros(n)
            if n:
                z[self._choice(n)] = 3.0
        elif k == "extreme":
            z = self._normal(n) + 6.0 * (2 * self._choice(0, 2, n) - 1)
        elif k == "tiny":
            z = 1e-3 * self._normal(n)
        else:
            z = 2.0 * (-1.0) ** np.arange(n) + 0.01 * self._normal(n)
        self.got.extend(z.tolist())
        return z.reshape(shape) if shape else float(z[0])

    def scaled(self, loc, scale, size):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape or None
        return loc + np.asarray(scale) * self.take(size) if size is not None else loc + scale * self.take(None)

    @contextlib.contextmanager
    def mounted(self):
        import scipy.stats

        d, real_rs, real_gen = self, np.random.RandomState, np.random.Generator

        class SimState(real_rs):
            def standard_normal(self, size=None):
                return d.take(size)

            def normal(self, loc=0.0, scale=1.0, size=None):
                return d.scaled(loc, scale, size)

            def randn(self, *shape):
                return d.take(shape or None)

        class SimGen(real_gen):
            def standard_normal(self, size=None, dtype=np.float64, out=None):
                z = d.take(size)
                if out is not None:
                    out[...] = z
                return z

            def normal(self, loc=0.0, scale=1.0, size=None):
                return d.scaled(loc, scale, size)

        def default_rng(seed=None):
            return SimGen(np.random.PCG64(seed))

        def randn(*shape):
            return d.take(shape or None)

        new = {"randn": randn, "standard_normal": lambda size=None: d.take(size),
               "normal": lambda loc=0.0, scale=1.0, size=None: d.scaled(loc, scale, size),
               "default_rng": default_rng, "RandomState": SimState, "Generator": SimGen}
        old = {k: getattr(np.random, k) for k in new}
        norm, old_norm = scipy.stats.norm, scipy.stats.norm.random_state
        state = SimState()
        state.set_state(np.random.get_state())
        for k, v in new.items():
            setattr(np.random, k, v)
        norm.random_state = state
        try:
            yield self
        finally:
            for k, v in old.items():
                setattr(np.random, k, v)
            norm.random_state = old_norm
