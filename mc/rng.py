"""Scripted random deviates.

numpy's Philox/Generator pair is replaced, while the code under test imports it,
by a generator that returns scripted quantiles.  A script is chosen by the key
the code gives its stream (seed + simulation number)."""
import math

import numpy as np
from scipy.special import ndtri


class Scripts:
    seed = 0
    scripts = {}          # stream -> list of quantiles
    used = {}             # stream -> list of quantiles handed out
    tail = 0.5
    patience = 4000
    current = None


class FakePhilox:
    def __init__(self, seed=None, key=None, counter=None):
        self.key = key if key is not None else seed


class FakeGenerator:
    def __init__(self, bit):
        self.stream = int(bit.key) - Scripts.seed
        self.script = Scripts.scripts.get(self.stream, ())
        self.used = Scripts.used.setdefault(self.stream, [])
        del self.used[:]
        self.spare = _Philox_gen(self.stream)
        Scripts.current = self.stream

    def _u(self):
        k = len(self.used)
        if k < len(self.script):
            u = self.script[k]
        elif k < Scripts.patience:
            u = Scripts.tail
        else:                       # a rejection loop: fall back on numpy
            u = float(self.spare.uniform())
        self.used.append(u)
        return u

    def uniform(self, low=0.0, high=1.0, size=None):
        return _many(lambda: low + (high - low) * self._u(), size)

    def random(self, size=None):
        return _many(self._u, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return _many(lambda: loc + scale * float(ndtri(self._u())), size)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def logistic(self, loc=0.0, scale=1.0, size=None):
        def one():
            u = self._u()
            return loc + scale * math.log(u / (1 - u))
        return _many(one, size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return _many(lambda: math.exp(mean + sigma * float(ndtri(self._u()))), size)


def _many(f, size):
    if size is None:
        return f()
    return np.array([f() for _ in range(int(np.prod(size)))]).reshape(size)


_real = (np.random.Generator, np.random.Philox)


def _Philox_gen(k):
    return _real[0](_real[1](key=1000003 + k))


def install():
    """Import tcrandom with the scripted generator."""
    import importlib
    import sys
    if "Utilities.tcrandom" in sys.modules:
        raise RuntimeError("tcrandom is already imported")
    np.random.Generator, np.random.Philox = FakeGenerator, FakePhilox
    try:
        importlib.import_module("Utilities.tcrandom")
    finally:
        np.random.Generator, np.random.Philox = _real
