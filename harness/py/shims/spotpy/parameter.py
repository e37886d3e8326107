import random as _random

import numpy as np


def draw(p):
    """The next value of a parameter (replaced by properties that enumerate the draws)."""
    return p.sample()


class Base:
    ARGS = ()

    def __init__(self, *args, **kw):
        self.name = ""
        if args and isinstance(args[0], str):
            self.name, args = args[0], args[1:]
        self.name = kw.pop("name", self.name)
        v = dict(zip(self.ARGS, args))
        for k in list(kw):
            if k in self.ARGS:
                v[k] = kw.pop(k)
        if set(v) != set(self.ARGS):
            raise TypeError("%s needs %s" % (type(self).__name__, ", ".join(self.ARGS)))
        self.step, self.optguess = kw.pop("step", None), kw.pop("optguess", None)
        self.minbound, self.maxbound = kw.pop("minbound", None), kw.pop("maxbound", None)
        self.as_int = False
        if kw:
            import pandas
            pandas.missing("spotpy.parameter keywords %s" % sorted(kw))
        self.__dict__.update(v)
        lo, hi = self.bounds()
        self.minbound = lo if self.minbound is None else self.minbound
        self.maxbound = hi if self.maxbound is None else self.maxbound

    def __call__(self):
        return (float(draw(self)), self.name, self.step or 0.1, self.optguess or 0.0, self.minbound, self.maxbound, self.as_int)


class Uniform(Base):
    ARGS = ("low", "high")

    def bounds(self):
        return self.low, self.high

    def sample(self):
        return _random.uniform(self.low, self.high)


class Normal(Base):
    ARGS = ("mean", "stddev")

    def bounds(self):
        return self.mean - 3 * self.stddev, self.mean + 3 * self.stddev

    def sample(self):
        return _random.gauss(self.mean, self.stddev)


DTYPE = [("random", "<f8"), ("name", "|U100"), ("step", "<f8"), ("optguess", "<f8"), ("minbound", "<f8"), ("maxbound", "<f8"),
         ("as_int", "bool")]


def generate(parameters):
    return np.fromiter((p() for p in parameters), dtype=DTYPE, count=len(parameters))


class ParameterSet:
    """What simulation() gets: the drawn values with their names."""

    def __init__(self, arr):
        self.random, self.name = [float(v) for v in arr["random"]], [str(n) for n in arr["name"]]

    def __iter__(self):
        return iter(self.random)

    def __len__(self):
        return len(self.random)

    def __getitem__(self, k):
        return self.random[k]


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    import pandas
    pandas.missing("spotpy.parameter." + name)
