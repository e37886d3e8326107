"""A stand-in for pyet (not installed in this sandbox).  It does not compute evapotranspiration: every function returns a
fixed combination of its own name and of the names and values of its arguments, so that what the package hands over can
be compared with what it should have handed over."""
import numpy as np

FUNCTIONS = ("penman", "pm", "pm_asce", "pm_fao56", "priestley_taylor", "kimberly_penman", "thom_oliver", "blaney_criddle",
             "hamon", "romanenko", "linacre", "haude", "turc", "jensen_haise", "mcguinness_bordne", "hargreaves", "fao_24",
             "abtew", "makkink", "oudin")


def _weight(name):
    return 1 + sum(ord(c) * (k + 3) for k, c in enumerate(name)) % 997 / 100


def _function(fn):
    def f(**kw):
        r = _weight(fn)
        for k, v in sorted(kw.items()):
            r = r + _weight(k) * np.sin(np.asarray(v, dtype=float))
        return r
    f.__name__ = fn
    return f


for _n in FUNCTIONS:
    globals()[_n] = _function(_n)


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    import pandas
    pandas.missing("pyet." + name)
