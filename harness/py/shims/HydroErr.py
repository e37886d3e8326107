"""Stand-in for HydroErr: the few metrics used here, from their published definitions."""
import numpy as np


def _rm(s, o):
    s, o = np.asarray(s, float), np.asarray(o, float)
    m = ~(np.isnan(s) | np.isnan(o))
    return s[m], o[m]


def me(s, o, **k):
    s, o = _rm(s, o)
    return np.mean(s - o)


def mae(s, o, **k):
    s, o = _rm(s, o)
    return np.mean(np.abs(s - o))


def mse(s, o, **k):
    s, o = _rm(s, o)
    return np.mean((s - o) ** 2)


def rmse(s, o, **k):
    return np.sqrt(mse(s, o))


def nse(s, o, **k):
    s, o = _rm(s, o)
    return 1 - np.sum((s - o) ** 2) / np.sum((o - o.mean()) ** 2)


def kge_2009(s, o, s_=(1, 1, 1), **k):
    s, o = _rm(s, o)
    r = np.corrcoef(s, o)[0, 1]
    return 1 - np.sqrt((r - 1) ** 2 + (s.std() / o.std() - 1) ** 2 + (s.mean() / o.mean() - 1) ** 2)


def kge_2012(s, o, s_=(1, 1, 1), **k):
    s, o = _rm(s, o)
    r = np.corrcoef(s, o)[0, 1]
    g = (s.std() / s.mean()) / (o.std() / o.mean())
    return 1 - np.sqrt((r - 1) ** 2 + (g - 1) ** 2 + (s.mean() / o.mean() - 1) ** 2)
