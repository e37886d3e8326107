import numpy as np


def _ranks(v):
    v = np.asarray(v, float)
    return np.array([(v < a).sum() + ((v == a).sum() + 1) / 2 for a in v])


def kge_non_parametric(evaluation, simulation, return_all=False):
    """Pool, Vis and Seibert (2018): Spearman correlation, normalised flow duration curves, ratio of the means."""
    o, s = np.asarray(evaluation, float), np.asarray(simulation, float)
    if len(o) != len(s):
        return np.nan
    cc = np.corrcoef(_ranks(o), _ranks(s))[0, 1]
    fs, fo = np.sort(s / (np.nanmean(s) * len(s))), np.sort(o / (np.nanmean(o) * len(o)))
    alpha = 1 - 0.5 * np.nansum(np.abs(fs - fo))
    beta = np.mean(s) / np.mean(o)
    k = 1 - np.sqrt((cc - 1) ** 2 + (alpha - 1) ** 2 + (beta - 1) ** 2)
    return (k, cc, alpha, beta) if return_all else k


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    import pandas
    pandas.missing("spotpy.objectivefunctions." + name)
