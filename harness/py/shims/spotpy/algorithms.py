import copy

import numpy as np

from . import parameter as _parameter


class _Base:
    optimization_direction = "grid"

    def __init__(self, spot_setup, dbname=None, dbformat=None, parallel="seq", save_sim=True, **kw):
        if dbformat not in ("ram", None):
            import pandas
            pandas.missing("spotpy database format %s" % dbformat)
        self.setup, self.parallel, self.kw, self.save_sim = spot_setup, parallel, kw, save_sim
        self.evaluation = spot_setup.evaluation()
        self.rows, self.names = [], None

    def simulate(self, arr):
        x = _parameter.ParameterSet(arr)
        if self.parallel == "seq":
            return self.setup.simulation(x)
        return copy.deepcopy(self.setup).simulation(x)     # its __getstate__ and __setstate__, closures allowed (as with dill)

    def sample(self, repetitions, n_obj=None, n_pop=None, **kw):
        todo = [self.setup.parameters() for _ in range(repetitions)]
        for arr in todo:
            sim = self.simulate(arr)
            names, values = [str(n) for n in arr["name"]], [float(v) for v in arr["random"]]
            like = self.setup.objectivefunction(simulation=sim, evaluation=self.evaluation, params=(values, names))
            likes = [float(v) for v in like] if np.iterable(like) else [float(like)]
            self.names = names
            self.rows.append(tuple(likes + values + [0.0]))
            self.n_like = len(likes)

    def getdata(self):
        cols = ["like%d" % (k + 1) for k in range(self.n_like)] + ["par" + n for n in self.names] + ["chain"]
        return np.array(self.rows, dtype=[(c, "<f8") for c in cols])


class mc(_Base):
    pass


class lhs(_Base):
    pass


class rope(_Base):
    pass


class dream(_Base):
    optimization_direction = "maximize"


class mcmc(_Base):
    optimization_direction = "maximize"


class sceua(_Base):
    optimization_direction = "minimize"


class NSGAII(_Base):
    optimization_direction = "minimize"


class padds(_Base):
    optimization_direction = "minimize"


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    import pandas
    pandas.missing("spotpy.algorithms." + name)
