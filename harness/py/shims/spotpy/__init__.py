"""Stand-in for SPOTPY (not installed in this sandbox): the parameter objects, the samplers' protocol and the database, as far
as the package uses them.  A sampler here draws what `parameter.draw` tells it to - a property sets that to enumerate - and
for the parallel back ends every evaluation goes through a copy of the setup by its pickling protocol (closures allowed, as SPOTPY
serialises with dill)."""
from . import algorithms, objectivefunctions, parallel, parameter  # noqa: F401


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    import pandas
    pandas.missing("spotpy." + name)
