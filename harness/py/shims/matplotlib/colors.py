from pandas import ShimMissing


class _Nothing:
    def __init__(self, *args, **kwargs):
        raise ShimMissing("matplotlib.colors")


FuncAnimation = LightSource = ListedColormap = Figure = Axes = _Nothing


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing("matplotlib.colors." + name)
