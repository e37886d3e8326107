from . import mproc, umproc  # noqa: F401
