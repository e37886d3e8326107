from . import geometry, ops  # noqa: F401
