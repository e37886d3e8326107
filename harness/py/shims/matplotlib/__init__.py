"""Placeholder: plotting is not available here.  Any use of it is "cannot be decided"."""
from pandas import ShimMissing
