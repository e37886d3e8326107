import enum


class Resampling(enum.IntEnum):
    nearest, bilinear, cubic, cubic_spline, lanczos, average, mode, gauss, max, min, med, q1, q3, sum, rms = range(15)
