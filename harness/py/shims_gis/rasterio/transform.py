def xy(transform, rows, cols, zs=None, offset="center"):
    t = transform
    one = not hasattr(rows, "__len__")
    if one:
        rows, cols = [rows], [cols]
    xs = [t[2] + t[0] * (c + 0.5) for c in cols]
    ys = [t[5] + t[4] * (r + 0.5) for r in rows]
    return (xs[0], ys[0]) if one else (xs, ys)
