from pandas import ShimMissing


class Boxes:
    def __init__(self, boxes):
        # the parts of a multipolygon, or boxes
        self.boxes = [tuple(q) for b in boxes for q in (b.boxes if isinstance(b, Boxes) else [b])]

    @property
    def geom_type(self):
        return "Polygon" if len(self.boxes) == 1 else "MultiPolygon"

    @property
    def is_empty(self):
        return not self.boxes

    def intersection(self, o):
        out = []
        for a in self.boxes:
            for b in o.boxes:
                q = (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
                if q[0] < q[2] and q[1] < q[3]:
                    out.append(q)
        return Boxes(out)

    @property
    def area(self):
        """Of what is inside any of the boxes."""
        xs = sorted({v for b in self.boxes for v in (b[0], b[2])})
        total = 0.0
        for x0, x1 in zip(xs, xs[1:]):
            end, h = None, 0.0
            for y0, y1 in sorted((b[1], b[3]) for b in self.boxes if b[0] <= x0 and b[2] >= x1):
                if end is None or y0 > end:
                    h += y1 - y0
                    end = y1
                elif y1 > end:
                    h += y1 - end
                    end = y1
            total += h * (x1 - x0)
        return total

    @property
    def bounds(self):
        return tuple(f(b[i] for b in self.boxes) for i, f in enumerate((min, min, max, max)))

    def moved(self, dx, dy):
        return Boxes([(b[0] + dx, b[1] + dy, b[2] + dx, b[3] + dy) for b in self.boxes])


Polygon = MultiPolygon = Boxes


def box(x0, y0, x1, y1):
    return Boxes([(x0, y0, x1, y1)])


def mapping(g):
    return {"type": "MultiPolygon", "coordinates": g.boxes}


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing("shapely.geometry." + name)
