from .geometry import Boxes


def unary_union(gs):
    return Boxes([b for g in gs for b in g.boxes])
