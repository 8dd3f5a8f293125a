"""Exhaustive bounded grammar of composed networks (2 channels in and out) for C07 and C08."""
import itertools

from .nets import parse

from .props.c01 import conv
from .props.c02 import pool


def c(k, s=1, p=0, **kw):
    return conv(1, k, s, p, **kw)


def mp(k, s=1, p=0, d=1):
    return pool("Max", 1, k, s, p, d)


def ap(k, s=1, p=0):
    return pool("Avg", 1, k, s, p)


BN = ["nn", "BatchNorm1d", 2]
LEAVES = [
    c(1), c(2), c(3), c(3, 1, 1), c(5, 1, 2), c(2, 1, 1), c(3, 1, 2), c(4, 1, 1), mp(2), mp(3, 1, 1), mp(2, 1, 0, 2), ap(3, 1, 1), ap(2),
    ["delay", 1], ["delay", 2], ["fn", "add", 2], ["fn", "cube"], ["nn", "Tanh"], BN, ["linear", 2, 2],
]
STRIDED = [c(3, 2, 1), c(2, 2), c(1, 2), ap(2, 2), mp(3, 2, 1), c(4, 3, 2), c(3, 3), c(2, 3, 1)]
CORE = [c(1), c(2), c(3, 1, 1), c(5, 1, 2), c(3, 2, 1), c(1, 2), mp(3, 1, 1), ["delay", 2], ["fn", "cube"], ap(2, 2), c(2, 1, 1), c(4, 3, 2)]
TINY = [c(3, 1, 1), c(2), c(3, 2, 1), ["fn", "cube"], mp(3, 1, 1), c(1, 2)]
# stride 1, forward keeps the length
SAME = [c(1), c(3, 1, 1), c(5, 1, 2), mp(3, 1, 1), ap(3, 1, 1), ["fn", "cube"], ["delay", 2], BN, ["seq", c(2, 1, 1), c(2)], ["seq", c(3, 1, 1), ["fn", "add", 1]]]
# stride 2, forward halves the length
HALF = [c(3, 2, 1), c(1, 2), c(5, 2, 2), mp(3, 2, 1), ["seq", c(3, 1, 1), c(1, 2)], ["seq", c(1, 2), c(3, 1, 1)], ["seq", ["fn", "add", 1], c(3, 2, 1)]]
CUT2 = [c(3), c(5, 1, 1), ["seq", c(2), c(2)], mp(3), ap(3), ["seq", c(3), ["fn", "cube"]], mp(2, 1, 0, 2)]
OPS = ["sum", "mul", "max", "concat", "wsum"]


def nets(tier):
    """[(group, tree)]"""
    T = tier == "thorough"
    n = itertools.count()
    nop = lambda: OPS[next(n) % len(OPS)]  # noqa: E731
    out = [("leaf", t) for t in LEAVES + STRIDED]
    pairs = list(itertools.product(LEAVES + STRIDED if T else CORE, repeat=2))
    out += [("seq2", ["seq", a, b]) for a, b in pairs]
    out += [("seq3", ["seq", *t]) for t in itertools.product(CORE if T else TINY, repeat=3)]
    # residual connections
    for t in SAME[1:] + [["seq", c(3, 1, 1), mp(3, 1, 1)], ["res", c(3, 1, 1)]]:
        for op in OPS[:4] if T else [nop()]:
            out.append(("res", ["res", t, dict(op=op)]))
            out.append(("res", ["seq", ["res", t, dict(op="sum", fill="zeros")], c(2)]))
    for t in CUT2 + [c(2), c(4), c(5), ["seq", c(2), c(2), c(3)], ["seq", c(3), ["res", c(3), dict(shrink="lagging")]]]:
        node = parse(t)
        if node.pad():
            continue
        for mode in (True, "centered", "lagging", "leading"):
            if mode in (True, "centered") and node.delay() % 2:
                continue
            out.append(("shrink", ["res", t, dict(shrink=mode, op="sum")]))
            if T:
                out.append(("shrink", ["res", t, dict(shrink=mode, op=nop(), fill="replicate")]))
                out.append(("shrink", ["seq", c(2), ["res", t, dict(shrink=mode, op="sum")]]))
    # parallel branches
    for group in (SAME, HALF, CUT2):
        for a, b in itertools.permutations(group, 2) if T else itertools.combinations(group, 2):
            for form in ("br", "par"):
                if not T and form == "par" and next(n) % 3:
                    continue
                out.append((form, [form, nop(), a, b]))
        for t in itertools.combinations(group[:6] if T else group[:4], 3):
            out.append(("br3", ["br", nop(), *t]))
            out.append(("par3", ["par", nop(), *t]))
    # branches of different length in forward, streaming only
    mixed = [c(1), c(2), c(3), c(3, 1, 2), ["delay", 1], mp(2, 1, 0, 2), ["seq", c(2), c(3)]]
    for a, b in itertools.combinations(mixed, 2):
        out.append(("ragged", ["br", nop(), a, b]))
        out.append(("ragged", ["par", nop(), b, a]))
    for a, b in itertools.combinations([c(2, 2), c(1, 2), c(4, 2), c(3, 2, 1), ["seq", c(2), c(2, 2)]], 2):
        out.append(("ragged", ["br", nop(), a, b]))
    # nesting
    inner = [
        ["res", c(3, 1, 1)],
        ["br", "sum", c(3, 1, 1), c(1)],
        ["br", "wsum", c(1), ["seq", c(1), c(5, 1, 2)], mp(3, 1, 1)],
        ["seq", c(3, 1, 1), ["nn", "Tanh"], c(3, 1, 1)],
        ["par", "mul", ["fn", "cube"], c(3, 1, 1)],
        ["res", ["seq", BN, c(3, 1, 1)], dict(op="mul")],
    ]
    for a in inner:
        out.append(("nest", ["res", a]))
        out.append(("nest", ["br", nop(), a, c(1)]))
        out.append(("nest", ["par", nop(), c(5, 1, 2), a]))
        out.append(("nest", ["seq", c(3, 2, 1), a, c(2)]))
        out.append(("nest", ["seq", a, c(2, 2)]))
        out.append(("nest", ["br", nop(), ["seq", a, c(1, 2)], c(3, 2, 1)]))
        if T:
            for b in inner:
                out.append(("nest", ["seq", a, b]))
                out.append(("nest", ["br", nop(), a, b]))
                out.append(("nest", ["res", ["br", "sum", a, b]]))
    out.append(("nest", ["oseq", ["stem", c(3, 2, 1)], ["body", ["res", ["oseq", ["a", c(3, 1, 1)], ["b", BN]]]], ["pool", mp(2)]]))
    out.append(("nest", ["seq", ["br", "concat", c(3, 1, 1), c(1)], conv(1, 3, 2, 1, cin=4, cout=2)]))
    out.append(("nest", ["seq", ["seq", ["seq", c(2), ["seq", c(2)]], c(2, 2)], ["seq", c(2)]]))
    # explicit multi-stream plumbing
    out.append(("nest", ["seq", ["bcast", 2], ["parallel", c(3, 1, 1), c(1)], ["parallel", c(1), c(3, 1, 1)], ["reduce", "wsum"]]))
    out.append(("nest", ["seq", ["bcast", 2], ["parallel", c(3, 1, 1), ["fn", "add", 1]], ["dispatch", [1, 0]], ["parallel", c(3, 1, 1), ["fn", "id"]], ["reduce", "sum"], c(2, 2)]))
    return out


def spatial():
    """Networks over 2D/3D frames"""

    def c2(k, s=1, p=0, **kw):
        return conv(2, k, s, p, **{**dict(ks=3, ps=1), **kw})

    return [
        ["seq", c2(3, 1, 1), ["nn", "BatchNorm2d", 2], pool("Max", 2, 2, 1, 0, ks=2, ss=2)],
        ["res", ["seq", c2(3, 1, 1), ["nn", "Tanh"], c2(3, 1, 1)]],
        ["seq", c2(3, 2, 1), ["res", c2(3, 1, 1)]],
        ["br", "concat", c2(1, ks=1, ps=0), c2(3, 1, 1), ["seq", pool("Avg", 2, 3, 1, 1, ks=3, ss=1, ps=1), c2(1)]],
        ["seq", ["br", "sum", c2(3, 2, 1, ss=2), c2(1, 2, 0, ks=1, ps=0, ss=2)], c2(2)],
    ]
