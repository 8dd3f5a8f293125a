"""C02 Streaming a pooling layer equals the regular pooling (reference: nets.Pool)"""
from .c01 import LONG, spread

BOUNDS = {
    "quick": "Avg/Max pooling, temporal kernel 1-5, stride 1-4 (and the default stride), all paddings torch.nn accepts, "
    "dilation 1-3 (max), all fills, 1D; a covering set of spatial geometries in 2D/3D; adaptive pooling with "
    "kernel 1-5; streams of 2*span+stride+3 frames cut in every way into steps, chunks and end-padded chunks; "
    "all partitions of 8 frames unmerged; streams of 70 frames",
    "thorough": "the same with kernel up to 7, stride up to 5, all in 1D, 2D and 3D, streams of 3*span+stride+3 frames",
}
ASSUMPTIONS = ["average pooling: no dilation, ceil_mode, divisor_override", "no zero-length chunks"]

SPATIAL = {
    1: [dict()],
    2: [dict(ks=2, ss=2), dict(ks=3, ss=2, ps=1), dict(ks=3, ss=1), dict(ks=1, ss=1), dict(ks=2, ss=1, ps=1)],
    3: [dict(ks=(2, 3), ss=(2, 1), ps=(1, 0)), dict(ks=(1, 2), ss=(1, 2)), dict(ks=(3, 2), ss=(1, 3), ps=(1, 1)), dict(ks=(2, 2), ss=(2, 2))],
}
SP = {1: [], 2: [7], 3: [5, 6]}


def pool(kind, dims, k, s=None, p=0, d=1, ks=1, ss=1, ps=0, **kw):
    v = lambda t, x: [t] + ([x] * (dims - 1) if isinstance(x, int) else list(x))
    o = dict(k=v(k, ks), p=v(p, ps), **kw)
    if s is not None:
        o["s"] = v(s, ss)
    if d != 1:
        o["d"] = v(d, 1)
    return ["pool", f"{kind}Pool{dims}d", o]


def adaptive(kind, dims, k, out, **kw):
    return ["pool", f"Adaptive{kind}Pool{dims}d", dict(k=k, out=[1, *out], **kw)]


def world(tree, dims, span, s, scale=2, **kw):
    return dict(
        tree=tree, C=2, sp=SP[dims], B=1 if dims > 1 else 2, N=scale * span + s + 3, alpha=["S", "C", "P", "F"],
        FT=[span, span + 1, span + 4], epochs=1, **kw,
    )


def tasks(tier):
    T = tier == "thorough"
    out, i = [], 0
    K, S = (7, 5) if T else (5, 4)
    for kind in ("Avg", "Max"):
        for k in range(1, K + 1):
            for s in [None, *range(1, S + 1)]:
                for p in range(k // 2 + 1):
                    fills = [None] + (["zeros", "replicate", "neg_inf"][: 3 if kind == "Max" else 2] if p else [])
                    for fill in fills:
                        for d in (1, 2, 3) if kind == "Max" and k > 1 else (1,):
                            if d > 1 and not T and (fill not in (None, "replicate") or s not in (1, 2)):
                                continue
                            for dims in [1, 2, 3] if T else [1]:
                                i += 1
                                sp = SPATIAL[dims][i % len(SPATIAL[dims])]
                                kw = dict(fill=fill) if fill else {}
                                t = pool(kind, dims, k, s, p, d, **sp, **kw)
                                out.append(world(t, dims, d * (k - 1) + 1, s or k, 3 if T else 2, **spread(i)))
    geo = [(3, 1, 0, 1), (3, 2, 1, 1), (2, None, 0, 1), (1, 1, 0, 1), (4, 3, 2, 1), (2, 1, 1, 1), (3, 1, 1, 2), (2, 3, 0, 3)]
    for kind in ("Avg", "Max"):
        for dims in (2, 3):
            for sp in SPATIAL[dims]:
                for k, s, p, d in geo:
                    if d > 1 and kind == "Avg":
                        continue
                    i += 1
                    sp2 = dict(sp)
                    if s is None:
                        sp2.pop("ss", None)
                    t = pool(kind, dims, k, s, p, d, **sp2)
                    out.append(world(t, dims, d * (k - 1) + 1, s or k, **spread(i)))
        # dimensions of size 1
        for dims in (1, 2, 3):
            for k, s, p, d in geo:
                if d > 1 and kind == "Avg":
                    continue
                for B in (1, 3):
                    i += 1
                    out.append(dict(world(pool(kind, dims, k, s, p, d), dims, d * (k - 1) + 1, s or k, **spread(i)), sp=[1] * (dims - 1), B=B, C=1))
            if dims > 1:
                out.append(dict(world(adaptive(kind, dims, 3, [1] * (dims - 1)), dims, 3, 1), sp=[1] * (dims - 1), B=1, C=1))
        # adaptive
        for k in range(1, K + 1):
            for dims, outs in ((2, [[1], [3]]), (3, [[1, 1], [2, 3]])):
                for o in outs:
                    i += 1
                    out.append(world(adaptive(kind, dims, k, o), dims, k, 1, 3, **spread(i)))
        for k, s, p, d in [(3, 1, 0, 1), (3, 2, 1, 1), (2, 3, 0, 1), (4, None, 2, 1), (1, 2, 0, 1), (3, 1, 1, 2), (2, 2, 0, 3)]:
            if d > 1 and kind == "Avg":
                continue
            n = 10 if T else 8
            t = dict(world(pool(kind, 1, k, s, p, d), 1, d * (k - 1) + 1, s or k), kind="tree", N=n, cmin=2, alpha=["S", "C"])
            out.append(t)
            out.append(dict(t, N=7 if T else 5, alpha=["S", "C", "P"]))
            out.append(dict(t, kind="linear", N=90, hist=LONG))
            t2 = pool(kind, 3, k, s, p, d, ks=2, **({} if s is None else dict(ss=2)))
            out.append(dict(t, kind="linear", tree=t2, sp=SP[3], B=2, N=96, hist=[["P", 6]] + LONG))
        out.append(dict(t, kind="linear", tree=adaptive(kind, 2, 4, [2]), sp=SP[2], N=90, hist=LONG))
    return out
