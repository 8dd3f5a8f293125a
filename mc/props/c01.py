"""C01 Streaming a convolution equals the regular convolution (reference: nets.Conv)"""

BOUNDS = {
    "quick": "temporal kernel 1-5, stride 1-4, all paddings < kernel, both fills, 1D; a covering set of options "
    "and spatial geometries in 1D/2D/3D; streams of 2*kernel+stride+3 frames cut in every way into steps, "
    "chunks, end-padded chunks; all 2^7 partitions of 8 frames unmerged; streams of 70 frames",
    "thorough": "temporal kernel 1-7, stride 1-5, all paddings < kernel, both fills, in 1D, 2D and 3D; options "
    "crossed with them; streams of 3*kernel+2*stride+3 frames; all 2^9 partitions of 10 frames unmerged",
}
ASSUMPTIONS = ["padding < kernel size", "padding_mode zeros or replicate", "no zero-length chunks"]


def conv(dims, k, s=1, p=0, **kw):
    """k, s, p temporal; keyword ks/ss/ps/ds: spatial"""
    sp = lambda t, v: t if dims == 1 else [t] + ([v] * (dims - 1) if isinstance(v, int) else list(v))
    ks, ss, ps, ds = kw.pop("ks", 1), kw.pop("ss", 1), kw.pop("ps", 0), kw.pop("ds", 1)
    return ["conv", dims, dict(cin=kw.pop("cin", 2), cout=kw.pop("cout", 2), k=sp(k, ks), s=sp(s, ss), p=sp(p, ps), d=sp(1, ds), **kw)]


OPTIONS = [
    dict(),
    dict(bias=False),
    dict(cin=4, cout=6, g=2),
    dict(cin=3, cout=3, g=3, bias=False),
    dict(cin=3, cout=1),
    dict(cin=1, cout=3),
    dict(pm="replicate"),
]
SPATIAL = {
    1: [dict()],
    2: [
        dict(ks=3, ps=1), dict(ks=2, ss=2), dict(ks=3, ss=2, ps=1), dict(ks=2, ds=2), dict(ks=3, ps=2, pm="replicate"),
        dict(ks=3, ps=1, g=2), dict(ks=1, ss=3), dict(ks=5, ps=2, ds=1),
    ],
    3: [
        dict(ks=(3, 2), ps=(1, 0)), dict(ks=(1, 3), ss=(2, 1), ps=(0, 1)), dict(ks=(2, 2), ds=(1, 2)),
        dict(ks=(3, 3), ss=(1, 2), ps=(2, 1)), dict(ks=(2, 3), ps=(1, 1), pm="replicate"), dict(ks=2, g=2),
    ],
}
SP = {1: [], 2: [5], 3: [4, 5]}


def channels(tree):
    return tree[2]["cin"]


def world(tree, dims, k, s, scale=2, **kw):
    return dict(
        tree=tree, C=channels(tree), sp=SP[dims], B=kw.pop("B", 1 if dims > 1 else 2), N=scale * k + s + 3,
        alpha=kw.pop("alpha", ["S", "C", "P", "F"]), FT=[k, k + 1, k + 4], epochs=1, **kw,
    )


def spread(i):
    """Cheap rotation of secondary options over an enumeration"""
    return dict(dtype="f32" if i % 5 == 4 else "f64", train=i % 3 == 1)


LONG = [["S"]] * 25 + [["C", 5], ["S"], ["C", 1], ["C", 9]] + [["S"]] * 20 + [["C", 2], ["S"], ["P", 4], ["S"], ["C", 3]]


def tasks(tier):
    T = tier == "thorough"
    out = []
    K, S = (7, 5) if T else (5, 4)
    i = 0
    # every temporal geometry
    for k in range(1, K + 1):
        for s in range(1, S + 1):
            for p in range(k):
                for fill in ["zeros", "replicate"] if p else ["zeros"]:
                    for dims in [1, 2, 3] if T else [1]:
                        i += 1
                        sp = SPATIAL[dims][i % len(SPATIAL[dims])]
                        t = conv(dims, k, s, p, fill=fill, **sp)
                        out.append(world(t, dims, k, s, scale=3 if T else 2, **spread(i)))
    # options and spatial geometries
    geo = [(3, 1, 0), (3, 1, 1), (3, 2, 2), (2, 3, 1), (1, 1, 0), (1, 2, 0), (4, 2, 1)]
    for o in OPTIONS:
        for n, (k, s, p) in enumerate(geo):
            for fill in ["zeros", "replicate"] if p else ["zeros"]:
                i += 1
                out.append(world(conv(1, k, s, p, fill=fill, **o), 1, k, s, **spread(i)))
    for dims in (2, 3):
        for a, o in enumerate(SPATIAL[dims]):
            for n, (k, s, p) in enumerate(geo if T else geo[:6]):
                if not T and (a + n) % 2 and n:
                    continue
                i += 1
                fill = ["zeros", "replicate"][i % 2] if p else "zeros"
                out.append(world(conv(dims, k, s, p, fill=fill, **o), dims, k, s, **spread(i)))
    # dimensions of size 1
    for dims in (1, 2, 3):
        for sp in SPATIAL[dims][: 1 if dims == 1 else None]:
            if sp.get("ks") == 1 or sp.get("g"):
                continue
            fit = dict(ks=1) if dims == 1 else dict(ks=3, ps=1, **{n: sp[n] for n in ("pm",) if n in sp})
            for k, s, p in [(1, 1, 0), (3, 1, 1), (2, 2, 0), (3, 2, 2), (1, 3, 0)]:
                for B in (1, 3):
                    i += 1
                    out.append(dict(world(conv(dims, k, s, p, cin=1, cout=[1, 2][i % 2], **fit), dims, k, s, B=B, **spread(i)), sp=[1] * (dims - 1)))
    # unmerged partitions; after each of them the clip may be end-padded
    for k, s, p in [(3, 1, 0), (3, 2, 1), (2, 3, 0), (1, 2, 0), (5, 1, 2), (4, 4, 3), (5, 3, 1)]:
        n = 10 if T else 8
        for fill in ["zeros", "replicate"] if p else ["zeros"]:
            t = dict(world(conv(1, k, s, p, fill=fill), 1, k, s), kind="tree", N=n, cmin=2, alpha=["S", "C"])
            out.append(t)
            out.append(dict(t, N=7 if T else 5, alpha=["S", "C", "P"]))
    # long streams
    for k, s, p in [(1, 1, 0), (1, 3, 0), (2, 1, 0), (3, 1, 1), (3, 2, 0), (4, 3, 2), (5, 1, 0), (5, 4, 4), (7, 2, 3)]:
        t = dict(world(conv(1, k, s, p), 1, k, s), kind="linear", N=90, hist=LONG)
        out.append(t)
        out.append(dict(t, tree=conv(2, k, s, p, ks=3, ps=1), sp=SP[2], hist=[["P", 6]] + LONG))
    return out
