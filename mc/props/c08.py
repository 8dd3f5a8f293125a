"""C08 Composed networks stay aligned in time (reference: nets.*, recursively)"""
from .. import grammar
from ..nets import parse
from .c01 import conv

BOUNDS = {
    "quick": "all ordered pairs over 12 and triples over 6 leaf layers, residuals over 12 members and all shrink modes over "
    "12 unpadded ones, all pairs and triples of equal-length branches (stride 1 and 2) in both container forms with five "
    "reductions, branches of unequal length, three-level nestings; streams of delay+2*stride+3 frames, cut in every "
    "way into steps, chunks and end-padded chunks (up to 4 frames)",
    "thorough": "pairs over 28 and triples over 12 leaf layers, ordered branch pairs, more nestings; chunks of any size",
}
ASSUMPTIONS = [
    "zero temporal fill", "members of one BroadcastReduce/Parallel have the same stride",
    "end padding only where all branches get the same length in forward (as forward itself)",
    "known findings A and B: see known_findings.txt",
]


def world(tree, group, T, C=2, sp=(), **kw):
    node = parse(tree)
    N = node.delay() + 2 * node.rate() + 3
    ft = [t for t in range(1, 60) if (node.length(t) or 0) >= 1]
    ft = [ft[0], ft[0] + 1, ft[0] + 2 + node.rate()] if ft else []
    ft = [t for t in ft if node.length(t)]
    alpha = ["S", "C"] + (["F"] if ft else []) + (["P"] if ft and group != "ragged" else [])
    return dict(
        tree=tree, group=group, C=C, sp=list(sp), B=1, N=N, alpha=alpha, FT=ft, epochs=1, cmax=99 if T else 4,
        cost=N * len(repr(tree)), **kw,
    )


def tasks(tier):
    T = tier == "thorough"
    out = []
    for i, (g, t) in enumerate(grammar.nets(tier)):
        out.append(world(t, g, T, dtype="f32" if i % 7 == 3 else "f64"))
        if g in ("nest", "br3") or i % 9 == 0:
            w = world(t, g, T)
            out.append(dict(w, kind="tree", cmin=2, cmax=4, N=max(6, min(w["N"], 9)), alpha=["S", "C"], data=2))
            w = dict(w, kind="linear", N=w["N"] + 40, data=3)
            hist = [["C", 3], ["S"]] + [["S"]] * (w["N"] - 20) + [["C", 7], ["S"], ["C", 2]]
            if "P" in w["alpha"]:
                hist.append(["P", 3])
            out.append(dict(w, hist=hist))
    for t in grammar.spatial():
        w = world(t, "spatial", T, sp=[4])
        out.append(w)
        out.append(dict(w, kind="tree", cmin=2, N=7, alpha=["S", "C"], data=2, B=2))
    # probes of the known findings
    flush = ["seq", conv(1, 3, 1, 1), conv(1, 3, 1, 1)]
    out.append(dict(world(flush, "probe", T), name="probe-flush-then-continue", kind="linear", hist=[["P", 4], ["S"], ["S"]]))
    starve = ["seq", conv(1, 1, 2, 0), conv(1, 3, 1, 1)]
    out.append(dict(world(starve, "probe", T), name="probe-starved-flush", kind="linear", hist=[["S"], ["S"], ["S"], ["P", 1]]))
    for t in out:
        if t.get("group") == "probe":
            continue
        if t.get("kind") == "linear" and any(o[0] == "P" for o in t["hist"]):
            n = sum(o[1] if len(o) > 1 else 1 for o in t["hist"][:-1])
            if parse(t["tree"]).starves(n, n + 3):
                t["hist"].pop()
    return out
