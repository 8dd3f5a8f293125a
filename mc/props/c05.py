"""C05 Cleaning the state makes a module as good as new (self oracle: a freshly built instance)"""
from ..zoo import world, z, zoo

BOUNDS = {
    "quick": "49 modules and 24 networks; three consecutive streams of up to span+2 frames and of batch sizes 2, 3, 1, "
    "cleaned (once or twice) at every point of every history of steps, chunks, end-padded chunks, look-ahead "
    "and forward calls",
    "thorough": "the same with streams of 2*span+3 frames, all chunk sizes; unmerged sequences of 5 calls",
}
ASSUMPTIONS = ["the batch size only changes after clean_state"]


def tasks(tier):
    T = tier == "thorough"
    out = []
    extra = [
        z("rpe-shift", ["rpe", dict(dim=3, n=5, upd=2)], 5, C=3, cmax=5, pads=False, net=False, notrain=False, f_ends=True),
    ]
    for i, e in enumerate(zoo() + extra):
        cmax = e.get("cmax", 99)
        ft = [min(cmax, e["span"] + 2)]
        fwd = [] if e.get("nofwd") else ["f"]
        kw = dict(epochs=3, Bs=[2, 3, 1], FT=ft, persistent=True, pj=[2], pmax=2)
        n = 2 * e["span"] + 3 if T else min(e["span"] + 2, 8 if e["net"] else 99)
        e = dict(e, cmax=min(cmax, 5 if T else 3))
        alpha = ["S", "C", "P", "s", "K", "KK"]
        def add(e, alpha, **k):
            t = world(e, alpha, **k)
            t["alpha"] += fwd
            out.append(t)
        add(e, alpha, N=n, tag="merged", junk=1, **kw)
        if not e["notrain"]:
            add(e, ["S", "P", "K"], N=min(n, e["span"] + 2), tag="train", junk=1, train=True, dtype="f32", data=3, **kw)
        # unmerged: prime, clean, and compare every sequence of further calls
        for pre in ([], [["S"]] * max(1, e["span"] - 1), [["C", min(cmax, e["span"] + 1)]]):
            t = world(
                dict(e, cmax=2, cmin=2), ["S", "C", "P", "K"], N=n + 10, kind="tree", depth=5 if T else 4, tag=f"tree{len(pre)}{len(out)}",
                prefix=pre + [["K"]], data=1, junk=1, **kw,
            )
            out.append(t)
    return out
