"""C04 Calls that must not update the state leave no trace (self oracle)"""
from ..zoo import world, zoo

BOUNDS = {
    "quick": "49 modules and 24 networks; all histories of 2*span+3 (networks: span+4) frames (steps, chunks) with look-ahead steps, look-ahead "
    "chunks (1 and 3 frames; with end padding 1 and 2) and forward calls inserted everywhere; unmerged: all "
    "sequences of 4 (networks: 3) calls from the fresh and from a primed module",
    "thorough": "the same with more chunk sizes and all sequences of 5 calls",
}
ASSUMPTIONS = [
    "the call with update_state=True on a fresh instance with the same history is the reference",
    "forward of the recycling encoding depends on the position, see C14",
]


def tasks(tier):
    T = tier == "thorough"
    out = []
    for i, e in enumerate(zoo()):
        n = 2 * e["span"] + 4 if T else e["span"] + 4 if e["net"] else 2 * e["span"] + 3
        cmax = e.get("cmax", 99)
        ft = [min(cmax, e.get("ft", e["span"] + 2))]
        kw = dict(epochs=1, FT=ft, cj=[j for j in ([1, 2, 3, 5] if T else [1, 3]) if j <= cmax], pj=[1, 2, 3] if T else [1, 2])
        e = dict(e, cmax=min(cmax, 4 if T else 3))
        out.append(world(e, ["S", "C", "s", "c", "p", "F"], N=n, tag="merged", junk=2, **kw))
        if not e["notrain"]:
            out.append(
                world(e, ["S", "s", "c", "p", "F"], N=e["span"] + 3, tag="train", junk=1, train=True, dtype="f32", data=3, **kw)
            )
        kw.update(cj=[2], pj=[2])
        for pre in (0, e["span"]):
            out.append(
                world(
                    dict(e, cmax=2), ["S", "C", "s", "c", "p", "F"], N=n + 10, kind="tree", depth=5 if T else 3 if e["net"] else 4, cmin=2,
                    junk=1, tag=f"tree{pre}", prefix=[["S"]] * pre, data=1, **kw,
                )
            )
    return out
