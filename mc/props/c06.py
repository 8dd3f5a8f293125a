"""C06 State can be saved, restored, moved and swapped (self oracle: the stream processed alone)"""
from ..zoo import world, zoo

BOUNDS = {
    "quick": "49 modules and 24 networks; get_state/set_state of one snapshot at every point of every history of up to "
    "span+2 frames (steps, chunks), repeated restoring, and moving to a used instance; two and three streams of "
    "different batch sizes over one and two instances: all interleavings of steps and chunks (merged), and all "
    "unmerged interleavings of 6 calls; both with lazily and always exchanged states",
    "thorough": "the same with longer streams and 8 calls",
}
ASSUMPTIONS = ["a state is deep-copied between get_state and set_state, None standing for clean_state"]


def tasks(tier):
    T = tier == "thorough"
    out = []
    for i, e in enumerate(zoo()):
        cmax = e.get("cmax", 99)
        span = e["span"]
        n = 2 * span + 2 if T and not e["net"] else min(span + 3, 7) if e["net"] else span + 3
        e = dict(e, cmax=min(cmax, 2), cmin=2)
        out.append(world(e, ["S", "C", "G", "R", "M"], N=n, tag="merged", epochs=1, junk=2, used=2))
        out.append(world(e, ["S", "K", "G", "R", "M"], N=min(n, 5), tag="epochs", epochs=2, junk=2, used=max(2, span), data=2))
        if not e["notrain"]:
            out.append(world(e, ["S", "G", "R", "M"], N=n, tag="train", epochs=1, junk=2, train=True, dtype="f32", data=3))
        sw = dict(world="streams:StreamWorld", js=[0, 2])
        n2 = min(span + 2, 5 if e["net"] else 7) if not T else span + 3
        out.append(world(e, [], N=n2, tag="2hold", streams=2, epochs=2, Bs=[2, 1], mode="hold", **sw))
        out.append(world(e, [], N=min(n2, 4), tag="2ext", streams=2, epochs=2, mode="ext", data=4, **sw))
        sw["js"] = [0]
        out.append(world(e, [], N=min(n2, 4 if T else 3), tag="3hold", streams=3, epochs=3, Bs=[2, 1, 3], mode="hold", data=5, **sw))
        out.append(
            world(e, [], N=20, tag="tree", streams=2, epochs=2, Bs=[2, 1], mode="hold", data=6, kind="tree", depth=8 if T else 6, **sw)
        )
        out.append(
            world(e, [], N=20, tag="tree2", streams=2, epochs=2, mode="hold", instances=2, data=6, kind="tree", depth=5 if T else 4, **sw)
        )
    return out
