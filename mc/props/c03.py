"""C03 How a stream is cut into calls does not matter (self oracle: frame-by-frame run of another instance)"""
from ..zoo import world, zoo

BOUNDS = {
    "quick": "73 modules and networks: all ways to cut streams of 2 * span + 3 frames into steps and chunks (states merged by everything the "
    "module holds), and unmerged all 64 ways to cut 7 frames; eval and train mode",
    "thorough": "2 * span + 5 frames; unmerged all 256 ways to cut 9 frames",
}
ASSUMPTIONS = ["chunks of at least one frame", "chunks through a recycling positional encoding hold at most num_embeds frames"]


def tasks(tier):
    T = tier == "thorough"
    out = []
    for i, e in enumerate(zoo()):
        n = 2 * e["span"] + (5 if T else 3)
        out.append(world(e, ["S", "C"], N=n, epochs=1, tag="merged"))
        out.append(world(e, ["S", "C"], N=9 if T else 7, kind="tree", cmin=2, epochs=1, tag="tree"))
        if not e["notrain"]:
            out.append(
                world(e, ["S", "C"], N=9 if T else 7, kind="tree", cmin=2, epochs=1, tag="train", train=True, data=5, dtype="f32")
            )
    return out
