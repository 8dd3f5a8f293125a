"""C14 The recycling positional encoding cycles in step with the stream (reference: index arithmetic)"""
import torch

from ..explore import Violation, caught, dt
from ..tensors import copy_state, data, diff, fingerprint, init_weights, nothing

BOUNDS = {
    "quick": "num_embeds 1-7, dimensions 2-6 (learned: also 1), static and learned, forward_update_index_steps 0-9 and the default: every reachable "
    "state (position, saved position, weights), i.e. streams of any length, with steps, chunks of every size, look-aheads, forward "
    "over every length with and without own update, saving, restoring, cleaning and changes of weights; unmerged histories of "
    "3 operations; streams of 40 cycles; alone and inside Sequential",
    "thorough": "num_embeds up to 12, unmerged histories of 4 operations",
}
ASSUMPTIONS = ["chunks and clips of at most num_embeds frames", "static encodings of embed_dim >= 2"]


class RpeWorld:
    """Ghost state: (position, weights, saved position)"""

    def __init__(self, task):
        self.task = task
        self.n, self.E = task["n"], task["E"]
        self.dtype = dt(task.get("dtype", "f64"))
        B = task.get("B", 2)
        self.X = [data((B, self.E), "x", i, dtype=self.dtype) for i in range(self.n + 1)]
        u = task.get("upd")
        self.upd = 1 if u is None else u
        # the table by position, from an instance that is not used otherwise
        self.tables = []
        for v in (0, 1):
            with torch.no_grad():
                m = self.module(v)[1]
                self.tables.append(m.pe(torch.arange(self.n)).detach().clone())

    def module(self, v=0):
        import continual as co

        t = self.task
        m = co.RecyclingPositionalEncoding(self.E, self.n, t["learned"], **({} if t.get("upd") is None else dict(forward_update_index_steps=t["upd"])))
        net = m
        if t.get("embed"):
            net = co.Sequential(co.Add(2.0), m, co.Multiply(3.0))
        net = net.to(self.dtype).train(bool(t.get("train")))
        self.weights(m, v)
        return net, m

    def weights(self, m, v):
        if v and self.task["learned"]:
            init_weights(m, "other")
        else:
            init_weights(m)

    def start(self):
        return (0, 0, None)

    def ops(self, g):
        pos, v, snap = g
        al = self.task.get("alpha") or "SCPscpFUKGRW"
        n = self.n
        out = [["S"]] if "S" in al else []
        out += [["s"]] if "s" in al else []
        for k in "CPcpF":
            js = range(1, n + 1)
            if k in al:
                out += [[k, j] for j in (js if k in "CF" else (1, n))]
        if "U" in al and not self.task.get("embed"):
            out += [["U", 1, 0], ["U", n, n + 2], ["U", 1, 3]]
        if "K" in al:
            out.append(["K"])
        if "G" in al and snap is None:
            out.append(["G"])
        if "R" in al and snap is not None:
            out.append(["R"])
        if "W" in al and self.task["learned"]:
            out.append(["W"])
        return out

    def next(self, g, op):
        pos, v, snap = g
        k = op[0]
        add = {"S": 1, "C": op[-1], "P": op[-1], "F": self.upd, "U": op[-1]}.get(k, 0)
        if add:
            return ((pos + add) % self.n, v, snap)
        if k == "K":
            return (0, v, snap)
        if k == "G":
            return (pos, v, pos)
        if k == "R":
            return (snap, v, snap)
        if k == "W":
            return (pos, 1 - v, snap)
        return g

    def live(self):
        return RpeLive(self)


class RpeLive:
    def __init__(self, w):
        self.w, self.g, self.hist, self.snap = w, w.start(), [], None
        self.net, self.m = w.module()

    def key(self):
        return (self.g, fingerprint(self.net))

    def apply(self, op):
        w, m, k = self.w, self.net, op[0]
        pos, v, _ = self.g
        self.hist.append(op)
        obs = exp = None

        def enc(i):
            x, e = w.X[(pos + i) % (w.n + 1)], w.tables[v][(pos + i) % w.n]
            return (x + 2.0 + e) * 3.0 if w.task.get("embed") else x + e

        def inp(i):
            return w.X[(pos + i) % (w.n + 1)].clone()

        try:
            with torch.no_grad():
                if k in "Ss":
                    exp = enc(0)
                    obs = m.forward_step(inp(0), **({} if k == "S" else dict(update_state=False)))
                elif k in "CPcpFU":
                    T = op[1]
                    exp = torch.stack([enc(i) for i in range(T)], 2)
                    x = torch.stack([inp(i) for i in range(T)], 2)
                    if k == "F":
                        obs = m.forward(x)
                    elif k == "U":
                        obs = m.forward(x, update_index_steps=op[2])
                    else:
                        kw = dict(pad_end=True) if k in "Pp" else {}
                        if k in "cp":
                            kw["update_state"] = False
                        obs = m.forward_steps(x, **kw)
                elif k == "K":
                    m.clean_state()
                elif k == "G":
                    self.snap = copy_state(m.get_state())
                elif k == "R":
                    m.set_state(copy_state(self.snap))
                elif k == "W":
                    w.weights(self.m, 1 - v)
        except Exception as e:  # noqa
            obs = caught(e)
        self.g = w.next(self.g, op)
        d = diff(obs, exp, f"{op}")
        if d:
            raise Violation(d, list(self.hist))
        return not nothing(obs)


def tasks(tier):
    T = tier == "thorough"
    out = []
    i = 0
    for n in range(1, 13 if T else 8):
        for learned in (True, False):
            for upd in (None, 0, 1, 2, 3, n, n + 2):
                i += 1
                t = dict(
                    world="props.c14:RpeWorld", n=n, E=[2, 4, 3, 6, 5 if not learned else 1][i % 5], learned=learned, upd=upd, dtype="f32" if i % 4 == 3 else "f64",
                    train=i % 3 == 0, B=1 + i % 2, embed=i % 3 == 1, max_transitions=60000,
                )
                out.append(t)
                if upd in (None, 2):
                    out.append(dict(t, kind="tree", depth=4 if T else 3, alpha="SCsFKGR" if n < 5 else "SsFK"))
        hist = []
        for j in range(40 * n):
            hist.append([["S"], ["C", 1 + j % n], ["S"], ["F", n], ["s"], ["S"]][j % 6] if j % 11 else ["c", n])
        out.append(dict(world="props.c14:RpeWorld", n=n, E=4, learned=False, upd=n + 1, kind="linear", hist=hist))
        out.append(dict(world="props.c14:RpeWorld", n=n, E=4, learned=True, upd=3, kind="linear", hist=hist))
    return out
