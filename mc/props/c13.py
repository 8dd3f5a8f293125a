"""C13 Streaming a recurrent network equals running it over the clip (reference: cell equations and torch.nn)"""
import itertools

import torch
from torch import nn

from ..explore import Violation, World, caught, clone
from ..nets import parse
from ..tensors import copy_state, data, diff, fingerprint, init_weights, nothing

BOUNDS = {
    "quick": "RNN (tanh, relu), GRU, LSTM (with and without projections), also with all sizes 1, x 1-3 layers x bias x batch sizes 1-2 x {built, converted}: "
    "all histories of steps, chunks of every size, look-aheads, setting one of two hidden states, saving, restoring, cleaning, "
    "forward with and without hidden state over 3 frames; all unmerged histories of 3 operations; streams of 60 frames",
    "thorough": "all histories over 5 frames, unmerged histories of 4 operations, streams of 300 frames",
}
ASSUMPTIONS = ["no dropout between layers in training mode", "tensors, not packed sequences"]


class RnnWorld(World):
    """Ghost state: (initial state of this stream: 0 zeros, 1 or 2 set; first frame, next frame; copy saved at)

    Operations: S, C j, P j, s f, c j f, p j f as in World; H v (set hidden state v), K, G, R;
    F T v: forward over T frames from hidden state v (0: not given, -1: given as zeros)"""

    def __init__(self, task):
        super().__init__(task)
        n = self.node
        mk = lambda d, *k: data((n.layers, self.B, d), "h", *k, dtype=self.dtype) * 0.5  # noqa: E731
        self.H = [None] + [[mk(n.proj or n.hid, v, 0), mk(n.hid, v, 1)] for v in (1, 2)]

    def build(self, tag=""):
        import continual as co

        n, t = self.node, self.task
        kw = dict(num_layers=n.layers, bias=n.bias_)
        if n.nl:
            kw["nonlinearity"] = n.nl
        if n.proj:
            kw["proj_size"] = n.proj
        if t.get("dropout"):
            kw["dropout"] = t["dropout"]
        self.twin = getattr(nn, n.cls)(n.cin, n.hid, batch_first=True, **kw).to(self.dtype).train(self.train)
        if t.get("how") == "from":
            src = getattr(nn, n.cls)(n.cin, n.hid, batch_first=bool(t.get("bf")), **kw).to(self.dtype).train(self.train)
            m = co.continual(src)
        else:
            m = getattr(co, n.cls)(n.cin, n.hid, **kw).to(self.dtype).train(self.train)
        init_weights(m)
        self.twin.load_state_dict(nn.Module.state_dict(m))
        return m

    def given(self, v):
        """Hidden state in the form the user passes it"""
        if v == -1:
            z = [torch.zeros_like(h) for h in self.H[1]]
        else:
            z = [h.clone() for h in self.H[v]]
        return tuple(z) if self.node.cls == "LSTM" else z[0]

    def start(self):
        return (0, 0, 0, None)

    def ops(self, g):
        v, a, n, snap = g
        left = self.N - n
        al = self.task["alpha"]
        out = [["S"]] if left and "S" in al else []
        for j in range(1, left + 1):
            for k in "CP":
                if k in al:
                    out.append([k, j])
        out += [["s", f] for f in (0, 1) if "s" in al]
        out += [[k, j, 0] for k in "cp" if k in al for j in (1, 2)]
        out += [["F", T, u] for T in (1, 3) for u in ((0, 1) if T == 3 else (-1,)) if "F" in al]
        out += [["H", u] for u in (1, 2) if "H" in al]
        if "K" in al:
            out.append(["K"])
        if "G" in al and snap is None:
            out.append(["G"])
        if "R" in al and snap is not None:
            out.append(["R"])
        return out

    def next(self, g, op):
        v, a, n, snap = g
        k = op[0]
        if k == "S":
            return (v, a, n + 1, snap)
        if k in "CP":
            return (v, a, n + op[1], snap)
        if k == "H":
            return (op[1], n, n, snap)
        if k == "K":
            return (0, n, n, snap)
        if k == "G":
            return (v, a, n, (v, a, n))
        if k == "R":
            # the stream goes on with other frames: frames keep their numbers
            return (*snap[:2], snap[2], snap)
        return g

    def live(self):
        return RnnLive(self)

    def outputs(self, v, pre, new):
        key = (v, pre, new)
        if key not in self.memo:
            hs = None
            if v:
                h, c = self.H[v]
                hs = [(h[i], c[i]) for i in range(self.node.layers)]
            with torch.no_grad():
                self.memo[key] = self.node.run(self.frames(pre + new), hs)[0][len(pre) :]
        return self.memo[key]

    def clip_outputs(self, v, ids):
        x = torch.stack(self.frames(ids), 1)
        with torch.no_grad():
            y, h = self.twin(x, *([self.given(v)] if v else []))
        return [y.transpose(1, 2), list(h) if isinstance(h, tuple) else h]


class RnnLive:
    def __init__(self, w):
        self.w, self.m, self.g, self.hist, self.snap = w, w.build(), w.start(), [], None
        w.node.bind(self.m)

    def key(self):
        return (self.g, fingerprint(self.m))

    def apply(self, op):
        w, m, k = self.w, self.m, op[0]
        v, a, n, _ = self.g
        self.hist.append(op)
        pre = w.ids("x", 0, a, n)
        obs = exp = None
        try:
            with torch.no_grad():
                if k in "Ss":
                    ids = w.ids("x", 0, n, n + 1) if k == "S" else w.ids("j", op[1], 0, 1)
                    exp = w.outputs(v, pre, ids)[0]
                    obs = m.forward_step(clone(w.get(ids[0])), **({} if k == "S" else dict(update_state=False)))
                elif k in "CPcp":
                    ids = w.ids("x", 0, n, n + op[1]) if k in "CP" else w.ids("j", op[2], 0, op[1])
                    exp = torch.stack(w.outputs(v, pre, ids), 2)
                    kw = dict(pad_end=True) if k in "Pp" else {}
                    if k in "cp":
                        kw["update_state"] = False
                    obs = m.forward_steps(w.clip(w.frames(ids)), **kw)
                elif k == "F":
                    ids = w.ids("j", 1, 0, op[1])
                    exp = w.clip_outputs(op[2], ids)
                    y = m.forward(w.clip(w.frames(ids)), *([w.given(op[2])] if op[2] else []))
                    obs = [y[0], list(y[1]) if isinstance(y[1], tuple) else y[1]]
                elif k == "H":
                    m.set_state(w.given(op[1]))
                elif k == "K":
                    m.clean_state()
                elif k == "G":
                    self.snap = copy_state(m.get_state())
                elif k == "R":
                    m.clean_state() if self.snap is None else m.set_state(copy_state(self.snap))
        except Exception as e:  # noqa
            obs = caught(e)
        self.g = w.next(self.g, op)
        d = diff(obs, exp, f"{op}", **w.kw)
        if d:
            raise Violation(d, list(self.hist))
        return not nothing(obs)


CELLS = [("RNN", None), ("RNN", "tanh"), ("RNN", "relu"), ("GRU", None), ("LSTM", None), ("LSTM", 2), ("LSTM", 1)]


def tasks(tier):
    T = tier == "thorough"
    out = []
    i = 0
    # the second of a cell: its nonlinearity or the size of its projection
    for (cls, nl), layers, bias, (how, bf) in itertools.product(CELLS, (1, 2, 3), (True, False), (("direct", 0), ("from", 0), ("from", 1))):
        i += 1
        cin, hid = [(2, 3), (3, 2), (2, 2), (1, 3)][i % 4]
        kw = {"proj" if cls == "LSTM" else "nonlinearity": nl} if nl else {}
        if cls == "LSTM" and nl:
            cin, hid = [(2, 3), (1, 4), (3, 3), (2, 5)][i % 4]
        t = dict(
            world="props.c13:RnnWorld", tree=["rnn", cls, cin, hid, dict(layers=layers, bias=bias, **kw)], C=cin, B=1 + i % 2, N=5 if T else 3,
            how=how, bf=bf, alpha=list("SCscFHK" + ("GR" if i % 3 == 2 or T else "") + ("Pp" if i % 3 == 0 or T else "")), epochs=1, dtype="f32" if i % 5 == 4 else "f64", train=i % 3 == 0,
            dropout=0.4 if i % 3 == 1 and layers > 1 else 0,
        )
        out.append(t)
        if i % 2 or T:
            out.append(dict(t, kind="tree", depth=4 if T else 3, alpha=list("SCsFH") + (["G", "R"] if i % 2 else ["K"]), N=3))
        N = 300 if T else 60
        hist, left, j = [], N, 0
        while left:
            j += 1
            c = min(left, [1, 2, 1, 1, 5, 1, 3][j % 7])
            hist.append(["S"] if c == 1 else ["C", c])
            left -= c
            if j % 5 == 0:
                hist.append(["s", j % 2])
            if j % 11 == 7:
                hist.append(["H", 1 + j % 2])
            if j % 13 == 0:
                hist.append(["F", 3, 1])
        out.append(dict(t, kind="linear", N=N, hist=hist))
        if how == "direct":  # dimensions of size 1
            kw.pop("proj", 0)
            out.append(dict(t, tree=["rnn", cls, 1, 1, dict(layers=layers, bias=bias, **kw)], C=1, B=1, N=3, alpha=list("SCscFHK")))
    return out
