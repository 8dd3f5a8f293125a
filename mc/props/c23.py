"""C23 Copies, casts, new weights and mode switches (self oracle: fresh modules left alone)"""
import copy

import torch

from ..explore import Live, Violation, World, caught
from ..tensors import tmap
from ..zoo import world, zoo

BOUNDS = {
    "quick": "73 modules and networks; merged: all histories of span + 2 (at most 6) frames over {step, chunk of 1-2, flush, look-ahead, forward} with "
    "{go on with a deep copy while the original is overwritten, go on with the original while a deep copy is overwritten, train/eval, "
    "reading and preparing (parameters, buffers, state dict, repr, apply, zero_grad, requires_grad_, to, share_memory)} at every point; "
    "all histories of two streams of span + 1 (at most 5) frames with a cast between float64 and float32 at every point, and with weights replaced "
    "in 4 ways (in place, .data, load_state_dict, optimizer step) at every start of a stream; unmerged: all histories of 2 operations after a full window",
    "thorough": "span + 3 frames, unmerged histories of 3 operations",
}
ASSUMPTIONS = [
    "casts while a stream is running only for modules that keep their state in buffers (all but recurrent layers)",
    "weights are replaced between streams only (partial results of earlier frames are kept by convolutions)",
    "no dropout, batch normalisation not in training mode",
]

TAGS = ["", "second"]
HOWS = ["inplace", "data", "load", "sgd"]


class CopyWorld(World):
    """Ghost state: that of World, (index of the weights, dtype, training, requires_grad)"""

    def __init__(self, task):
        self.tag, self.cur, self.memos = "", None, {}
        super().__init__(task)
        self.cur = self.dtype

    def build(self, tag=None):
        return super().build(self.tag if tag is None else tag)

    def cast(self, y):
        return tmap(lambda t: t.to(self.cur) if isinstance(t, torch.Tensor) else t, y)

    def one(self, outs):
        return self.cast(super().one(outs))

    def stack(self, outs):
        return self.cast(super().stack(outs))

    def expected_forward(self, ids):
        return self.cast(super().expected_forward(ids))

    def start(self):
        return (*super().start(), (0, 0, int(self.train), 1))

    def ops(self, g):
        e, n, ended, snap, extra = g
        out = super().ops(g[:4])
        for a in self.task["trans"]:
            if a in ("D", "O", "N"):
                out.append([a])
            elif a == "E" and not self.task["notrain"]:
                out.append([a])
            elif a == "T" and (n == 0 or self.task["buffers"]) and not ended:
                out.append([a])
            elif a == "W" and n == 0:
                out += [[a, h] for h in HOWS]
        return out

    def next(self, g, op):
        w, d, t, r = g[4]
        k = op[0]
        if k == "W":
            w = 1 - w
        elif k == "T":
            d = 1 - d
        elif k == "E":
            t = 1 - t
        elif k == "N":
            r = 1 - r
        elif k not in "DO":
            return (*super().next(g[:4], op), g[4])
        return (*g[:4], (w, d, t, r))

    def live(self):
        return CopyLive(self)


class CopyLive(Live):
    def __init__(self, world):
        world.tag, world.cur = TAGS[0], world.dtype
        super().__init__(world)

    def frame(self, i):
        return self.w.cast(super().frame(i))

    def chunk(self, ids):
        return self.w.cast(super().chunk(ids))

    def apply(self, op):
        w = self.w
        g = self.g
        i, d = g[4][:2]
        w.tag = TAGS[i]
        w.memo = w.memos.setdefault(i, {})
        w.cur = (torch.float64, torch.float32)[d]
        if op[0] not in ("D", "O", "E", "N", "T", "W"):
            self.g = g[:4]
            gave = super().apply(op)
            self.g = (*self.g, g[4])
            return gave
        self.hist.append(op)
        try:
            self.transform(op, g)
        except Exception as exc:  # noqa
            raise Violation(f"{op}: {caught(exc)!r}", list(self.hist)) from exc
        self.g = w.next(g, op)
        return False

    def transform(self, op, g):
        w, m, k = self.w, self.m, op[0]
        if k in ("D", "O"):
            other = copy.deepcopy(m)
            if k == "D":
                m, other = other, m
            self.overwrite(other)
            self.m = m
        elif k == "E":
            m.train(not g[4][2])
        elif k == "N":
            for s in m.modules():
                repr(s)
                for a in ("delay", "receptive_field", "stride", "padding", "call_mode", "training"):
                    getattr(s, a, None)
            m.zero_grad()
            m.requires_grad_(not g[4][3])
            m.to(w.cur)
            m.to("cpu")
            m.apply(lambda s: None)
            m.share_memory()
            if hasattr(m, "get_state"):
                m.get_state()
            list(m.named_buffers()), list(m.named_parameters())
            m.load_state_dict(copy.deepcopy(m.state_dict()))
        elif k == "T":
            m.to((torch.float32, torch.float64)[g[4][1]])
        elif k == "W":
            src = World.build(w, TAGS[1 - g[4][0]]).to(w.cur)
            if op[1] == "load":
                m.load_state_dict(src.state_dict())
                return
            theirs = dict(src.named_buffers())
            with torch.no_grad():
                for n, b in m.named_buffers():
                    if "running" in n:
                        b.copy_(theirs[n])
            theirs = dict(src.named_parameters())
            ps = list(m.named_parameters())
            if op[1] == "inplace":
                with torch.no_grad():
                    for n, p in ps:
                        p.copy_(theirs[n])
            elif op[1] == "data":
                for n, p in ps:
                    p.data = theirs[n].detach().clone()
            elif ps:
                opt = torch.optim.SGD([p for _, p in ps], lr=1.0)
                for n, p in ps:
                    p.grad = p.detach() - theirs[n].detach()
                opt.step()
                m.zero_grad()

    def overwrite(self, m):
        """Nothing that happens to the other module matters"""
        w = self.w
        with torch.no_grad():
            x = w.cast(w.get(("j", 0, 1)))
            m.forward_step(tmap(lambda t: t * 3 + 1, x))
            for p in m.parameters():
                p.fill_(7.0)
            for n, b in m.named_buffers():
                if b.is_floating_point():
                    b.fill_(0.5)
            m.clean_state()
            m.forward_step(x)
        m.train(not m.training)
        m.to(torch.float32 if w.cur == torch.float64 else torch.float64)
        m.call_mode = "forward_steps"


def tasks(tier):
    T = tier == "thorough"
    out = []
    for i, e in enumerate(zoo()):
        rnn = "'rnn'" in repr(e["tree"])
        top = min(e.get("cmax", 99), 2)
        W = dict(world="props.c23:CopyWorld", notrain=e["notrain"], buffers=not rnn, junk=1, cj=[2], pj=[2], pmax=1, cmax=top, FT=[min(e.get("cmax", 99), e["span"] + 1)])
        n = e["span"] + (3 if T else 2)
        pre = [["S"]] * e["span"]
        a = ["S", "C", "P", "s", "F"]
        t = dict(W, trans=["D", "O", "E", "N"], epochs=1)
        out.append(world(e, a, **dict(t, tag="copy", N=min(n, 8 if T else 6))))
        out.append(world(e, a, **dict(t, tag="copytree", N=e["span"] + 6, kind="tree", depth=3 if T else 2, prefix=pre)))
        n -= 1
        a = ["S", "C", "F", "s", "K"]
        out.append(world(e, a, **dict(W, trans=["W", "E"], epochs=2, tag="weights", N=min(n, 7 if T else 5))))
        out.append(world(e, a, **dict(W, trans=["W", "E"], epochs=2, tag="weightstree", N=e["span"] + 6, kind="tree", depth=3 if T else 2, prefix=pre + [["K"]])))
        t = dict(W, trans=["T", "D"], rtol=1e-3, tag="cast")
        out.append(world(e, a, **dict(t, epochs=2, N=min(n, 7 if T else 5))))
        out.append(world(e, a + ["P"], **dict(t, epochs=2, tag="casttree", N=e["span"] + 6, kind="tree", depth=3 if T else 2, prefix=pre)))
    return out
