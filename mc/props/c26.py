"""C26 Modules written against the CoModule interface stream like the library's own (reference: nets, windows in index arithmetic)

The user modules below implement `_forward_step` with a state in all the forms the interface allows (or override
forward_step and forward_steps) and take everything else from the base class and the containers.
"""
import torch
from torch import nn

from .. import nets
from ..explore import World
from .c01 import conv
from .c02 import pool

BOUNDS = {
    "quick": "user modules of 6 kinds (state of tensors, of a tensor and integers, re-created or updated in place, in an attribute with overridden "
    "methods, unbounded memory, no state) with kernel 1-4, stride 1-3, paddings < kernel, attributes given as class attributes, instance attributes or properties; "
    "alone and in 40 networks; all histories of delay + 2 * stride + 4 frames (alone) over {step, chunk, end-padded chunk, look-aheads, forward, clean, "
    "save, restore, move}; unmerged: all histories of 3 operations after a full window",
    "thorough": "longer streams, unmerged histories of 4 operations",
}
ASSUMPTIONS = [
    "a state is a tuple whose first element is the only tensor that may be written in place",
    "padding frames are zeros (the default of the interface)",
    "a user module derives from CoModule and torch.nn.Module in this order",
]
KINDS = ["tensors", "ints", "fresh", "own"]


def window(k, s, p, kind, attrs):
    import continual as co

    class Base(co.CoModule, nn.Module):
        def __init__(self):
            nn.Module.__init__(self)
            self.w = nn.Parameter(torch.ones(k))
            if attrs == "instance":
                self.receptive_field, self.stride, self.padding = k, (s,), (p,)
            self._mem = None

        def forward(self, x):
            x = nn.functional.pad(x, [p, p])
            T = x.shape[2]
            return torch.stack([(x[:, :, i : i + k] * self.w).sum(2) for i in range(0, T - k + 1, s)], 2)

        def get_state(self):
            return self._mem

        def set_state(self, state):
            self._mem = state

        def clean_state(self):
            self._mem = None

    if attrs == "class":
        Base.receptive_field, Base.stride, Base.padding = k, (s,), (p,)
    elif attrs == "property":
        Base.receptive_field = property(lambda self: k)
        Base.stride = property(lambda self: (s,))
        Base.padding = property(lambda self: (p,))

    def out(m, frames, n):
        """Frame n has arrived; frames: the last k, oldest first"""
        j = n + p - (k - 1)
        return sum(f * m.w[i] for i, f in enumerate(frames)) if j >= 0 and j % s == 0 else None

    class Tensors(Base):
        def _forward_step(self, x, state=None):
            buf, n = state if state is not None else (x.new_zeros(k, *x.shape), torch.tensor(0))
            i = int(n)
            buf[i % k] = x
            return out(self, [buf[(i + 1 + j) % k] for j in range(k)], i), (buf, n + 1)

    class Ints(Base):
        def _forward_step(self, x, state=None):
            buf, i = state or (x.new_zeros(k, *x.shape), 0)
            buf[i % k] = x
            return out(self, [buf[(i + 1 + j) % k] for j in range(k)], i), (buf, i + 1)

    class Fresh(Base):
        def _forward_step(self, x, state=None):
            buf, i = state or (x.new_zeros(k, *x.shape), 0)
            buf = torch.cat([buf[1:], x[None]])
            return out(self, list(buf), i), (buf, i + 1)

    class Own(Base):
        def _one(self, x, mem):
            i = 0 if mem is None else mem[1]
            old = [torch.zeros_like(x)] * k if mem is None else mem[0]
            frames = [*old[1:], x]
            return out(self, frames, i), (frames, i + 1)

        def _forward_step(self, x, state=None):
            return self._one(x, state)

        def forward_step(self, x, update_state=True):
            y, mem = self._one(x, self._mem)
            if update_state:
                self._mem = mem
            return y

        def forward_steps(self, x, pad_end=False, update_state=True):
            mem, outs = self._mem, []
            for t in range(x.shape[2]):
                y, mem = self._one(x[:, :, t], mem)
                outs += [] if y is None else [y]
            if update_state:
                self._mem = mem
            for _ in range(p if pad_end else 0):
                y, mem = self._one(torch.zeros_like(x[:, :, 0]), mem)
                outs += [] if y is None else [y]
            return torch.stack(outs, 2) if outs else None

    return dict(tensors=Tensors, ints=Ints, fresh=Fresh, own=Own)[kind]()


def ema():
    import continual as co

    class Ema(co.CoModule, nn.Module):
        def __init__(self):
            nn.Module.__init__(self)
            self.mem = None

        def _forward_step(self, x, state=None):
            (buf,) = state or (torch.zeros_like(x),)
            buf.mul_(0.5).add_(x)
            return buf.clone(), (buf,)

        def forward(self, x):
            y, state = [], None
            for t in range(x.shape[2]):
                z, state = self._forward_step(x[:, :, t], state)
                y.append(z)
            return torch.stack(y, 2)

        def get_state(self):
            return self.mem

        def set_state(self, state):
            self.mem = state

        def clean_state(self):
            self.mem = None

    return Ema()


def local():
    import continual as co

    class Local(co.CoModule, nn.Module):
        def forward(self, x):
            return x * x + 1

        def _forward_step(self, x, state=None):
            return self.forward(x), state

    return Local()


class User(nets.Conv):
    def __init__(self, k, s=1, p=0, kind="tensors", attrs="class"):
        super().__init__(1, 2, 2, k, s, p)
        self.kind, self.attrs = kind, attrs

    def make(self):
        return window(self.k[0], self.s[0], self.p[0], self.kind, self.attrs)

    def bind(self, m):
        self.w = m.w.detach().clone()

    def _conv(self, frames):
        k, s = self.k[0], self.s[0]
        return [sum(frames[i + j] * self.w[j] for j in range(k)) for i in range(0, len(frames) - k + 1, s)]


class Ema(nets.Node):
    stateful = True

    def make(self):
        return ema()

    def stream(self, xs, end=False):
        out, y = [], 0
        for i, x in enumerate(xs):
            y = y * 0.5 + x
            out.append((i, y))
        return out

    def delay(self):
        return 0


class Local(nets.Node):
    def make(self):
        return local()

    def frame(self, x):
        return x * x + 1

    def delay(self):
        return 0


nets.KINDS.update(user=User, ema=Ema, local=Local)


class UserWorld(World):
    pass


def c(k, s=1, p=0):
    return conv(1, k, s, p)


def networks():
    ATTRS = ["class", "instance", "property"]
    n = 0

    def u(k, s=1, p=0):
        nonlocal n
        n += 1
        return ["user", k, s, p, KINDS[n % 4], ATTRS[n % 3]]

    out = []
    for _ in range(2):
        out += [
            ["seq", u(3), c(2)],
            ["seq", c(2), u(3, 1, 1)],
            ["seq", u(2, 2), u(2)],
            ["seq", ["nn", "ReLU"], u(1, 2), pool("Max", 1, 2, 1), ["local"]],
            ["seq", u(3, 2, 1), ["seq", u(2), ["ema"]]],
            ["seq", ["ema"], c(3)],
            ["res", u(3, 1, 1)],
            ["res", ["seq", u(3, 1, 1), ["local"]]],
            ["res", u(3), dict(shrink=True)],
            ["res", u(4), dict(shrink="lagging")],
            ["br", "sum", u(3, 1, 1), c(1)],
            ["br", "sum", c(3, 1, 1), u(1)],
            ["br", "concat", ["local"], u(5, 1, 2), c(3, 1, 1)],
            ["br", "mul", u(3, 2, 1), ["seq", c(1, 2), u(1)]],
            ["br", "max", ["ema"], u(3, 1, 1)],
            ["par", "sum", u(3, 1, 1), u(1), ["fn", "id"]],
            ["cond", "yes", u(3), c(1)],
            ["cond", "no", c(3), ["seq", u(2), ["local"]]],
            ["seq", ["bcast", 2], ["parallel", u(3, 1, 1), ["fn", "add", 1]], ["dispatch", [1, 0]], ["parallel", ["fn", "id"], u(1)], ["reduce", "sum"]],
            ["seq", u(2), ["res", ["seq", c(3, 1, 1), u(3, 1, 1)]], u(2, 2)],
        ]
    return out


def tasks(tier):
    T = tier == "thorough"
    out = []

    def add(tree, alpha, alone):
        node = nets.parse(tree)
        ft = [t for t in range(node.delay() + 2, 40) if node.length(t)][:2]
        rate = getattr(node, "rate", lambda: 1)()
        N = node.delay() + 2 * rate + (6 if T else 4 if alone else 3)
        flush = node.any_flush() or alone
        t = dict(
            tree=tree, C=2, B=2, N=N, alpha=[a for a in alpha if flush or a not in "Pp"], FT=ft, cj=[2], pj=[1], junk=1, used=2, cmax=99 if T else 3 if alone else 2, pmax=3,
            epochs=1, world="props.c26:UserWorld", cost=N * len(repr(tree)), train=len(out) % 3 == 1,
        )
        out.append(t)
        out.append(dict(t, alpha=["S", "K", "F", "G", "R", "M"], epochs=2, N=min(N, 5), cost=10))
        out.append(dict(t, kind="tree", depth=4 if T else 3, N=N + 6, cmin=2, cmax=2, prefix=[["S"]] * (node.delay() + 1), data=1))

    for i, attrs in enumerate(("class", "instance", "property")):
        for kind in KINDS:
            for k in range(1, 5):
                for s in range(1, 4):
                    for p in range(k):
                        if not T and (k + s + p) % 3 != i:
                            continue
                        add(["user", k, s, p, kind, attrs], ["S", "C", "P", "s", "c", "p", "F", "G", "R", "M"], True)
    add(["ema"], ["S", "C", "s", "c", "F", "G", "R", "M"], True)
    add(["local"], ["S", "C", "s", "c", "F", "M"], True)
    for t in networks():
        add(t, ["S", "C", "P", "s", "c", "F", "G", "R", "M"], False)
    return out
