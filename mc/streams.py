"""Worlds with several streams over one or more instances (C06, C18)."""
import copy

import torch

from .explore import Live, Violation, World, caught, clone
from .tensors import copy_state, diff, digest, fingerprint, nothing, tmap


class StreamWorld(World):
    """`streams` streams share `instances` instances with the same weights by exchanging states.

    ["T", i, j, m]: instance m takes over stream i (state of the stream it held is saved first) and
    processes its next j frames: j == 0 by forward_step, j > 0 by forward_steps.
    mode "hold": a stream stays in its instance until another is loaded; "ext": the state is saved
    after and loaded before every call."""

    def start(self):
        return tuple([0] * self.task["streams"])

    def ops(self, g):
        out = []
        for i, n in enumerate(g):
            for j in self.task["js"]:
                if n + max(j, 1) <= self.N:
                    for m in range(self.task.get("instances", 1)):
                        out.append(["T", i, j, m])
        return out

    def next(self, g, op):
        return tuple(n + (max(op[2], 1) if i == op[1] else 0) for i, n in enumerate(g))

    def live(self):
        return StreamLive(self)


class TwinWorld(StreamWorld):
    """Independent instances: instance i processes stream i.

    ["T", i, j, i]; ["K", i] clean_state (the stream then starts over).
    `copy_at`: instance 1 is a deep copy of instance 0 after that many frames."""

    def __init__(self, task):
        super().__init__(task)
        p = task.get("copy_at", 0)
        if p:
            self.X[1][:p] = self.X[0][:p]
            self.memo.clear()

    def start(self):
        return tuple([self.task.get("copy_at", 0)] * 2)

    def ops(self, g):
        out = [["T", i, j, i] for i, n in enumerate(g) for j in self.task["js"] if n + max(j, 1) <= self.N]
        if self.task.get("clean"):
            out += [["K", i] for i in range(2) if g[i]]
        return out

    def next(self, g, op):
        if op[0] == "K":
            return tuple(0 if i == op[1] else n for i, n in enumerate(g))
        return super().next(g, op)

    def live(self):
        return TwinLive(self)

    def build(self, tag=None):
        # same weights for copies, otherwise per instance
        if "copy_at" in self.task:
            tag = ""
        return super().build(str(self.which if tag is None else tag))

    which = 0

    def expected(self, pre, new, end=False):
        self.which = new[0][1]
        return super().expected(pre, new, end)


class StreamLive(Live):
    def __init__(self, world):
        self.w = world
        self.ms = [world.build() for _ in range(world.task.get("instances", 1))]
        self.g = world.start()
        self.slots = [None] * world.task["streams"]
        self.held = [None] * len(self.ms)
        self.hist = []

    def key(self):
        return (self.g, tuple(self.held), tuple(fingerprint(m) for m in self.ms), digest(self.slots))

    def apply(self, op):
        w = self.w
        _, i, j, k = op
        self.hist.append(op)
        m = self.ms[k]
        n = self.g[i]
        new = w.ids("x", i, n, n + max(j, 1))
        exp = None
        try:
            with torch.no_grad():
                out = w.expected(w.ids("x", i, 0, n), new)
                exp = w.one(out) if j == 0 else w.stack(out)
                if w.task.get("mode") == "ext" or self.held[k] != i:
                    # save what the instances hold of the streams involved, load stream i
                    for l, h in enumerate(self.held):
                        if h is not None and (l == k or h == i):
                            self.slots[h] = copy_state(self.ms[l].get_state())
                            self.held[l] = None
                    if self.slots[i] is None:
                        m.clean_state()
                    else:
                        m.set_state(copy_state(self.slots[i]))
                    self.held[k] = i
                if j == 0:
                    obs = m.forward_step(clone(w.get(new[0])))
                else:
                    obs = m.forward_steps(w.clip(w.frames(new)))
                if w.task.get("mode") == "ext":
                    self.slots[i] = copy_state(m.get_state())
                    self.held[k] = None
        except Exception as exc:  # noqa
            obs = caught(exc)
        self.g = w.next(self.g, op)
        d = diff(obs, exp, f"{op}", **w.kw)
        if d:
            raise Violation(d, list(self.hist))
        return not nothing(obs)


class TwinLive(Live):
    def __init__(self, world):
        self.w = world
        self.hist = []
        self.g = world.start()
        p = world.task.get("copy_at")
        if p is None:
            self.ms = [world.build(0), world.build(1)]
        else:
            a = world.build()
            with torch.no_grad():
                for i in world.ids("x", 0, 0, p):
                    a.forward_step(clone(world.get(i)))
                try:
                    b = copy.deepcopy(a)
                except Exception as exc:  # noqa
                    raise Violation(f"deepcopy: {exc!r}", [])
            self.ms = [a, b]

    def key(self):
        return (self.g, tuple(fingerprint(m) for m in self.ms))

    def apply(self, op):
        w, i = self.w, op[1]
        self.hist.append(op)
        m, n = self.ms[i], self.g[i]
        exp = obs = None
        try:
            with torch.no_grad():
                if op[0] == "K":
                    m.clean_state()
                else:
                    j = op[2]
                    new = w.ids("x", i, n, n + max(j, 1))
                    out = w.expected(w.ids("x", i, 0, n), new)
                    exp = w.one(out) if j == 0 else w.stack(out)
                    if j == 0:
                        obs = m.forward_step(clone(w.get(new[0])))
                    else:
                        obs = m.forward_steps(w.clip(w.frames(new)))
        except Exception as exc:  # noqa
            obs = caught(exc)
        self.g = w.next(self.g, op)
        d = diff(obs, exp, f"{op}", **w.kw)
        if d:
            raise Violation(d, list(self.hist))
        return not nothing(obs)


class MemWorld(World):
    """Inputs are views of larger tensors. mem == "keep": no call may change any input or any output
    returned earlier. mem == "poison": after every call its inputs and outputs are overwritten."""

    def live(self):
        return MemLive(self)


class MemLive(Live):
    def __init__(self, world):
        super().__init__(world)
        self.kept = []
        self.passed = []

    def frame(self, i):
        # a slice of a clip, as in forward_step(x[:, :, t])
        w = self.w
        f = w.get(i)
        big = tmap(lambda x: torch.stack([x + 1, x, x - 1], 2), f)
        view = tmap(lambda x: x[:, :, 1], big)
        self.passed = [(big, clone(big), view)]
        return view

    def chunk(self, ids):
        w = self.w
        f = w.frames(ids)
        n = len(f)
        big = w.clip([f[0], *f, f[-1]])
        view = tmap(lambda x: x.narrow(w.tdim, 1, n), big)
        self.passed = [(big, clone(big), view)]
        return view

    def done(self, obs):
        for big, was, view in self.passed:
            d = diff(big, was, "input tensor after the call", rtol=0, atol=0)
            if d:
                raise Violation(d, list(self.hist))
        for hist, out, was in self.kept:
            d = diff(out, was, f"output returned earlier by call {hist}", rtol=0, atol=0)
            if d:
                raise Violation(d, list(self.hist))
        if self.w.task["mem"] == "poison":
            for _, _, view in self.passed:
                tmap(lambda x: x.fill_(777.0), view)
            if not nothing(obs):
                tmap(lambda x: None if x is None else x.fill_(-555.0), obs)
        elif not nothing(obs):
            self.kept.append((len(self.hist), obs, clone(obs)))
        self.passed = []
