"""C10 Conditional runs exactly the selected module"""
import itertools

import torch

from .. import nets
from ..explore import Violation, caught, dt
from ..tensors import copy_state, data, diff, fingerprint, init_weights, nothing, observable
from .c01 import conv
from .c02 import pool

BOUNDS = {
    "quick": "all histories of predicate outcomes x {step, chunk of 2-3, end-padded chunk, look-ahead step/chunk, forward, "
    "clean, save, restore} over 4-5 frames for all ordered pairs of 9 members (stateless, padded, strided, recurrent, none), "
    "alone, inside Sequential and inside Residual/BroadcastReduce; histories of 14 steps for all periodic outcomes",
    "thorough": "6 frames; 14 members; more embeddings",
}
ASSUMPTIONS = [
    "both members return the same temporal rate",
    "end-padded calls of a member behind an automatic delay follow Sequential(Delay, member)",
]



class Predicate:
    """Scripted outcome; records what it is called with"""

    def __init__(self):
        self.outcome, self.calls = None, []

    def __call__(self, module, x):
        self.calls.append((module, x))
        return self.outcome


class CondWorld:
    """task: yes, no (trees or None), pre, post (trees or None), N, alpha, kinds of outcomes.

    Operations: as in World, with the outcome of the predicate as last entry"""

    def __init__(self, task):
        self.task = task
        self.dtype = dt(task.get("dtype", "f64"))
        self.N = task["N"]
        C = task.get("C", 2)
        mk = lambda *k: data((task.get("B", 1), C, *task.get("sp", ())), *k, dtype=self.dtype)  # noqa: E731
        self.X = [[mk("x", e, t) for t in range(self.N + 1)] for e in range(3)]
        self.J = [mk("j", t) * 3 for t in range(8)]

    def part(self, key):
        tree = self.task.get(key)
        if tree is None:
            return None
        m = nets.parse(tree).make()
        import continual as co

        m = m if co.CoModule.is_valid(m) else co.continual(m)
        m = m.to(self.dtype)
        m.train(bool(self.task.get("train")))
        return init_weights(m, key)

    def start(self):
        return (0, 0, False, None)

    def ops(self, g):
        e, n, ended, snap = g
        left = self.N - n
        out = []
        alpha = self.task["alpha"]
        for b in (1, 0):
            if not ended:
                if "S" in alpha and left:
                    out.append(["S", b])
                for j in self.task.get("cj", (2, 3)):
                    if "C" in alpha and left >= j:
                        out.append(["C", j, b])
                    if "c" in alpha and j < 3:
                        out.append(["c", j, b])
                    if "P" in alpha and left >= j:
                        out.append(["P", j, b])
                    if "p" in alpha and j < 3:
                        out.append(["p", j, b])
                if "s" in alpha:
                    out.append(["s", b])
            if "F" in alpha:
                out += [["F", T, b] for T in self.task.get("FT", (3, 4))]
        if "K" in alpha and e < 1 and n:
            out.append(["K"])
        if "G" in alpha and snap is None and not ended:
            out.append(["G"])
        if "R" in alpha and snap is not None:
            out.append(["R"])
        return out

    def next(self, g, op):
        e, n, ended, snap = g
        k = op[0]
        if k == "S":
            return (e, n + 1, ended, snap)
        if k in ("C", "P"):
            return (e, n + op[1], ended or (k == "P" and bool(self.task.get("ends"))), snap)
        if k == "K":
            return (e + 1, 0, False, snap)
        if k == "G":
            return (e, n, ended, (e, n))
        if k == "R":
            return (*snap, False, snap)
        return g

    def live(self):
        return CondLive(self)


class CondLive:
    def __init__(self, w):
        import continual as co

        self.w = w
        self.g = w.start()
        self.hist = []
        self.pred = Predicate()
        t = w.task
        yes, no = w.part("yes"), w.part("no")
        self.cond = co.Conditional(self.pred, yes, *([no] if no is not None else []))
        parts = [p for p in (w.part("pre"), self.cond, w.part("post")) if p is not None]
        self.net = self.wrap(parts)
        # the same parts, on their own
        ya, na = w.part("yes"), w.part("no")
        D = max(ya.delay, na.delay if na is not None else 0)
        lag = lambda m: [m] if m is None or m.delay == D else [co.Delay(D - m.delay), m]  # noqa: E731
        self.alone = dict(pre=[w.part("pre")], post=[w.part("post")], yes=lag(ya), no=lag(na))
        self.alone = {k: [m for m in v if m is not None] for k, v in self.alone.items()}
        self.res = co.Delay(self.cond.delay) if t.get("embed") == "residual" else None
        self.snap = None
        if self.cond.delay != D:
            raise Violation(f"delay {self.cond.delay}, expected {D}", [])

    def wrap(self, parts):
        import continual as co

        e = self.w.task.get("embed")
        if e == "residual":
            return co.BroadcastReduce(self.cond, co.Delay(self.cond.delay), reduce="sum")
        return parts[0] if len(parts) == 1 else co.Sequential(*parts)

    def key(self):
        return (self.g, fingerprint(self.net), tuple(fingerprint(m) for v in self.alone.values() for m in v), self.snap is None)

    def chain(self, ms, f, x):
        """Call the modules one after the other, until one returns nothing"""
        for m in ms:
            x = f(m, x)
            if nothing(x):
                return None
        return x

    def apply(self, op):
        w = self.w
        e, n, _, _ = self.g
        k, b = op[0], op[-1]
        self.hist.append(op)
        obs = exp = None
        try:
            with torch.no_grad():
                if k == "K":
                    self.net.clean_state()
                    for m in self.modules():
                        m.clean_state()
                elif k == "G":
                    self.snap = copy_state(self.net.get_state()), [copy_state(m.get_state()) for m in self.modules()]
                elif k == "R":
                    for m, s in zip([self.net, *self.modules()], [self.snap[0], *self.snap[1]]):
                        m.clean_state() if s is None else m.set_state(copy_state(s))
                else:
                    obs, exp = self.call(op, e, n, b)
        except Violation:
            raise
        except Exception as exc:  # noqa
            obs = caught(exc)
        self.g = w.next(self.g, op)
        d = diff(obs, exp, f"{op}")
        if d:
            raise Violation(d, list(self.hist))
        return not nothing(obs)

    def modules(self):
        return [m for v in self.alone.values() for m in v] + ([self.res] if self.res is not None else [])

    def call(self, op, e, n, b):
        w, k = self.w, op[0]
        kw = {}
        if k in ("S", "s"):
            x = w.X[e][n] if k == "S" else w.J[2]
            f = lambda m, x: m.forward_step(x, **kw)  # noqa: E731
        elif k == "F":
            x = torch.stack(w.J[: op[1]], 2)

            def f(m, x):
                y = m.forward(x)
                return y[0] if isinstance(y, tuple) else y
        else:
            x = torch.stack(w.X[e][n : n + op[1]] if k in "CP" else w.J[: op[1]], 2)
            f = lambda m, x: m.forward_steps(x, **kw)  # noqa: E731
            if k in "Pp":
                kw["pad_end"] = True
        if k in "scp":
            kw["update_state"] = False
        # expected
        pre = self.chain(self.alone["pre"], f, x.clone())
        exp, seen = None, None
        sel = self.alone["yes" if b else "no"]
        if not nothing(pre):
            seen = pre.clone()
            mid = self.chain(sel, f, pre.clone())
            if self.res is not None:
                r = f(self.res, pre.clone())
                exp = None if nothing(mid) or nothing(r) else mid + r
            else:
                exp = None if nothing(mid) else self.chain(self.alone["post"], f, mid)
        # observed
        self.pred.outcome = [bool(b), torch.tensor(bool(b)), b][(n + len(self.hist)) % 3]
        self.pred.calls = []
        kids = list(self.cond.children())
        others = [m for i, m in enumerate(kids) if i != (0 if b else 1)]
        before = [observable(m) for m in others]
        ran = []
        hooks = []
        for i, m in enumerate(kids):
            for sub in m.modules():
                hooks.append(sub.register_forward_hook(lambda *_, i=i: ran.append(i)))
        for m in self.w_counters():
            m.clear()
        given = x.clone()
        try:
            obs = f(self.net, given)
        finally:
            for h in hooks:
                h.remove()
        if seen is None:
            if self.pred.calls:
                raise Violation(f"{op}: predicate evaluated without input", list(self.hist))
        else:
            if len(self.pred.calls) != 1:
                raise Violation(f"{op}: predicate evaluated {len(self.pred.calls)} times", list(self.hist))
            mod, arg = self.pred.calls[0]
            if mod is not self.cond:
                raise Violation(f"{op}: predicate called with {type(mod).__name__}", list(self.hist))
            d = diff(arg, seen, f"{op}: input of the predicate")
            if d:
                raise Violation(d, list(self.hist))
        if (1 if b else 0) in ran:
            raise Violation(f"{op}: the module that was not selected ran", list(self.hist))
        count = {True: 0, False: 1}[bool(b)]
        if COUNTS[1 - count] and seen is not None:
            raise Violation(f"{op}: the module that was not selected ran", list(self.hist))
        if [observable(m) for m in others] != before:
            raise Violation(f"{op}: the module that was not selected changed", list(self.hist))
        if not torch.equal(given, x):
            raise Violation(f"{op}: input changed", list(self.hist))
        return obs, exp

    def w_counters(self):
        return COUNTS


COUNTS = ([], [])


def _mark(i):
    def mark(x):
        COUNTS[i].append(1)
        return x * 1

    return mark


class Marked(nets.Node):
    """Lambda that records that it ran (i: 0 for the true, 1 for the false module)"""

    def __init__(self, i):
        super().__init__()
        self.i = i

    def make(self):
        import continual as co

        return co.Lambda(_mark(self.i))

    def frame(self, x):
        return x

    def delay(self):
        return 0


nets.KINDS["marked"] = Marked


def c(k, s=1, p=0, **kw):
    return conv(1, k, s, p, **kw)


RNN = ["rnn", dict(cls="GRU", cin=2, hid=2)]
MEMBERS = [
    c(1), c(3), c(2), c(3, 1, 1), ["fn", "add", 2], RNN, ["seq", c(2), ["fn", "mul", 2]], pool("Max", 1, 3, 1), ["nn", "Tanh"],
]
MORE = [["delay", 2], c(5, 1, 2), ["res", c(3, 1, 1)], ["br", "concat", c(2, cout=1), c(1, cout=1)], ["seq", c(3, 1, 1), c(3, 1, 1)]]
STRIDED = [c(3, 2), c(2, 2), c(1, 2), c(3, 2, 1)]


def tasks(tier):
    T = tier == "thorough"
    N = 6 if T else 5
    out = []
    ms = MEMBERS + (MORE if T else [])
    W = dict(world="props.c10:CondWorld")
    n = 0

    def mark(t, i):
        return ["seq", ["marked", i], t]

    pairs = [(a, b) for a in ms for b in [None] + ms]
    for y, no in pairs:
        n += 1
        t = dict(W, yes=mark(y, 0) if n % 2 else y, no=no and (mark(no, 1) if n % 2 else no), N=N if T or n % 6 == 0 else N - 1)
        heavy = "rnn" in repr(t)
        t["dtype"] = "f32" if n % 5 == 0 else "f64"
        t["train"] = n % 3 == 0
        out.append(dict(t, alpha=list("SsCF"), cj=[2]))
        if T or n % 4 == 0:
            out.append(dict(t, alpha=list("SCcKs") if heavy else list("SCPcpKF"), cj=[2, 3], N=N - 1))
        if T or n % 4 == 1:
            out.append(dict(t, alpha=list("SGRC"), cj=[2], N=N - 1))
        if T or n % 4 == 2:
            out.append(dict(t, pre=c(2), post=c(2) if n % 3 else None, alpha=list("SsCF"), cj=[2], FT=[6, 7], N=N if T else N - 1))
        if (T or n % 4 == 3) and not heavy:
            out.append(dict(t, embed="residual", alpha=list("SsC"), cj=[2]))
    for y, no in itertools.product(STRIDED, repeat=2):
        n += 1
        t = dict(W, yes=mark(y, 0), no=no and mark(no, 1), N=N + 1 if T else N)
        out.append(dict(t, alpha=list("SsC"), cj=[2, 3]))
        out.append(dict(t, pre=c(2), alpha=list("SCK"), cj=[2]))
    # a Conditional of Conditionals is one whose members' delays are equalised twice: streams with constant inner outcome
    for y, no in [(["cond", "yes", c(3), c(1)], c(2)), (c(2), ["cond", "no", c(1), c(3)]), (["cond", "no", c(2)], c(3))]:
        out.append(dict(W, yes=y, no=no, N=N, alpha=list("SsCK"), cj=[2]))
    # 2D frames, batch
    for y, no in [(conv(2, 3, 1, 1, ks=3, ps=1), conv(2, 1)), (pool("Avg", 2, 2, 1, 0, ks=1, ss=1), ["nn", "BatchNorm2d", 2])]:
        out.append(dict(W, yes=y, no=no, N=N, sp=[3], B=2, alpha=list("SsCF"), cj=[2]))
    # longer streams with all periodic outcomes up to period 4
    for y, no in [(c(3), c(2)), (c(5, 1, 2), None), (c(3, 1, 1), ["fn", "add", 1]), (RNN, c(4)), (c(3, 2), c(2, 2)), (pool("Max", 1, 3, 1, 0, 2), c(1))]:
        for p in range(1, 5 if not T else 6):
            for bits in itertools.product((1, 0), repeat=p):
                hist = [["S", bits[i % p]] for i in range(14)]
                out.append(dict(W, kind="linear", yes=y, no=no, N=14, alpha=[], hist=hist))
    for t in out:
        t.setdefault("kind", "explore")
        t["cost"] = len(repr(t)) * t["N"] * (0.1 if t["kind"] == "linear" else 1)
    return out
