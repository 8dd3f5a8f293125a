"""Explicit-state exploration of real modules.

World   one configuration (JSON "task"): network tree, shapes, dtype, mode, alphabet, bounds
Live    a freshly built module plus ghost variables, to which operations are applied
explore merged depth-first search: states = (ghost, fingerprint of the module); every enabled
        operation of every state is executed on a freshly built module after replaying the
        history of that state; all observed results on the way are compared with the oracle
tree    unmerged enumeration of all operation sequences up to a bound
"""
import traceback

import torch

from . import nets
from .nets import END, parse
from .tensors import copy_state, data, diff, fingerprint, nothing, tmap, tstack


class Violation(Exception):
    def __init__(self, message, history):
        super().__init__(message)
        self.message, self.history = message, history


class Raised:
    """Outcome of an operation in which the code under test raised"""

    def __init__(self, exc):
        self.text = f"{type(exc).__name__}: {exc}".strip()[:300]
        tb = traceback.extract_tb(exc.__traceback__)
        self.where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/continual/" in f.filename), "")

    def __repr__(self):
        return f"<raised {self.text} at {self.where}>"


class Raw:
    """Result of a whole reference call"""

    def __init__(self, y):
        self.y = y


def tcat(vals, dim):
    if isinstance(vals[0], (list, tuple)):
        return [tcat([v[i] for v in vals], dim) for i in range(len(vals[0]))]
    return None if vals[0] is None else torch.cat(vals, dim)


def clone(x):
    return tmap(lambda t: t.clone(), x)


def dt(name):
    return {"f64": torch.float64, "f32": torch.float32}[name]


class World:
    """Single-stream worlds.

    task keys: tree, C, sp, B, dtype, train, N (frames per epoch), alpha (list of operations),
    oracle ("ref" or "self"), junk (number of junk frames), epochs
    Operations (JSON lists):
      ["S"]              forward_step with the next frame
      ["C", j]           forward_steps with the next j frames
      ["P", j]           the same with pad_end=True
      ["s", f]           forward_step with junk frame f, update_state=False
      ["c", j, f]        forward_steps with j junk frames, update_state=False
      ["p", j, f]        the same with pad_end=True; f == -1: with the next frames of the stream
      ["F", T, f]        forward over T junk frames
      ["f", T]           the same without looking at the result
      ["K"], ["KK"]      clean_state, next epoch (other frames)
      ["G"], ["R"]       copy get_state() / set_state(copy)
      ["M"]              get_state() copied into another, used instance, which replaces the module
    """

    def __init__(self, task):
        self.task = task
        self.node = parse(task["tree"])
        self.dtype = dt(task.get("dtype", "f64"))
        self.train = bool(task.get("train", False))
        self.B, self.C, self.sp = task.get("B", 1), task["C"], tuple(task.get("sp", ()))
        self.N = task["N"]
        self.tdim = task.get("tdim", 2)  # time dimension of chunks
        self.odim = task.get("odim", self.tdim)  # and of the chunks returned
        self.oracle = task.get("oracle", "ref")
        self.kw = dict(rtol=task["rtol"], atol=task["rtol"]) if "rtol" in task else {}
        E = task.get("epochs", 2)
        key = task.get("data", 0)

        Bs = task.get("Bs", [self.B] * E)  # batch size of each epoch

        def frame(*tag):
            # self.C: number of channels, or a (nested) list of these for multiple streams
            B = Bs[tag[1]] if tag[0] == "x" else self.B

            def make(c, path):
                if isinstance(c, list):
                    return [make(d, path + (i,)) for i, d in enumerate(c)]
                return data((B, c, *self.sp), key, *tag, *path, dtype=self.dtype)

            return make(self.C, ())

        self.X = [[frame("x", e, i) for i in range(self.N + 1)] for e in range(E)]
        self.J = [
            [tmap(lambda x: x * task.get("jscale", 3), frame("j", f, i)) for i in range(max([12, task.get("jlen", 0), *task.get("FT", [])]))]
            for f in range(task.get("junk", 2))
        ]
        self.memo = {}
        self.sample = None
        first = self.build()
        if isinstance(first, Raised):
            raise Violation(f"construction failed: {first!r}", [])
        self.node.bind(first)
        self.module_kinds = sorted({type(m).__name__ for m in first.modules()})
        self.calls = 0

    def build(self, tag=""):
        try:
            return nets.build(self.node, self.dtype, self.train, tag)
        except Exception as e:  # noqa
            return Raised(e)

    # --- frames
    def ids(self, kind, e, a, b):
        return tuple((kind, e, i) for i in range(a, b))

    def get(self, i):
        f = (self.X if i[0] == "x" else self.J)[i[1]][i[2]]
        return f if self.sample is None else tmap(lambda x: x[self.sample : self.sample + 1], f)

    def frames(self, ids):
        return [self.get(i) for i in ids]

    def clip(self, frames):
        return tstack([clone(f) for f in frames], self.tdim)

    # --- oracle: the outputs delivered by the frames `new` after the frames `pre`
    def expected(self, pre, new, end=False):
        key = (pre, new, end)
        if key not in self.memo:
            if self.oracle == "ref":
                with torch.no_grad():
                    out = self.node.stream(self.frames(pre + new), end)
                self.memo[key] = [y for t, y in out if t >= len(pre)]
            else:
                self.memo[key] = self.self_expected(pre, new, end)
        return self.memo[key]

    def self_expected(self, pre, new, end):
        if self.oracle == "batch" and self.sample is None:
            parts = []
            for b in range(self.B):
                self.sample = b
                try:
                    parts.append(self.self_expected(pre, new, end))
                finally:
                    self.sample = None
            if end:
                return Raw(tcat([p.y for p in parts], 1 if self.odim == 0 else 0))
            return [tcat(list(ys), 0) for ys in zip(*parts, strict=True)]
        m = self.build()
        outs = []
        with torch.no_grad():
            for i in pre:
                m.forward_step(clone(self.get(i)))
            if end:
                y = m.forward_steps(self.clip(self.frames(new)), pad_end=True)
                return Raw(y)
            for i in new:
                y = m.forward_step(clone(self.get(i)))
                if not nothing(y):
                    outs.append(clone(y))
        return outs

    def expected_forward(self, ids):
        key = ("F", ids)
        if key not in self.memo:
            with torch.no_grad():
                if self.oracle == "ref":
                    self.memo[key] = tstack(self.node.forward(self.frames(ids)), self.tdim)
                else:
                    self.memo[key] = self.self_forward(ids)
        return self.memo[key]

    def self_forward(self, ids):
        if self.oracle == "batch" and self.sample is None:
            parts = []
            for b in range(self.B):
                self.sample = b
                try:
                    parts.append(self.self_forward(ids))
                finally:
                    self.sample = None
            return tcat(parts, 1 if self.odim == 0 else 0)
        return self.call_forward(self.build(), self.clip(self.frames(ids)))

    def call_forward(self, m, x):
        y = m.forward(x)
        return y[0] if isinstance(y, tuple) else y

    def stack(self, outs):
        if isinstance(outs, Raw):
            return None if nothing(outs.y) else outs.y
        return tstack(outs, self.odim) if outs else None

    def one(self, outs):
        assert len(outs) <= 1
        return outs[0] if outs else None

    def starves(self, n0, n1):
        """Known finding B: excluded where the reference decides"""
        return self.oracle == "ref" and self.node.starves(n0, n1)

    # --- enabled operations in a ghost state
    def ops(self, g):
        e, n, ended, snap = g
        left = self.N - n
        out = []
        multi, least = self.task.get("cmax", 10**6), self.task.get("cmin", 1)
        odd = "Bs" in self.task and self.task["Bs"][e] != self.B  # no junk of this batch size
        for a in self.task["alpha"]:
            if odd and a in ("s", "c", "p"):
                continue
            if a == "S" and left >= 1 and not ended:
                out.append(["S"])
            elif a == "C" and not ended:
                out += [["C", j] for j in range(least, min(left, multi) + 1)]
            elif a == "P" and not ended:
                for j in range(1, min(left, self.task.get("pmax", multi)) + 1):
                    if not self.starves(n, n + j):
                        out.append(["P", j])
            elif a == "s" and not ended:
                out += [["s", f] for f in range(len(self.J))]
            elif a == "c" and not ended:
                out += [["c", j, 0] for j in self.task.get("cj", [1, 3])]
            elif a == "p" and not ended:
                out += [
                    ["p", j, 0] for j in self.task.get("pj", [1, 2]) if not self.starves(n, n + j)
                ]
            elif a == "F":
                for T in self.task.get("FT", ()):
                    out.append(["F", T, 0])
            elif a == "f":
                for T in self.task.get("FT", ()):
                    out.append(["f", T])
            elif a == "K" and e + 1 < len(self.X):
                out.append(["K"])
            elif a == "KK" and e + 1 < len(self.X):
                out.append(["KK"])
            elif a == "G" and not ended and snap is None:
                out.append(["G"])
            elif a == "R" and snap is not None:
                out.append(["R"])
            elif a == "M" and not ended:
                out.append(["M"])
        return out

    def start(self):
        return (0, 0, False, None)

    def live(self):
        return Live(self)

    def next(self, g, op):
        """Ghost state after op"""
        return ghost_next(self, g, op)

    def describe(self):
        return self.task


class Live:
    def __init__(self, world):
        self.w = world
        self.m = world.build()
        self.g = world.start()
        self.snap = None
        self.hist = []

    def key(self):
        return (self.g, fingerprint(self.m), None if self.snap is None else self.snap[0])

    # --- calls of the code under test (hooks for other worlds)
    def frame(self, i):
        return clone(self.w.get(i))

    def chunk(self, ids):
        return self.w.clip(self.w.frames(ids))

    def call(self, method, x, **kw):
        if method == "forward":
            return self.w.call_forward(self.m, x)
        return getattr(self.m, method)(x, **kw)

    def done(self, obs):
        pass

    def apply(self, op):
        """Execute one operation on the real module, compare with the oracle, update the ghost state"""
        w, m = self.w, self.m
        e, n, ended, snap = self.g
        self.hist.append(op)
        w.calls += 1
        k = op[0]
        exp = None
        pre = w.ids("x", e, 0, n)
        try:
            with torch.no_grad():
                if k == "S":
                    new = w.ids("x", e, n, n + 1)
                    exp = w.one(w.expected(pre, new))
                    obs = self.call("forward_step", self.frame(new[0]))
                    self.g = (e, n + 1, ended, snap)
                elif k in ("C", "P"):
                    new = w.ids("x", e, n, n + op[1])
                    exp = w.stack(w.expected(pre, new, k == "P"))
                    x = self.chunk(new)
                    obs = self.call("forward_steps", x, **(dict(pad_end=True) if k == "P" else {}))
                    self.g = (e, n + op[1], ended or (k == "P" and w.node.pollutes()), snap)
                elif k == "s":
                    new = w.ids("j", op[1], 0, 1)
                    exp = w.one(w.expected(pre, new))
                    obs = self.call("forward_step", self.frame(new[0]), update_state=False)
                elif k in ("c", "p"):
                    new = w.ids("j", op[2], 0, op[1]) if op[2] >= 0 else w.ids("x", e, n, n + op[1])
                    exp = w.stack(w.expected(pre, new, k == "p"))
                    x = self.chunk(new)
                    obs = self.call(
                        "forward_steps", x, update_state=False, **(dict(pad_end=True) if k == "p" else {})
                    )
                elif k == "F":
                    new = w.ids("j", op[2], 0, op[1])
                    exp = w.expected_forward(new)
                    obs = self.call("forward", self.chunk(new))
                elif k == "f":  # result not compared
                    obs = None
                    w.call_forward(m, w.clip(w.J[0][: op[1]]))
                    # with f_ends, forward moves the state: only cleaning is defined afterwards
                    self.g = (e, n, ended or bool(w.task.get("f_ends")), snap)
                elif k in ("K", "KK"):
                    before = persistent(m) if w.task.get("persistent") else None
                    m.clean_state()
                    if k == "KK":
                        m.clean_state()
                    obs = None
                    if before is not None:
                        exp, obs = before, persistent(m)
                        d = diff(obs, exp, "parameters and persistent buffers", rtol=0, atol=0)
                        if d:
                            raise Violation(d, list(self.hist))
                        exp = obs = None
                    self.g = (e + 1, 0, False, snap)
                elif k == "G":
                    self.snap = (len([h for h in self.hist if h == ["G"]]), copy_state(m.get_state()))
                    obs = None
                    self.g = (e, n, ended, (e, n))
                elif k == "R":
                    s = copy_state(self.snap[1])
                    if s is None:
                        m.clean_state()
                    else:
                        m.set_state(s)
                    obs = None
                    self.g = (*snap, False, snap)
                elif k == "M":
                    other = w.build()
                    for f in range(w.task.get("used", 2)):
                        other.forward_step(clone(w.J[f % len(w.J)][2 + f]))
                    s = copy_state(m.get_state())
                    if s is None:
                        other.clean_state()
                    else:
                        other.set_state(s)
                    self.m = other
                    obs = None
                else:
                    raise KeyError(k)
        except Violation:
            raise
        except Exception as exc:  # noqa
            if type(exc) is KeyError and exc.args == (k,):
                raise
            obs = caught(exc)
        d = diff(obs, exp, f"{op}", **w.kw)
        if d:
            raise Violation(d, list(self.hist))
        self.done(obs)
        return not nothing(obs)


def persistent(m):
    out = []
    for k, v in [*m.named_parameters(), *torch.nn.Module.state_dict(m).items()]:
        out += [k, v.detach().clone()]
    return out


def caught(exc):
    """The code under test raised; errors of the harness propagate"""
    r = Raised(exc)
    if not r.where:
        raise exc
    return r


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.outputs = self.placeholders = 0
        self.violations = []
        self.capped = False
        self.sample = None

    def as_dict(self):
        return dict(self.__dict__)


def tick():
    """Called before every operation; the runner watches the CPU time of each (see runner._worker)"""


def run_history(world, hist, replaying=False):
    """replaying: the history has been verified before (up to the last call if not)"""
    live = world.live()
    for i, op in enumerate(hist):
        live.replaying = replaying or i + 1 < len(hist)
        tick()
        live.apply(op)
    live.replaying = False
    return live


def explore(world, res, max_transitions=10**9):
    """Merged exhaustive search over all histories with at most N frames per epoch"""
    prefix = world.task.get("prefix", [])
    root = run_history(world, prefix)
    visited = {root.key()}
    res.states += 1
    from collections import deque

    dfs = world.task.get("order") == "dfs"
    stack = deque([list(prefix)])
    while stack:
        hist = stack.pop() if dfs else stack.popleft()
        try:
            g = None
            pending = []
            base = run_history(world, hist, True)
            g = base.g
            todo = world.ops(g)
            for op in todo:
                if res.transitions >= max_transitions:
                    res.capped = True
                    return res
                live = base if op is todo[0] else run_history(world, hist, True)
                res.traces += 1
                tick()
                gave = live.apply(op)
                res.transitions += 1
                res.outputs += gave
                res.placeholders += not gave
                key = live.key()
                if key not in visited:
                    visited.add(key)
                    res.states += 1
                    pending.append(hist + [op])
                    if res.sample is None or len(res.sample) < len(hist) + 1:
                        res.sample = hist + [op]
        except Violation as v:
            res.violations.append(dict(message=v.message, history=v.history))
            return res
        stack.extend(reversed(pending) if dfs else pending)
    return res


def tree(world, res, alpha_of, depth, max_leaves=10**9):
    """All operation sequences up to `depth`, unmerged. alpha_of(g, i) -> operations for step i"""

    leaves = []
    prefix = world.task.get("prefix", [])

    def grow(g, hist, sim):
        ops = alpha_of(g, hist) if len(hist) < depth + len(prefix) else []
        if not ops:
            leaves.append(hist)
            return
        for op in ops:
            res.transitions += 1
            res.states += 1
            grow(sim(g, op), hist + [op], sim)

    g = world.start()
    for op in prefix:
        g = world.next(g, op)
    grow(g, list(prefix), world.next)
    if len(leaves) > max_leaves:
        res.capped = True
        leaves = leaves[:max_leaves]
    for hist in leaves:
        res.traces += 1
        try:
            live = world.live()
            for i, op in enumerate(hist):
                live.replaying = i + 1 < len(hist)
                tick()
                gave = live.apply(op)
                res.outputs += gave
                res.placeholders += not gave
        except Violation as v:
            res.violations.append(dict(message=v.message, history=v.history))
            return res
    if leaves:
        res.sample = max(leaves, key=len)
    return res


def ghost_next(world, g, op):
    e, n, ended, snap = g
    k = op[0]
    if k == "S":
        return (e, n + 1, ended, snap)
    if k in ("C", "P"):
        return (e, n + op[1], ended or (k == "P" and world.node.pollutes()), snap)
    if k in ("K", "KK"):
        return (e + 1, 0, False, snap)
    if k == "f":
        return (e, n, ended or bool(world.task.get("f_ends")), snap)
    if k == "G":
        return (e, n, ended, (e, n))
    if k == "R":
        return (*snap, False, snap)
    return g


def linear(world, res, hist):
    """One long history"""
    res.traces += 1
    live = None
    try:
        live = world.live()
        for op in hist:
            res.transitions += 1
            res.states += 1
            tick()
            gave = live.apply(op)
            res.outputs += gave
            res.placeholders += not gave
    except Violation as v:
        res.violations.append(dict(message=v.message, history=v.history))
    return res
