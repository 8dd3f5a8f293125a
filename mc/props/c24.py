"""C24 A module compiled to TorchScript computes what the module computes (reference: nets)

Scripted: every step of a stream may be taken by the module, by its state-in-state-out function, by the scripted
module or by a scripted module that was saved and loaded; all assignments of steps to these are explored, the state
being handed over at every step. Traced: `forward` of every module that can be traced, after every history.
"""
import io
import itertools

import torch

from ..explore import Violation, World
from ..nets import build, parse
from ..tensors import copy_state, data, diff, observable
from ..zoo import world, zoo
from .c01 import OPTIONS, SP, SPATIAL, conv

BOUNDS = {
    "quick": "scripted convolutions: temporal kernel 1-4, stride 1-3, all paddings < kernel, both fills, 1D/2D/3D with a covering set of options; "
    "four executors (module, its state-in-state-out function, script, script saved and loaded), every hand-over of the state between two of "
    "them at each of 2*kernel+stride+2 steps of two streams, weights overwritten in between; all 4^5 unmerged assignments of the first 5 steps"
    "; traced: forward of 67 modules and networks, with all histories of 2 operations between tracing and comparing",
    "thorough": "kernel 1-5, stride 1-4; 4^7 unmerged assignments; histories of 3 operations",
}
ASSUMPTIONS = [
    "only convolutions can be scripted, and traced within a container only; the recycling positional encoding cannot be traced",
    "call_mode has been set on the module (torch.jit needs the attribute on the instance)",
    "a trace is used with inputs of the traced shape",
]
EXEC = ["module", "function", "script", "loaded"]


def tasks(tier):
    T = tier == "thorough"
    out = []
    i = 0
    for k in range(1, 6 if T else 5):
        for s in range(1, 5 if T else 4):
            for p in range(k):
                for fill in ["zeros", "replicate"] if p else ["zeros"]:
                    for dims in (1, 2, 3):
                        i += 1
                        if not T and dims > 1 and (i + dims) % 3:
                            continue
                        sp = SPATIAL[dims][i % len(SPATIAL[dims])] if dims > 1 else OPTIONS[i % len(OPTIONS)]
                        t = dict(kind="script", tree=conv(dims, k, s, p, fill=fill, **sp), dims=dims, N=2 * k + s + 2, train=i % 3 == 1)
                        t["dtype"] = "f32" if i % 5 == 4 else "f64"
                        t["mode"] = ("forward_step", "forward", "forward_steps")[i % 3]
                        t["tree_depth"] = 7 if T else 5
                        out.append(dict(t, cost=50 + t["tree_depth"] ** 4))
    for e in zoo():
        if "'rpe" in repr(e["tree"]) or e["name"] == "par-wsum":  # (forward of which is not defined)
            continue
        t = world(e, ["S", "C", "K"], B=2, epochs=2, kind="trace", tag="trace", N=e["span"] + 3, cmax=min(2, e.get("cmax", 2)))
        if e["tree"][0] == "conv":  # as a member (their own forward is compiled already)
            t["tree"] = ["seq", e["tree"]]
        t["T"] = min(e["span"] + 1, e.get("cmax", 99))
        t["depth"] = 3 if T else 2
        out.append(t)
    return out


def run(task, res):
    try:
        (run_script if task["kind"] == "script" else run_trace)(task, res)
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation(f"{type(e).__name__}: {str(e)[:300]}", []) from e


def reload(s):
    f = io.BytesIO()
    torch.jit.save(s, f)
    f.seek(0)
    return torch.jit.load(f)


def run_script(task, res):
    dtype = torch.float32 if task["dtype"] == "f32" else torch.float64
    node = parse(task["tree"])
    m = build(node, dtype, task["train"])
    node.bind(m)
    m.call_mode = task["mode"]
    s = torch.jit.script(m)
    l = reload(s)
    sp = SP[task["dims"]]
    C = task["tree"][2]["cin"]
    N = task["N"]

    def do(who, x, state):
        """One step by one of the executors, from a copy of the state; -> output, state"""
        x, state = x.clone(), copy_state(state)
        if who == "module":
            if state is None:
                m.clean_state()
            else:
                m.set_state(state)
            y = m.forward_step(x)
            return y, copy_state(m.get_state())
        f = {"function": m, "script": s, "loaded": l}[who]._forward_step
        held = copy_state(state)
        y, new = f(x, state)
        if task["train"] and diff(normal(state), normal(held)):
            raise Violation(f"{who}: the state that was passed has changed (in training mode)", [])
        state = new
        return y, copy_state(state)

    def normal(state):
        return None if state is None else [t.to(torch.float64) for t in state]

    with torch.no_grad():
        for epoch in (0, 1):
            if epoch:  # other weights, written in place, are those of the compiled module as well
                for n, p in m.named_parameters():
                    p.copy_(data(tuple(p.shape), "other", n, dtype=dtype))
                node.bind(m)
                l = reload(s)
            X = [data((2, C, *sp), "x", epoch, i, dtype=dtype) for i in range(N)]
            exp = [None] * N
            for t, y in node.stream(X):
                exp[t] = y
            clip = torch.stack(X, 2)
            want = torch.stack(node.forward(X), 2)
            for who, f in (("module", m.forward), ("script", s), ("script", s.forward), ("loaded", l)):
                res.transitions += 1
                d = diff(f(clip.clone()), want, f"forward of {who}")
                if d:
                    raise Violation(d, [["forward", who]])
            # every hand-over at every step
            states = {"start": None}
            for t in range(N):
                new = {}
                for a, b in itertools.product(states, EXEC):
                    res.transitions += 1
                    hist = [[epoch, t], ["state of", a], ["step by", b]]
                    try:
                        y, st = do(b, X[t], states[a])
                    except Violation:
                        raise
                    except Exception as e:  # noqa
                        raise Violation(f"{type(e).__name__}: {str(e)[:300]}", hist) from e
                    d = diff(y, exp[t], "output")
                    if b in new and not d:
                        d = diff(normal(st), normal(new[b]), "state")
                    if d:
                        raise Violation(d, hist)
                    res.outputs += y is not None
                    res.placeholders += y is None
                    new[b] = st
                    # what a state holds decides what follows: it is the same whoever made it
                    d = diff(normal(st), normal(new[EXEC[0]]), "state")
                    # (the stateless module holds none)
                    if d and not (st is None or new[EXEC[0]] is None):
                        raise Violation(d, hist)
                states = new
                res.states += len(new)
            res.traces += 1
            # unmerged: all assignments
            depth = min(task["tree_depth"], N) if epoch == 0 else 0

            def walk(t, state, hist):
                if t == depth:
                    res.traces += 1
                    return
                for who in EXEC:
                    res.transitions += 1
                    h = hist + [who]
                    try:
                        y, st = do(who, X[t], state)
                    except Violation:
                        raise
                    except Exception as e:  # noqa
                        raise Violation(f"{type(e).__name__}: {str(e)[:300]}", h) from e
                    d = diff(y, exp[t], "output")
                    if d:
                        raise Violation(d, h)
                    walk(t + 1, st, h)

            walk(0, None, [])


def run_trace(task, res):
    w = World(dict(task, oracle="self"))
    T = task["T"]
    x = w.clip(w.J[0][:T])
    xs = [w.clip(w.J[1][:T]), w.clip(w.X[0][:T])]
    with torch.no_grad():
        want = [w.call_forward(w.build(), v) for v in xs]

    def trace(m, hist):
        for k in m.modules():
            if hasattr(k, "call_mode"):
                k.call_mode = "forward"
        before = observable(m)
        with torch.no_grad():
            t = torch.jit.trace(m, (w.clip(w.J[0][:T]),), check_trace=False)
        if observable(m) != before:
            raise Violation("tracing changed the state of the module", hist)
        return t

    def check(t, hist, what):
        for v, y in zip(xs, want):
            res.transitions += 1
            with torch.no_grad():
                z = t(torch.clone(v) if isinstance(v, torch.Tensor) else v)
            z = z[0] if isinstance(z, tuple) else z
            d = diff(z, y, what, **w.kw)
            if d:
                raise Violation(d, hist)
            res.outputs += 1

    def histories():
        yield []
        level = [[]]
        ops = [["S"], ["C", task["cmax"]], ["K"], ["P", 1]] if task.get("pads", True) else [["S"], ["C", task["cmax"]], ["K"]]
        for _ in range(task["depth"]):
            level = [[*h, o] for h in level for o in ops]
            yield from level

    def live(m, h):
        with torch.no_grad():
            n = 0
            for o in h:
                if o[0] == "S":
                    m.forward_step(w.J[0][n % 8])
                    n += 1
                elif o[0] in "CP":
                    m.forward_steps(w.clip([w.J[0][(n + i) % 8] for i in range(o[1])]), pad_end=o[0] == "P")
                    n += o[1]
                else:
                    m.clean_state()

    # traced after a history; what happens to the module afterwards does not matter to the trace
    for h in histories():
        m = w.build()
        try:
            live(m, [["S"]] * (T if h else 0) + h)
            t = trace(m, h)
            check(t, h, "trace")
            live(m, [["S"], ["C", 1]])
            m.clean_state()
            check(t, h, "trace after more frames")
        except Violation:
            raise
        except Exception as e:  # noqa
            raise Violation(f"{type(e).__name__}: {str(e)[:300]}", h) from e
        res.traces += 1
        res.states += 1
    check(reload(t), [], "trace saved and loaded")
