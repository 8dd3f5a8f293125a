"""C07 delay, receptive_field, stride and padding describe what happens (measured)"""
import math

import torch

from .. import grammar, nets
from ..explore import Raised, Violation, World, caught
from ..tensors import diff, nothing
from .c01 import SP, SPATIAL, conv
from .c02 import pool

BOUNDS = {
    "quick": "convolutions with kernel 1-5, stride 1-4 and all paddings, pooling with kernel 1-4, stride 1-3, dilation 1-3 and all "
    "paddings, the whole network grammar of C08 (pairs, triples, residuals, branches, nestings); streams of "
    "receptive field + 3 strides + 2 frames; every frame perturbed upwards and downwards; clips of all lengths up to two receptive fields",
    "thorough": "kernel 1-7, stride 1-5; the larger grammar; streams of two receptive fields",
}
ASSUMPTIONS = [
    "that the window's ends matter and the length formula are not asked of networks with explicit Delay modules, which forward ignores",
    "nor that the window's ends matter of consecutive Parallel modules, whose automatic delays may add up",
    "the length formula is asked only where forward is defined (branches of equal length)",
    "warm_up with delay 0 and of parameterless float64 modules is excluded",
]


def tasks(tier):
    T = tier == "thorough"
    out = []
    trees = []
    K, S = (7, 5) if T else (5, 4)
    i = 0
    for k in range(1, K + 1):
        for s in range(1, S + 1):
            for p in range(k):
                trees.append((conv(1, k, s, p), []))
                for dims in (2, 3):
                    i += 1
                    if i % 3 == 0 or T:
                        trees.append((conv(dims, k, s, p, **SPATIAL[dims][i % len(SPATIAL[dims])]), SP[dims]))
    for k in range(1, (6 if T else 5)):
        for s in (None, 1, 2, 3):
            for d in (1, 2, 3):
                for cls in ("Avg", "Max"):
                    if cls == "Avg" and d > 1 or (k == 1 and d > 1):
                        continue
                    for p in range(d * (k - 1) + 1):
                        if p > k // 2:
                            continue
                        trees.append((pool(cls, 1, k, s, p, d), []))
    trees += [(t, []) for _, t in grammar.nets(tier)]
    trees += [(t, [4]) for t in grammar.spatial()]
    for n, (t, sp) in enumerate(trees):
        C = t[2].get("cin", 2) if t[0] == "conv" else 2
        out.append(dict(
            kind="measure", tree=t, C=C, sp=sp, B=1, N=1, epochs=1, deep=T, cost=len(repr(t)),
            dtype="f32" if n % 6 == 5 else "f64",
        ))
    # the same through build_from / with a named member
    out.append(dict(kind="measure", tree=["oseq", ["a", conv(1, 3, 2, 1)], ["b", conv(1, 2)]], C=2, sp=[], B=2, N=1, epochs=1))
    # Conditional: what it announces is about both outcomes
    members = [
        conv(1, 1), conv(1, 2), conv(1, 3), conv(1, 3, 1, 1), conv(1, 3, 1, 2), conv(1, 5, 1, 2), pool("Avg", 1, 3, 1, 0),
        ["seq", conv(1, 3, 1, 1), conv(1, 2)],
    ] + ([conv(1, 4, 1, 3), pool("Max", 1, 3, 1, 1), ["seq", conv(1, 3), conv(1, 3, 1, 1)], conv(1, 7, 1, 3)] if T else [])
    for a in members:
        for b in [None, *members]:
            out.append(dict(kind="outcomes", a=a, b=b, tree=["cond", "yes", a] + ([b] if b else []), C=2, sp=[], B=1, N=1, epochs=1))
    return out


def outcomes(task, res):
    """The window of a Conditional is the larger one of its outcomes', its delay that of both"""
    reach, M = {}, None
    for pred in ("yes", "no"):
        w = World(dict(task, tree=["cond", pred, *task["tree"][2:]], N=24))
        m = w.build()
        if isinstance(m, Raised):
            raise Violation(f"construction failed: {m!r}", [pred])
        M = meta(m)
        xs = [w.get(("x", 0, t)) for t in range(24)]
        base = stream(m, xs)
        ticks = [t for t, _ in base]
        lag = M["delay"] if pred == "yes" or task["b"] else 0
        if ticks != list(range(lag, 24)):
            raise Violation(f"{M}: outputs at frames {ticks}", [pred])
        last = base[-1][1]
        seen = []
        for t in range(24):
            for sign in (1.0, -1.0):
                ys = stream(w.build(), xs[:t] + [xs[t] + sign * 50] + xs[t + 1 :])
                res.traces += 1
                res.states += 24
                res.transitions += 24
                if changed(last, ys[-1][1]):
                    seen.append(t)
        reach[pred] = max(seen) - min(seen) + 1
    if max(reach.values()) != M["rf"]:
        raise Violation(f"{M}: the last output depends on {reach} frames", ["outcomes"])
    res.sample = [["metadata", M], ["windows", reach]]


def meta(m):
    i = lambda v: int(v[0] if isinstance(v, (tuple, list)) else v)  # noqa: E731
    return dict(delay=int(m.delay), rf=int(m.receptive_field), stride=i(m.stride), padding=i(m.padding))


def stream(m, xs):
    out = []
    for t, x in enumerate(xs):
        y = m.forward_step(x.clone())
        if not nothing(y):
            out.append((t, y.clone()))
    return out


def changed(a, b):
    return not torch.equal(torch.nan_to_num(a, nan=3.0), torch.nan_to_num(b, nan=3.0))


def run(task, res):
    try:
        with torch.no_grad():
            _run(task, res)
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation(f"{caught(e)!r}", []) from e


def _run(task, res):
    if task["kind"] == "outcomes":
        return outcomes(task, res)
    probe = World(task)
    node = probe.node

    def fresh():
        m = probe.build()
        if isinstance(m, Raised):
            raise Violation(f"construction failed: {m!r}", [])
        return m

    def fail(text, *hist):
        raise Violation(text, list(hist))

    m = fresh()
    M = meta(m)
    d, rf, s, p = M["delay"], M["rf"], M["stride"], M["padding"]
    N = max(d, 0) + (3 * s + 2 if not task.get("deep") else rf + 3 * s + 2)
    w = World(dict(task, N=N, jlen=2 * rf + 4))
    xs = [w.get(("x", 0, t)) for t in range(N)]
    base = stream(m, xs)
    res.traces += 1
    res.states += N
    res.transitions += N
    res.outputs += len(base)
    res.placeholders += N - len(base)
    ticks = [t for t, _ in base]
    want = list(range(d, N, s))
    if ticks != want:
        fail(f"{M}: outputs at frames {ticks}, announced {want}", ["stream", N])
    if meta(m) != M:
        fail(f"streaming changed {M} to {meta(m)}", ["stream", N])

    # influence of every frame on every output
    touched = {}
    for t in range(N):
        for sign in (1.0, -1.0):
            for size in (1.0, 50.0):
                ys = stream(fresh(), xs[:t] + [xs[t] + sign * size] + xs[t + 1 :])
                res.traces += 1
                res.states += N
                res.transitions += N
                if [k for k, _ in ys] != ticks:
                    fail(f"frame {t} changes when outputs appear", ["perturb", t, sign * size])
                for j, ((k, a), (_, b)) in enumerate(zip(base, ys)):
                    if changed(a, b):
                        touched.setdefault(j, set()).add(t)
                        if not k - rf + 1 <= t <= k:
                            fail(f"{M}: output {j} (at frame {k}) depends on frame {t}", ["perturb", t, sign * size])
    # automatic delays of consecutive Parallel modules may add up
    if not node.explicit_delay() and "'dispatch'" not in repr(task["tree"]) and repr(task["tree"]).count("'parallel'") < 2:
        for j, k in enumerate(ticks):
            for end in (k - rf + 1, k):
                if end >= 0 and end not in touched.get(j, ()):
                    fail(f"{M}: output {j} (at frame {k}) does not depend on frame {end}", ["perturb", end])

    # lengths of forward
    if not node.explicit_delay():
        for T in range(1, 2 * rf + 4):
            L = node.length(T)
            if not L:
                continue
            y = fresh().forward(w.clip(w.frames(w.ids("j", 0, 0, T))))
            res.transitions += 1
            res.outputs += 1
            n = math.floor((T + 2 * p - rf) / s) + 1
            if y.shape[2] != n:
                fail(f"{M}: {y.shape[2]} outputs for a clip of {T} frames, announced {n}", ["forward", T])

    # warm-up
    if d > 0 and (task.get("dtype") == "f32" or list(m.parameters())):
        for used in (0, 2):
            a, b = fresh(), fresh()
            for x in xs[:used]:
                a.forward_step(x.clone())
            if used:
                a.clean_state()
            a.warm_up(tuple(xs[0].shape))
            fill = torch.zeros_like(xs[0])
            if isinstance(w.node, nets.Pool) and w.node.fill == "neg_inf":
                fill = torch.full_like(xs[0], -math.inf)
            for _ in range(d):
                b.forward_step(fill.clone())
            for t, x in enumerate(xs):
                ya, yb = a.forward_step(x.clone()), b.forward_step(x.clone())
                res.transitions += 1
                if t == 0 and nothing(ya):
                    fail("no output at the first frame after warm_up", ["warm_up", used])
                e = diff(ya, yb, f"frame {t} after warm_up")
                if e:
                    fail(e, ["warm_up", used])
    res.sample = [["metadata", M], ["outputs at", ticks], ["window of last output", sorted(touched.get(len(ticks) - 1, ()))]]
