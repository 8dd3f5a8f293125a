"""C20 Gradients: differentiating what the module returned gives the derivative of the regular network

Backpropagation through the outputs of every way to cut a stream into calls, and through forward,
against finite differences of the reference semantics (mc.nets), for every frame and parameter.
"""
import torch

from ..explore import Raised, Violation, World, caught
from ..nets import Mha
from ..tensors import data, nothing, tmap, tstack
from ..zoo import world, zoo

BOUNDS = {
    "quick": "modules and networks of the zoo in float64, training mode (evaluation mode with BatchNorm): all ways to cut span + 2 (at most "
    "6) frames into steps and chunks, with and without calls that do not update the state in between, two epochs on one instance; "
    "forward over clips of three lengths, before and after streaming; every frame and every parameter, one generic direction each",
    "thorough": "at most 8 frames, five clip lengths, two generic directions each",
}
ASSUMPTIONS = [
    "streaming through max pooling is not differentiated (torch refuses: its buffer is updated in place)",
    "central differences with step 1e-6 in float64, relative tolerance 1e-5",
]
EPS = 1e-6


def leaves(x):
    return [z for y in x for z in leaves(y)] if isinstance(x, (list, tuple)) else ([] if x is None else [x])


def loss(outs, salt=0):
    s, k = 0.0, 0
    for y in outs:
        for z in leaves(y):
            s = s + (z * data(tuple(z.shape), "g", salt, k, dtype=z.dtype)).sum()
            k += 1
    return s


def shift(a, d, s):
    return [shift(p, q, s) for p, q in zip(a, d)] if isinstance(a, list) else a + s * d


def compositions(n):
    if n == 0:
        yield []
    for j in range(1, n + 1):
        for rest in compositions(n - j):
            yield [j, *rest]


def histories(N, cmax):
    """Calls that consume N frames: steps (0) and chunks of j frames"""
    out = []
    for c in compositions(N):
        if max(c) > cmax:
            continue
        out.append([["C", j] if j > 1 else ["S"] for j in c])
    out.append([["C", 1]] * N)
    return out


def tasks(tier):
    T = tier == "thorough"
    out = []
    for e in zoo():
        t = world(e, [], B=2, epochs=2, kind="grad", dtype="f64")
        t["N"] = min(e["span"] + 2, 8 if T else 6)
        t["train"] = not e["notrain"]
        t["dirs"] = 2 if T else 1
        t["oracle"] = "ref"
        t["FT"] = [e["span"] + i for i in ((0, 1, 2, 3, 5) if T else (0, 2))]
        t["jscale"] = 1
        t["jlen"] = max(t["FT"]) + 1
        # forward of attention inside networks is over the whole clip, that of a recycling encoding starts at the current position: C11, C14
        t["nofwd"] = bool(e.get("nofwd")) or "'rpe" in repr(e["tree"]) or ("'mha'" in repr(e["tree"]) and e["tree"][0] != "mha")
        out.append(t)
    return out


def run(task, res):
    try:
        _run(task, res)
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation(f"{caught(e)!r}", []) from e


def _run(task, res):
    w = World(task)
    dirs = task["dirs"]

    def fresh():
        m = w.build()
        if isinstance(m, Raised):
            raise Violation(f"construction failed: {m!r}", [])
        return m

    first = fresh()
    params = {k: p.detach().clone() for k, p in first.named_parameters()}
    way = lambda x, *tag: tmap(lambda z: data(tuple(z.shape), "d", *tag, dtype=z.dtype), x)  # noqa: E731

    def reference(kind, frames):
        if kind == "stream":
            return [y for _, y in w.node.stream(frames)]
        if isinstance(w.node, Mha):  # torch.nn.MultiheadAttention over the whole clip
            n = w.node
            x = torch.stack(frames, 1 if n.bf else 0)
            q = x.select(1 if n.bf else 0, n.q).unsqueeze(1 if n.bf else 0) if n.kind == "single" else x
            y = n.twin(q, x, x)[0]
            return [y.permute(0, 2, 1) if n.ed2 else y]
        ys = w.node.forward(frames)
        return [tstack(ys, w.tdim)] if ys else []

    def derivatives(kind, frames, salt):
        """value, {(what, direction): derivative} of the reference"""
        with torch.no_grad():
            f = lambda xs: float(loss(reference(kind, xs), salt))  # noqa: E731
            w.node.bind(fresh())
            out = {}
            value = f(frames)
            for i in range(len(frames)):
                for k in range(dirs):
                    d = way(frames[i], "x", i, k)
                    v = []
                    for s in (EPS, -EPS):
                        xs = list(frames)
                        xs[i] = shift(frames[i], d, s)
                        v.append(f(xs))
                    out["frame", i, k] = (v[0] - v[1]) / (2 * EPS)
            for n, p in params.items():
                for k in range(dirs):
                    v = []
                    for s in (EPS, -EPS):
                        m = fresh()
                        dict(m.named_parameters())[n].add_(s * way(p, n, k))
                        w.node.bind(m)
                        v.append(f(frames))
                    out[n, "parameter", k] = (v[0] - v[1]) / (2 * EPS)
            w.node.bind(fresh())
        return value, out

    def compare(m, frames, outs, want, salt, hist):
        value, D = want
        m.zero_grad()
        L = loss(outs, salt)
        res.traces += 1
        if abs(float(L) - value) > 1e-6 * max(1.0, abs(value)):
            raise Violation(f"outputs differ from the regular network ({float(L)} instead of {value})", hist)
        if isinstance(L, torch.Tensor) and L.requires_grad:
            L.backward()
        elif any(abs(v) > 1e-7 for v in D.values()):
            raise Violation("the outputs carry no gradient", hist)
        P = dict(m.named_parameters())
        for key, d in D.items():
            if key[0] == "frame":
                x = frames[key[1]]
                pairs = list(zip(leaves([x]), leaves([way(x, "x", key[1], key[2])])))
            else:
                pairs = [(P[key[0]], way(P[key[0]], key[0], key[2]))]
            g = sum(float((a.grad * b).sum()) for a, b in pairs if a.grad is not None)
            res.states += 1
            if not abs(g - d) <= 1e-5 * max(1.0, abs(d)):
                raise Violation(f"derivative with respect to {key[0]} {key[1]} is {g}, of the regular network {d}", hist)

    def leaf(frames):
        return [tmap(lambda x: x.detach().clone().requires_grad_(), f) for f in frames]

    def copies(frames):
        return [tmap(lambda x: x.clone(), f) for f in frames]

    def split(y):
        return [tmap(lambda z: z.select(w.odim, i), y) for i in range(leaves(y)[0].shape[w.odim])]

    def play(m, frames, hist, peek):
        fs, n, outs = copies(frames), 0, []
        for k, op in enumerate(hist):
            if peek:
                m.forward_step(tmap(lambda x: x.detach().clone(), w.J[0][k % 4]), update_state=False)
                res.transitions += 1
            res.transitions += 1
            if op[0] == "S":
                y = m.forward_step(fs[n])
                n += 1
                if not nothing(y):
                    outs.append(y)
            else:
                y = m.forward_steps(tstack(fs[n : n + op[1]], w.tdim))
                n += op[1]
                if not nothing(y):
                    outs += split(y)
        res.outputs += len(outs)
        return outs

    N = w.N
    maxpool = "Max" in repr(task["tree"])
    X = [w.X[e][:N] for e in (0, 1)]
    H = histories(N, task.get("cmax", 99))
    if maxpool:
        H = []
    if H:
        want = [derivatives("stream", X[e], e) for e in (0, 1)]
    for h in H:
        for peek in (False, True):
            m = fresh()
            for e in (0, 1) if h is H[0] or h is H[-1] else (0,):
                if e:
                    m.clean_state()
                frames = leaf(X[e])
                outs = play(m, frames, h, peek)
                compare(m, frames, outs, want[e], e, [["peek", peek], ["epoch", e], *h])
    if not task["nofwd"]:
        for T in task["FT"]:
            if not w.node.length(T):
                continue
            J = w.J[0][:T]
            wantF = derivatives("forward", J, 7)
            m = fresh()
            for when in ("fresh", "again", "after streaming"):
                if when == "after streaming" and not maxpool:
                    play(m, leaf(X[0]), H[0], False)
                frames = leaf(J)
                y = w.call_forward(m, tstack(copies(frames), w.tdim))
                res.transitions += 1
                res.outputs += 1
                compare(m, frames, [y], wantF, 7, [["F", T], [when]])
    res.sample = [["histories", len(H)], ["derivatives", len(params) + N]]
