"""C09 Parallel streams are routed and reduced as declared"""
import functools
import itertools
from collections import OrderedDict

import torch

from .. import nets
from ..explore import Violation, caught
from ..tensors import data, diff, init_weights
from .c01 import conv
from .c02 import pool

BOUNDS = {
    "quick": "all dispatch mappings of 3 streams with 1-2 entries (each a stream or a group of 1-2 streams) and with 3 entries "
    "(one of them a group); all flat mappings of length 2-3 between three stateful branches and each of 5 reductions; "
    "Parallel over 1-3 streams, nested and named, with members of different delay; Broadcast to 1-4 streams; all "
    "call histories over 3-8 frames of steps, chunks, end-padded chunks, look-aheads and forward",
    "thorough": "mappings with up to 3 groups and depth 3; all ordered member triples",
}
ASSUMPTIONS = ["a Parallel nested in a Parallel has the largest delay (the Delay module, hence also automatic delays, are for single streams)", "streams have equal batch and time dimensions", "no in-place modules", "mappings name streams by non-negative index"]

OPS = ["sum", "mul", "max", "concat", "wsum"]


def c(k, s=1, p=0, **kw):
    return conv(1, k, s, p, **kw)


MEMBERS = [c(1), c(3, 1, 1), c(2), ["fn", "add", 2], ["delay", 1], pool("Max", 1, 2, 1), ["seq", c(1), c(3)], ["fn", "id"]]
HALF = [c(1, 2), c(3, 2, 1), c(2, 2), pool("Avg", 1, 2, 2)]


def mappings(deep):
    ids = [0, 1, 2]
    groups = [[i] for i in ids] + [list(p) for p in itertools.product(ids, repeat=2)]
    if deep:
        groups += [[0, [1, 2]], [[2, 2], 1], [[0], [1, 0]], [2, 1, 0], [[[1]]]]
    items = ids + groups
    out = [[a] for a in items] + [[a, b] for a, b in itertools.product(items, repeat=2)]
    flat = [list(p) for p in itertools.product(ids, repeat=3)]
    out += flat
    for i, g in itertools.product(range(3), groups):
        for a, b in itertools.product(ids, repeat=2):
            m = [a, b]
            m.insert(i, g)
            out.append(m)
    if deep:
        out += [list(p) for p in itertools.product(groups[:6], repeat=3)]
        out += [list(p) for p in itertools.product(ids, repeat=4)]
    return out


def even(node):
    """Do all members of all branchings give equally long clips?"""
    if isinstance(node, (nets.Parallel, nets.Branches)):
        if any(len({k.length(t) for k in node.kids}) > 1 for t in range(1, 25)):
            return False
    return all(even(k) for k in node.kids)


def _world(tree, C=2, N=None, alpha="SCPscF", deep=False, **kw):
    node = nets.parse(tree)
    N = N or node.delay() + (2 * node.rate() + 3 if deep else node.rate() + 2)
    ft = [t for t in range(1, 40) if node.length(t)][:3]
    if not ft:
        alpha = alpha.replace("F", "")
    if not even(node):
        alpha = alpha.replace("P", "")
    if not deep and alpha == "SCPscF":
        _world.n += 1
        if _world.n % 4:
            alpha = "SCF" if "F" in alpha else "SCs"
    return dict(
        tree=tree, C=C, B=2, N=N, alpha=list(alpha), FT=ft, cj=[2], pj=[2], junk=1, epochs=1, cmin=1, cmax=99 if deep else 2, pmax=2,
        cost=N * len(repr(tree)), **kw,
    )


_world.n = 0


def tasks(tier):
    _world.n = 0
    T = tier == "thorough"
    out = []
    world = functools.partial(_world, deep=T)
    for i, m in enumerate(mappings(T)):
        out.append(world(["dispatch", m, ["list", "tuple"][i % 2]], [2, 3, 1], N=3))
    # reductions of given streams
    for op in OPS:
        for n in (2, 3, 4):
            C = [2] * n
            if op == "concat":
                C = [2, 3, 1, 2][:n]
            out.append(world(["reduce", op], C, N=3))
        if op != "concat":  # broadcastable shapes
            out.append(world(["reduce", op], [2, 1], N=3))
            out.append(world(["reduce", op], [1, 3, 1], N=3))
    for n in (1, 2, 3, 4):
        out.append(world(["bcast", n], 2, N=3))
    # dimensions of size 1
    one = [conv(1, 1, cin=1, cout=1), conv(1, 3, 1, 1, cin=1, cout=1), conv(1, 2, cin=1, cout=1), ["fn", "add", 2]]
    for op in OPS:
        for a, b in itertools.product(one, repeat=2):
            out.append(dict(world(["seq", ["bcast", 2], ["parallel", a, b], ["reduce", op]], 1), B=1))
    for m in ([0], [1, 0], [[0]], [[1, 0], 0]):
        out.append(dict(world(["dispatch", m], [1, 1], N=3), B=1))
    for a in MEMBERS:
        out.append(world(["seq", ["bcast", 1], ["parallel", a], ["reduce", ["concat", "wsum"][len(out) % 2]]]))  # the others reduce at least two
        out.append(world(["parallel", a, dict(names=["m"])], [2]))
    # module i for stream i
    for a in MEMBERS:
        out.append(world(["parallel", a], [2]))
    for a, b in itertools.product(MEMBERS, repeat=2):
        out.append(world(["parallel", a, b], [2, 2]))
        out.append(world(["seq", ["parallel", a, b], ["reduce", "wsum"]], [2, 2]))
    for a, b in itertools.product(HALF, repeat=2):
        out.append(world(["parallel", a, b, dict(names=["b", "a"])], [2, 2]))
    trip = itertools.permutations(MEMBERS, 3) if T else itertools.combinations(MEMBERS[:6], 3)
    for i, t in enumerate(trip):
        names = dict(names=["z", "y", "x"]) if i % 2 else {}
        out.append(world(["parallel", *t, names] if names else ["parallel", *t], [2, 2, 2]))
    for a, b, d in itertools.permutations(MEMBERS[:4] if not T else MEMBERS[:6], 3):
        # Delay, hence also automatic delays, are for single streams
        if nets.parse(d).delay() <= max(nets.parse(k).delay() for k in (a, b)):
            out.append(world(["parallel", ["parallel", a, b], d], [[2, 2], 2]))
        out.append(world(["seq", ["parallel", a, ["seq", ["parallel", b, d], ["reduce", "wsum"]]], ["reduce", "concat"]], [2, [2, 2]]))
    # dispatch between stateful branches
    three = [c(3, 1, 1), c(1), ["fn", "add", 1]]
    second = [c(2), ["fn", "id"], c(3, 1, 1)]
    n = 0
    for m in [list(p) for r in (2, 3) for p in itertools.product(range(3), repeat=r)]:
        n += 1
        for op in OPS if T else ["wsum", OPS[n % 5]]:
            out.append(world(["seq", ["bcast", 3], ["parallel", *three], ["dispatch", m], ["reduce", op]]))
        out.append(world(["seq", ["bcast", 3], ["parallel", *three], ["dispatch", m], ["parallel", *second[: len(m)]], ["reduce", "wsum"]]))
        out.append(world(["seq", ["dispatch", m], ["parallel", *second[: len(m)]], ["reduce", "wsum"]], [2, 2, 2]))
    # groups, reduced inside
    for g in [[0, 0], [0, 1], [1, 0], [1, 1], [2, 0, 1]]:
        for i, m in itertools.product(range(2), range(3)):
            mapping = [m]
            mapping.insert(i, g)
            inner = [c(1)]
            inner.insert(i, ["reduce", ["wsum", "mul", "max"][m]])
            out.append(world(["seq", ["bcast", 3], ["parallel", *three], ["dispatch", mapping], ["parallel", *inner], ["reduce", "wsum"]]))
            inner = [["seq", c(3, 1, 1), c(2)]]
            inner.insert(i, ["seq", ["reduce", "wsum"], c(2)])
            out.append(world(["seq", ["bcast", 3], ["parallel", *three], ["dispatch", mapping], ["parallel", *inner], ["reduce", "concat"]]))
    # streams that have nothing yet
    for a, b in itertools.permutations([c(1), c(2), c(3), c(3, 1, 1), ["delay", 2], ["fn", "add", 1]], 2):
        for op in OPS:
            for form in ("parallel", "br"):
                out.append(dict(kind="raw", form=form, op=op, members=[a, b], N=6))
    for op in OPS:
        out.append(dict(kind="raw", form="parallel", op=op, members=[c(2), c(4), c(1)], N=8))
        out.append(dict(kind="raw", form="br", op=op, members=[c(2), c(4), c(1)], N=8))
    # two stages, every history of calls
    first = [c(1), c(3), ["delay", 1], ["fn", "add", 1], c(3, 1, 1)]
    second = [c(2), ["fn", "id"], c(3), ["delay", 2]]
    n = 0
    for a, b in itertools.permutations(first, 2):
        for m in ([0, 1], [1, 0], [0, 0, 1]):
            for d in range(len(second) if T else 2):
                n += 1
                ms = [second[(n + d + i) % 4] for i in range(len(m))]
                out.append(dict(kind="raw2", first=[a, b], dispatch=m, second=ms, op=None, N=6 if T else 5))
                out.append(dict(kind="raw2", first=[a, b], dispatch=m, second=ms, op=OPS[n % 5], N=7))
    return out


def run(task, res):
    try:
        with torch.no_grad():
            {"raw": _run, "raw2": _run2}[task["kind"]](task, res)
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation(f"{caught(e)!r}", []) from e


def _run(task, res):
    """Members of different delay without automatic delays, step by step: what is available at one
    frame is combined at this frame, and nothing as long as a member has nothing"""
    import continual as co

    op = nets.wsum if task["op"] == "wsum" else task["op"]

    def members():
        ms = []
        for i, t in enumerate(task["members"]):
            m = co.continual(nets.parse(t).make()).double()
            ms.append(init_weights(m, i))
        return ms

    ms = members()
    if task["form"] == "br":
        net = co.BroadcastReduce(*ms, reduce=op, auto_delay=False)
        streams = None
    else:
        streams = co.Parallel(*ms, auto_delay=False)
        net = co.Sequential(co.Broadcast(), streams, co.Reduce(op))
    alone = members()
    for m in (net if streams is None else streams,):
        for attr in ("delay", "receptive_field"):
            if not getattr(m, attr) == max(getattr(k, attr) for k in ms):
                raise Violation(f"{type(m).__name__}.{attr} is {getattr(m, attr)} with members of {[getattr(k, attr) for k in ms]}", [])
    for epoch in range(2):
        for t in range(task["N"]):
            x = data((2, 2), "x", epoch, t)
            ys = [m.forward_step(x.clone()) for m in alone]
            exp = None if any(y is None for y in ys) else nets._combine(task["op"], ys)
            obs = net.forward_step(x.clone())
            res.states += 1
            res.transitions += 1
            res.outputs += exp is not None
            res.placeholders += exp is None
            d = diff(obs, exp, f"frame {t} of stream {epoch}")
            if d:
                raise Violation(d, [["S"]] * (t + 1))
        net.clean_state()
        for m in alone:
            m.clean_state()
    # the streams themselves
    if streams is not None:
        for t in range(task["N"]):
            xs = [data((2, 2), "y", i, t) for i in range(len(ms))]
            obs = streams.forward_step([x.clone() for x in xs])
            exp = [m.forward_step(x.clone()) for m, x in zip(alone, xs)]
            res.transitions += 1
            for i, (o, e) in enumerate(zip(obs, exp, strict=True)):
                d = diff(o, e, f"stream {i}, frame {t}")
                if d:
                    raise Violation(d, [["S"]] * (t + 1))
    res.traces += 1
    res.sample = [["S"]] * task["N"]


def cuts(n, kinds):
    """All sequences of calls that consume n frames; ``kinds``: operation -> largest number of frames"""
    if n == 0:
        yield ()
    for k, top in kinds.items():
        for j in range(1, min(top, n) + 1):
            for rest in cuts(n - j, kinds):
                yield ((k, j),) + rest


def _run2(task, res):
    """Two stages of parallel streams of different delay: every stream is its own chain of modules,
    whatever the other streams have so far"""
    import continual as co

    op = nets.wsum if task["op"] == "wsum" else task["op"]

    def make(t, seed):
        return init_weights(co.continual(nets.parse(t).make()).double(), seed)

    def build():
        mods = [
            co.Broadcast(),
            co.Parallel(*[make(t, i) for i, t in enumerate(task["first"])], auto_delay=False),
            co.ParallelDispatch(task["dispatch"]),
            co.Parallel(*[make(t, 10 + i) for i, t in enumerate(task["second"])], auto_delay=False),
        ]
        return co.Sequential(*mods, *([co.Reduce(op)] if op else []))

    # What every stream gives at every frame
    N = task["N"]
    xs = [data((2, 2), "z", t) for t in range(N)]
    exp = []
    for i, m in enumerate(task["dispatch"]):
        chain = [make(task["first"][m], m), make(task["second"][i], 10 + i)]
        ys = []
        for x in xs:
            for mod in chain:
                x = None if x is None else mod.forward_step(x.clone())
            ys.append(x)
        exp.append(ys)

    if op:
        kinds = {"S": 1, "C": 1, "T": 1}
    else:
        kinds = {"S": 1, "C": 3, "T": 1}
    net = build()
    for hist in cuts(N, kinds):
        if any(a[0] == "T" for a in hist) and any(a[0] != "T" for a in hist):
            continue  # functional calls keep the state outside the module
        net.clean_state()
        t, state = 0, None
        for n, (k, j) in enumerate(hist):
            path = [list(h) for h in hist[: n + 1]]
            if k == "S":
                obs = net.forward_step(xs[t].clone())
            elif k == "C":
                obs = net.forward_steps(torch.stack(xs[t : t + j], 2))
            else:
                obs, state = net._forward_step(xs[t].clone(), state)
            res.states += 1
            res.transitions += 1
            per = [ys[t : t + j] for ys in exp]
            if op:
                now = [ys[0] for ys in per]
                want = None if any(y is None for y in now) else nets._combine(task["op"], now)
                got = obs[:, :, 0] if k == "C" and isinstance(obs, torch.Tensor) else obs
                pairs = [(got, want)]
            else:
                if not isinstance(obs, list) or len(obs) != len(per):
                    raise Violation(f"expected {len(per)} streams, got {obs!r}", path)
                pairs = []
                for o, ys in zip(obs, per):
                    ys = [y for y in ys if y is not None]
                    if k == "C" and isinstance(o, torch.Tensor) and o.shape[2] == 0:
                        o = None
                    want = (torch.stack(ys, 2) if k == "C" else ys[0]) if ys else None
                    pairs.append((o, want))
            for i, (o, want) in enumerate(pairs):
                res.outputs += want is not None
                res.placeholders += want is None
                d = diff(o, want, f"stream {i} from frame {t}")
                if d:
                    raise Violation(d, path)
            t += j
        res.traces += 1
        res.sample = [list(h) for h in hist]
