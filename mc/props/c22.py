"""C22 Only the values of the input matter, not its memory layout, tensor class or gradient mode (self oracle: plain tensors)"""
import torch
from torch import Tensor, nn

from ..explore import Live, Violation, World, caught, tick
from ..tensors import data, diff, tmap
from ..zoo import world, zoo
from . import c21

BOUNDS = {
    "quick": "73 modules and networks: all histories of span + 2 (at most 6) frames over {step, chunk, flush, look-ahead, forward} where every call "
    "gets its input as one of {contiguous, batch dimension innermost, every second element of a larger tensor from an offset, expanded over the batch, "
    "nn.Parameter, subclass of Tensor, leaf requiring gradients, plain but with gradients enabled, inference mode}; states merged by everything the "
    "module holds including strides, offsets and gradient flags of its tensors; unmerged: all histories of 2 calls after a full window; all constructor forms of the modules without memory (C21), every call mode and layout",
    "thorough": "span + 3 frames, unmerged histories of 3 calls",
}
ASSUMPTIONS = [
    "chunks of at least one frame", "inference mode is not mixed with other modes and subclasses of Tensor not with recorded gradients (restrictions of PyTorch)",
]


class Sub(Tensor):
    pass


# calls mixed within a history
GROUPS = [
    ["plain", "inner", "slice", "param", "leaf", "grad", "expand"],
    ["plain", "sub", "param", "inner"],
    ["inference", "inference-inner", "inference-slice"],
]


def lay(x, how):
    x = x.detach().clone()
    if how == "inner":
        d = list(range(x.dim()))[::-1]
        return x.permute(d).contiguous().permute(d)
    if how == "slice":
        big = x.new_full([2 * n + 3 for n in x.shape], 123.0)
        view = big[tuple(slice(1, 1 + 2 * n, 2) for n in x.shape)]
        view.copy_(x)
        return view
    if how == "param":
        return nn.Parameter(x, requires_grad=False)
    if how == "sub":
        return x.as_subclass(Sub)
    if how == "leaf":
        return x.requires_grad_(True)
    if how == "expand":
        return x[:1].expand_as(x)
    return x


def held(m):
    """Layout of everything a module holds"""
    out = []

    def walk(x):
        if isinstance(x, Tensor):
            out.append((tuple(x.stride()), x.storage_offset(), type(x).__name__, x.requires_grad, x.is_inference()))
        elif isinstance(x, (list, tuple)):
            for i in x:
                walk(i)
        elif isinstance(x, dict):
            for i in x.values():
                walk(i)

    for s in m.modules():
        for k, v in s.__dict__.items():
            if k not in ("_parameters", "_modules"):
                walk(v)
    return tuple(out)


class LayoutWorld(World):
    """Operations as in World with a layout at the end"""

    def __init__(self, task):
        super().__init__(task)
        if "expand" in task["lays"]:  # all samples of the batch are equal
            same = lambda e: [tmap(lambda t: t.narrow(self.bdim, 0, 1).expand_as(t).clone(), x) for x in e]  # noqa: E731
            self.X, self.J = [same(e) for e in self.X], [same(e) for e in self.J]
            self.memo.clear()

    bdim = 0

    def ops(self, g):
        return [[*o, l] for o in super().ops(g) for l in self.task["lays"]]

    def live(self):
        return LayoutLive(self)


class LayoutLive(Live):
    def key(self):
        return super().key(), held(self.m)

    def call(self, method, x, **kw):
        how = self.hist[-1][-1]
        if how.startswith("inference"):
            with torch.inference_mode():
                return super().call(method, tmap(lambda t: lay(t, how[10:]), x), **kw)
        with torch.set_grad_enabled(how in ("leaf", "grad")):
            return super().call(method, tmap(lambda t: lay(t, how), x), **kw)


def tasks(tier):
    T = tier == "thorough"
    out = []
    for i, e in enumerate(zoo()):
        W = dict(world="props.c22:LayoutWorld", epochs=1, junk=1, cj=[2], pj=[2], pmax=2, cmax=min(e.get("cmax", 99), 2), FT=[min(e.get("cmax", 99), e["span"] + 2)])
        n = e["span"] + (3 if T else 2)
        a = ["S", "C", "P", "s", "F"]
        for k, ls in enumerate(GROUPS):
            ls = [x for x in ls if x != "expand" or e.get("tdim") != 0]
            o = dict(W, lays=ls, train=bool(i % 3 == 1 and not e["notrain"]))
            out.append(world(e, a, **dict(o, tag=f"merged{k}", N=min(n, 7 if T else 6))))
            pre = [["S", ls[0]]] * (e["span"] - 1) + [["S", ls[1]]]
            out.append(world(e, a, **dict(o, tag=f"tree{k}", N=n + 8, kind="tree", depth=3 if T else 2, prefix=pre)))
    # modules without memory: all constructor forms, all call modes
    for B, C, sp in c21.SIZES:
        for g in c21.GROUPS:
            out.append(dict(kind="stateless", group=g, B=B, C=C, sp=list(sp), name=f"{g}-{B}-{C}-{sp}".replace(" ", "")))
    return out


def run(task, res):
    try:
        _run(task, res)
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation(f"{caught(e)!r}", []) from e


def _run(task, res):
    B, C, sp = task["B"], task["C"], tuple(task["sp"])
    with torch.no_grad():
        specs = c21.specs(task["group"], B, C, sp)
    for name, s in specs:
        tick()
        with torch.no_grad():
            m = s.make().eval()
        for lays in GROUPS:
            for how in lays:
                for op, T in [("S", 1), *((o, T) for o in "CF" for T in (1, 2, 3))]:
                    x = data((B, C, T, *sp), "x", T)
                    if op == "S":
                        x = x[:, :, 0].contiguous()
                    if how == "expand":
                        x = x[:1].expand_as(x).clone()
                    hist = [[name, op, T, how]]
                    with torch.no_grad():
                        want = {"S": s.step, "C": s.steps, "F": s.fwd}[op](x.clone())
                    if how.startswith("inference"):
                        mode, arg = torch.inference_mode(), None
                    else:
                        mode, arg = torch.set_grad_enabled(how in ("leaf", "grad")), lay(x, how)
                    with mode:
                        arg = lay(x, how[10:]) if arg is None else arg
                        try:
                            y = {"S": m.forward_step, "C": m.forward_steps, "F": m.forward}[op](arg)
                        except Exception as e:  # noqa
                            raise Violation(f"{name} with {how}: {caught(e)!r}", hist) from e
                        res.transitions += 1
                        res.outputs += 1
                        d = diff(torch.Tensor.detach(y).as_subclass(Tensor), want, f"{name} with {how}: {op}")
                        if d is None and not torch.equal(arg.detach().as_subclass(Tensor), x):
                            d = f"{name} with {how}: the input is changed"
                    if d:
                        raise Violation(d, hist)
        res.traces += 1
        res.states += 1
    res.sample = [["modules", len(specs)]]
