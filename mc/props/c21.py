"""C21 Modules without memory apply one function to every frame, in every mode and after every history

All histories of calls up to a depth over every constructor form of the stateless modules; the expected
result of each call is a formula of its own input alone (torch only).
"""
import itertools

import torch
from torch import nn

from ..explore import Violation, caught
from ..tensors import data, diff, fingerprint

BOUNDS = {
    "quick": "Lambda with every admissible subset of its four functions, with and without takes_time, built in three ways; Add and Multiply with "
    "numbers and tensors of every broadcastable clip shape; Constant, Zero, One, Identity; Linear over either channel dimension; Reshape to "
    "every factorisation of small shapes; naively converted and forward_stepping-wrapped modules; frames of ranks 2-4 with sizes 1 to 3 "
    "(also all of size 1); alone, within a Sequential and as branches; the search over 16 operations closes (one or two states, merged by everything the module holds); for "
    "every 13th world all histories of 2 operations unmerged",
    "thorough": "all histories of 2 operations unmerged everywhere",
}
ASSUMPTIONS = [
    "functions given to Lambda act on the frames independently (the batch and spatial dimensions may be mixed)",
    "naively converted modules that act element-wise or over the channel dimension",
]


def f_mix(x):  # a function of one frame (B, C, ...)
    return torch.flip(x, [1]) * 2 - x * x


def f_time(x):  # of a clip (B, C, T, ...), frame-wise
    return torch.flip(x, [1]) * 2 - x * x


def g_fwd(x):
    return x * 3 + 1


def g_step(x):
    return x * 5 - 2


def g_steps(x):
    return x * 7 + 4


class Spec:
    """module factory and the expected results of forward, forward_step and forward_steps"""

    def __init__(self, make, frame, fwd=None, step=None, steps=None, sized=True):
        self.make, self.frame = make, frame
        clip = lambda x: torch.stack([frame(x[:, :, t]) for t in range(x.shape[2])], 2)  # noqa: E731
        self.fwd, self.step, self.steps = fwd or clip, step or frame, steps or clip


def lambdas(co):
    out = []
    for mask in itertools.product((0, 1), repeat=4):
        if not mask[0] and not all(mask[1:]):
            continue
        for tt in (False, True):
            fns = [f for f, on in zip((f_time if tt else f_mix, g_fwd, g_step, g_steps), mask)]
            args = [f if on else None for f, on in zip(fns, mask)]
            per = dict(
                frame=f_mix, fwd=g_fwd if mask[1] else None, step=g_step if mask[2] else None, steps=g_steps if mask[3] else None
            )
            kw = dict(zip(("fn", "forward_only_fn", "forward_step_only_fn", "forward_steps_only_fn"), args))
            for how in ("args", "kw", "from"):
                make = {
                    "args": lambda a=args, t=tt: co.Lambda(*a, takes_time=t),
                    "kw": lambda k=kw, t=tt: co.Lambda(**{n: v for n, v in k.items() if v}, takes_time=t),
                    "from": lambda k=kw, t=tt: co.Lambda.build_from(**k, takes_time=t),
                }[how]
                out.append((f"lambda-{mask}-{tt}-{how}", Spec(make, **per)))
    for name, f in (("relu", torch.relu), ("functor", nn.Sigmoid()), ("anonymous", lambda x: x - x.mean(1, keepdim=True))):
        out.append((f"lambda-{name}", Spec(lambda f=f: co.Lambda(f), f)))
        out.append((f"lambda-{name}-time", Spec(lambda f=f: co.Lambda(f, takes_time=True), f)))
        if name == "anonymous":
            out.append((f"callable-{name}", Spec(lambda f=f: co.Sequential(f), f)))
    return out


def closures(co, B, C, sp):
    out = []
    for n, c in (("float", 2.5), ("int", 3), ("zero", 0.0), ("negative", -1.5)):
        out.append((f"add-{n}", Spec(lambda c=c: co.Add(c), lambda x, c=c: x + c)))
        out.append((f"mul-{n}", Spec(lambda c=c: co.Multiply(c), lambda x, c=c: x * c)))
        out.append((f"const-{n}", Spec(lambda c=c: co.Constant(c), lambda x, c=c: torch.full_like(x, c))))
    full = (B, C, 1, *sp)
    shapes = {()}
    for bits in itertools.product((0, 1), repeat=len(full)):
        s = tuple(d if b else 1 for d, b in zip(full, bits))
        for k in range(len(s)):
            if all(d == 1 for d in s[:k]):
                shapes.add(s[k:])
    for s in sorted(shapes):
        c = data(s, "const", s)
        # dimensions from the right: the time dimension is the one before the spatial ones
        rank = len(s)
        cut = rank - len(sp) - 1
        frame_c = c.squeeze(cut) if cut >= 0 else c
        out.append((f"add-{s}", Spec(lambda c=c: co.Add(c.clone()), lambda x, c=frame_c: x + c)))
        out.append((f"mul-{s}", Spec(lambda c=c: co.Multiply(c.clone()), lambda x, c=frame_c: x * c)))
    out.append(("zero", Spec(lambda: co.Zero(), torch.zeros_like)))
    out.append(("one", Spec(lambda: co.One(), torch.ones_like)))
    out.append(("identity", Spec(lambda: co.Identity(), lambda x: x)))
    out.append(("identity-args", Spec(lambda: co.Identity(54, unused=0.1), lambda x: x)))
    return out


def weights(m):
    with torch.no_grad():
        for n, p in m.named_parameters():
            p.copy_(data(tuple(p.shape), "w", n))
    return m


def lin(w, b, x, dim):
    y = torch.movedim(torch.movedim(x, dim, -1) @ w.T, -1, dim)
    return y if b is None else y + b.reshape([-1] + [1] * (x.dim() - 1 - dim % x.dim()))


def linears(co, C, sp):
    out = []
    for dim in (1, -1) if sp else (1,):
        n = C if dim == 1 else sp[-1]
        for m in (1, 2, 3):
            for bias in (True, False):
                for how in ("direct", "from", "converted"):
                    if how == "converted" and dim != -1:
                        continue

                    def make(n=n, m=m, bias=bias, how=how, dim=dim):
                        if how == "direct":
                            return weights(co.Linear(n, m, bias, dtype=torch.float64, channel_dim=dim))
                        r = weights(nn.Linear(n, m, bias, dtype=torch.float64))
                        return co.Linear.build_from(r, channel_dim=dim) if how == "from" else co.continual(r)

                    w, b = data((m, n), "w", "weight"), data((m,), "w", "bias") if bias else None
                    out.append((f"linear-{dim}-{n}-{m}-{bias}-{how}", Spec(make, lambda x, w=w, b=b, d=dim: lin(w, b, x, d))))
    return out


def factorisations(n, parts):
    if parts == 1:
        return [(n,)]
    return [(d, *r) for d in range(1, n + 1) if n % d == 0 for r in factorisations(n // d, parts - 1)]


def reshapes(co, B, C, sp):
    n = C
    for s in sp:
        n *= s
    out = []
    for parts in (1, 2, 3):
        for f in factorisations(n, parts):
            s = (B, *f)
            for cont in (False, True):
                out.append((f"reshape-{s}-{cont}", Spec(lambda s=s, c=cont: co.Reshape(*s, contiguous=c), lambda x, s=s: x.reshape(s))))
            out.append((f"reshape-tuple-{s}", Spec(lambda s=s: co.Reshape(s), lambda x, s=s: x.reshape(s))))
    out.append(("reshape-free", Spec(lambda: co.Reshape(B, -1), lambda x: x.reshape(B, -1))))
    return out


def naive(co, C, sp):
    mods = [
        lambda: nn.ReLU(), lambda: nn.Tanh(), lambda: nn.GELU(), lambda: nn.LeakyReLU(0.3), lambda: nn.Hardswish(), lambda: nn.Softplus(2.0),
        lambda: nn.Softmax(1), lambda: nn.LogSoftmax(1), lambda: nn.Softmin(1), lambda: nn.PReLU(dtype=torch.float64), lambda: nn.Threshold(0.1, 5.0),
        lambda: nn.Dropout(0.5).eval(),
    ]
    if C % 2 == 0:
        mods.append(lambda: nn.GLU(1))
    if not sp:
        def bn():
            m = weights(nn.BatchNorm1d(C, dtype=torch.float64)).eval()
            m.running_mean.copy_(data((C,), "rm"))
            m.running_var.copy_(data((C,), "rv").abs() + 0.5)
            return m

        mods.append(bn)
    out = []
    for k, mk in enumerate(mods):
        ref = mk()
        name = type(ref).__name__
        clip = lambda x, r=ref: r(x)  # noqa: E731
        frame = lambda x, r=ref: r(x.unsqueeze(2)).squeeze(2)  # noqa: E731
        out.append((f"converted-{name}", Spec(lambda mk=mk: co.continual(mk()), frame, clip, frame, clip)))
        out.append((f"wrapped-{name}", Spec(lambda mk=mk: co.forward_stepping(mk()), frame, clip, frame, clip)))
        out.append((f"member-{name}", Spec(lambda mk=mk: co.Sequential(mk()), frame, clip, frame, clip)))
    return out


def wrappers(co, name, s):
    """The module alone, as a member of a network, and as a branch"""
    yield name, s
    yield name + "/seq", Spec(lambda: co.Sequential(co.Identity(), s.make()), s.frame, s.fwd, s.step, s.steps)
    yield name + "/nested", Spec(lambda: co.Sequential(co.Sequential(s.make()), co.Multiply(2)), None, *[(lambda x, g=g: g(x) * 2) for g in (s.fwd, s.step, s.steps)])
    yield name + "/branch", Spec(
        lambda: co.BroadcastReduce(s.make(), s.make(), reduce="sum"), None, *[(lambda x, g=g: g(x) + g(x)) for g in (s.fwd, s.step, s.steps)]
    )


SIZES = [(2, 2, ()), (1, 1, ()), (1, 3, ()), (3, 1, ()), (2, 2, (3,)), (1, 1, (1,)), (2, 1, (2,)), (1, 2, (1, 3)), (1, 1, (1, 1)), (2, 3, (2, 1))]
GROUPS = ["lambda", "closure", "linear", "reshape", "naive"]


def specs(group, B, C, sp):
    import continual as co

    return {
        "lambda": lambda: lambdas(co),
        "closure": lambda: closures(co, B, C, sp),
        "linear": lambda: linears(co, C, sp),
        "reshape": lambda: reshapes(co, B, C, sp),
        "naive": lambda: naive(co, C, sp),
    }[group]()


def tasks(tier):
    out = []
    parts = 2
    for i, (B, C, sp) in enumerate(SIZES):
        for g in GROUPS:
            for part in range(parts):
                out.append(dict(kind="stateless", group=g, B=B, C=C, sp=list(sp), part=part, parts=parts, deep=tier == "thorough", cost=5 + len(sp), name=f"{g}-{B}-{C}-{sp}-{part}".replace(" ", "")))
    # the dimension of forward_stepping
    for dim in (1, 2, 3):
        out.append(dict(kind="stateless", group="dim", dim=dim, B=2, C=3, sp=[], part=0, parts=1, deep=tier == "thorough", name=f"dim-{dim}"))
    return out


OPS = (
    [["S"], ["s"]]
    + [["C", T] for T in (1, 2, 3)]
    + [["P", T] for T in (1, 2)]
    + [["c", 2], ["p", 2]]
    + [["F", T] for T in (1, 2, 3)]
    + [["K"], ["G"], ["T"], ["E"]]
)


def run(task, res):
    try:
        with torch.no_grad():
            (run_dim if task["group"] == "dim" else run_group)(task, res)
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation(f"{caught(e)!r}", []) from e


def run_group(task, res):
    import continual as co

    B, C, sp = task["B"], task["C"], tuple(task["sp"])
    todo = [w for n, s in specs(task["group"], B, C, sp) for w in wrappers(co, n, s)]
    for k, (name, s) in enumerate(todo):
        if k % task["parts"] != task["part"]:
            continue
        depth = 2 if task["deep"] or k % 13 == 0 else 1
        check(name, s, B, C, sp, depth, res, elementwise="naive" != task["group"])
    res.sample = [["modules", len(todo)], ["operations", len(OPS)]]


def check(name, s, B, C, sp, depth, res, elementwise):
    from ..explore import tick

    tick()
    clips = {(k, T): data((B, C, T, *sp), "x", k, T) for k in range(3) for T in (1, 2, 3)}
    want = {}
    for (k, T), x in clips.items():
        want["F", k, T] = s.fwd(x)
        want["C", k, T] = s.steps(x)
        if T == 1:
            want["S", k, 1] = s.step(x[:, :, 0])
    m = s.make()
    meta = (int(m.delay), int(m.receptive_field))
    if meta != (0, 1):
        raise Violation(f"{name}: delay and receptive field {meta}", [[name]])
    seen, todo = {fingerprint(m): ()}, [()]
    while todo:
        past = todo.pop()
        # every operation in every reachable state; past a depth of 2 only new states count
        for op in OPS:
            m = s.make()
            m.eval()
            hist = [[name], *past, op]
            for o in past:
                apply(name, s, m, o, clips, want, elementwise, hist, res)
            apply(name, s, m, op, clips, want, elementwise, hist, res)
            res.traces += 1
            key = fingerprint(m)
            if key not in seen or len(past) + 1 < depth:
                seen.setdefault(key, (*past, op))
                todo.append((*past, op))
                if len(seen) > 12:
                    raise Violation(f"{name}: more than 12 states are reachable", hist)
    res.states += len(seen)


def apply(name, s, m, op, clips, want, elementwise, hist, res):
    res.transitions += 1
    T = op[1] if len(op) > 1 else 1
    k = (res.transitions // 3) % 3
    x = clips[k, T].clone()
    try:
        if op[0] in "Ss":
            y = m.forward_step(x[:, :, 0], **({} if op[0] == "S" else dict(update_state=False)))
            w = want["S", k, 1]
        elif op[0] == "F":
            y, w = m.forward(x), want["F", k, T]
        elif op[0] in "CPcp":
            y, w = m.forward_steps(x, pad_end=op[0] in "Pp", update_state=op[0] in "CP"), want["C", k, T]
        elif op[0] == "K":
            m.clean_state()
            return
        elif op[0] == "G":
            st = m.get_state()
            if st is not None:
                m.set_state(st)
            return
        else:  # T, E: the training mode changes nothing for these
            m.train(op[0] == "T" and elementwise)
            return
    except Exception as e:  # noqa
        raise Violation(f"{name}: {caught(e)!r}", hist) from e
    res.outputs += 1
    d = diff(y, w, f"{name}: {op}")
    if d:
        raise Violation(d, hist)
    if not torch.equal(x, clips[k, T]):
        raise Violation(f"{name}: the input is changed", hist)


def run_dim(task, res):
    """forward_stepping(module, dim): the dimension that a step lacks"""
    import continual as co

    dim = task["dim"]
    shape = [2, 3, 4, 5]
    mods = {
        "linear": lambda: weights(nn.Linear(5, 2, dtype=torch.float64)),
        "relu": lambda: nn.ReLU(),
        "avg": lambda: nn.AvgPool2d((1, 2)),
    }
    for name, mk in mods.items():
        ref = mk()
        if dim == 3 and name != "relu":
            continue
        for size in (1, 2, 4):
            sh = list(shape)
            sh[dim] = size
            for ops in itertools.product("SCF", repeat=3 if task["deep"] else 2):
                m = co.forward_stepping(mk(), dim) if dim != 2 else co.forward_stepping(mk())
                res.traces += 1
                for k, op in enumerate(ops):
                    x = data(sh, "d", k)
                    hist = [[name, dim, size], *[[o] for o in ops[: k + 1]]]
                    y = {"S": lambda: m.forward_step(x.select(dim, 0)), "C": lambda: m.forward_steps(x), "F": lambda: m.forward(x)}[op]()
                    w = ref(x.narrow(dim, 0, 1)).squeeze(dim) if op == "S" else ref(x)
                    res.transitions += 1
                    res.outputs += 1
                    d = diff(y, w, f"{name} over dimension {dim}: {op}")
                    if d:
                        raise Violation(d, hist)
                res.states += len(ops)
    res.sample = [["dimension", dim]]
