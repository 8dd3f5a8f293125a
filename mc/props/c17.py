"""C17 State dicts hold the weights, all of them and nothing else"""
import io
import itertools
from collections import OrderedDict

import torch
from torch import nn

from .. import explore, nets, zoo
from ..explore import Raised, Violation, caught
from ..tensors import data, diff, init_weights, nothing, observable

BOUNDS = {
    "quick": "48 counterpart pairs (both directions); every zoo module and network with all histories of length 3 over {step, chunk, "
    "flush, forward, clean, state transplant, load}; 5 naming trees of depth 3 with up to 3 members each, all programs of length 4 "
    "over {enter, leave, raise, save, save flat, load, load flat, attribute on/off} and all pairs of save and load modes",
    "thorough": "histories of length 4, programs of length 6",
}
ASSUMPTIONS = [
    "state dicts that are not flattened are not loaded in flattening mode (and vice versa) unless the names are the same",
    "flattened names are the full names without their numeric parts",
    "non-strict flattened loading of partial state dicts is excluded",
]


# --- counterparts ---------------------------------------------------------
def counterparts():
    out = []
    for d in (1, 2, 3):
        for bias, g in itertools.product((True, False), (1, 2)):
            kw = dict(kernel_size=2, bias=bias, groups=g)
            out.append((f"Conv{d}d", [4, 6], kw, {}))
        out.append((f"AvgPool{d}d", [2], {}, {}))
        out.append((f"MaxPool{d}d", [2], {}, {}))
        if d > 1:
            out.append((f"AdaptiveAvgPool{d}d", [(1,) * d], {}, dict(kernel_size=3)))
            out.append((f"AdaptiveMaxPool{d}d", [(1,) * d], {}, dict(kernel_size=3)))
    for bias in (True, False):
        out.append(("Linear", [4, 5], dict(bias=bias), {}))
        for c in ("RNN", "GRU", "LSTM"):
            for L in (1, 2):
                out.append((c, [4, 3], dict(num_layers=L, bias=bias), {}))
        for kd in ({}, dict(kdim=3, vdim=5)):
            for c in ("SingleOutputMultiheadAttention", "RetroactiveMultiheadAttention"):
                out.append((c, [4, 2], dict(bias=bias, **kd), dict(sequence_len=3)))
    return out


def run_counterparts(task, res):
    import continual as co

    for name, args, kw, cokw in counterparts():
        for dtype in (torch.float64, torch.float32):
            hist = [[name, str(args), str(kw), str(dtype)]]
            regular = getattr(nn, name if "Attention" not in name else "MultiheadAttention")(*args, **kw).to(dtype)
            mine = (getattr(co, name)(*args, **kw, **cokw)).to(dtype)
            init_weights(regular, "a")
            init_weights(mine, "b")
            res.states += 1
            res.traces += 2
            for a, b, what in ((regular, mine, "torch.nn to continual"), (mine, regular, "continual to torch.nn")):
                res.transitions += 1
                explore.tick()
                sa, sb = a.state_dict(), b.state_dict()
                if list(sa) != list(sb) or [v.shape for v in sa.values()] != [v.shape for v in sb.values()]:
                    raise Violation(f"keys {[(k, list(v.shape)) for k, v in sa.items()]} and {[(k, list(v.shape)) for k, v in sb.items()]}", hist)
                init_weights(a, what)
                sa = {k: v.clone() for k, v in a.state_dict().items()}
                r = b.load_state_dict(sa)
                if r.missing_keys or r.unexpected_keys:
                    raise Violation(f"{what}: {r}", hist)
                for k, v in b.state_dict().items():
                    res.outputs += 1
                    if not torch.equal(v, sa[k]) or v.dtype != dtype:
                        raise Violation(f"{what}: {k} differs after loading", hist)


# --- streams ----------------------------------------------------------------
OPS = ("step", "steps", "flush", "forward", "clean", "peek", "transplant", "load", "cycle")


class Streamed:
    def __init__(self, e, res, hist):
        self.e, self.res, self.hist = e, res, hist
        self.node = nets.parse(e["tree"])
        self.dtype = torch.float32 if e.get("dtype") == "f32" else torch.float64
        self.C, self.sp = e["C"], tuple(e.get("sp", ()))
        self.m = self.fresh()
        self.twin = self.fresh()
        self.sd = [(k, v.clone()) for k, v in self.m.state_dict().items()]
        self.t = 0

    def fresh(self, tag=""):
        return nets.build(nets.parse(self.e["tree"]), self.dtype, tag=tag)

    def x(self, n=None):
        k = n or 1

        def one(C, i):
            v = data((2, C, 40, *self.sp), "x", i, dtype=self.dtype)[:, :, self.t : self.t + k].clone()
            return v if n else v[:, :, 0]

        if self.e.get("tdim", 2) != 2:
            v = data((2, 40, self.C), "x", dtype=self.dtype)[:, self.t : self.t + k].clone()
            v = v if n else v[:, 0]
            if self.e.get("tdim") == 0 and n:
                v = v.transpose(0, 1)
            return v
        if isinstance(self.C, list):
            return [one(C, i) for i, C in enumerate(self.C)]
        return one(self.C, 0)

    def call(self, m, op):
        with torch.no_grad():
            try:
                if op == "step":
                    return m.forward_step(self.x())
                if op == "peek":
                    return m.forward_step(self.x(), update_state=False)
                if op == "steps":
                    return m.forward_steps(self.x(3))
                if op == "flush":
                    return m.forward_steps(self.x(2), pad_end=True)
                if op == "forward":
                    return m.forward(self.x(12 if "'rpe" not in repr(self.e["tree"]) else 3))
            except Exception as ex:  # noqa
                return caught(ex)

    def apply(self, op):
        self.hist.append(op)
        explore.tick()
        self.res.transitions += 1
        if op in ("step", "steps", "flush", "forward", "peek"):
            if op == "flush" and not self.e["pads"] or op == "forward" and self.e.get("nofwd"):
                return
            a, b = self.call(self.m, op), self.call(self.twin, op)
            self.cmp(op, a, b)
            self.t += {"step": 1, "steps": 3, "flush": 2}.get(op, 0)
        elif op == "clean":
            self.m.clean_state()
            self.twin.clean_state()
        elif op == "transplant":
            # into another instance with the same weights, by state dict and state
            s = self.m.get_state()
            n = self.fresh("other")
            n.load_state_dict(self.m.state_dict())
            n.train(self.m.training)
            if s is not None:
                n.set_state(s)
            self.m = n
        elif op == "load":
            # loading weights leaves the stream as it is
            before = observable(self.m)
            r = self.m.load_state_dict(OrderedDict((k, v.clone()) for k, v in self.sd))
            if r.missing_keys or r.unexpected_keys:
                self.fail(f"loading: {r}")
            if observable(self.m) != before:
                self.fail("loading its own weights changed the module")
        elif op == "cycle":
            # through a file, other weights in between
            f = io.BytesIO()
            torch.save(self.m.state_dict(), f)
            before = observable(self.m)
            other = self.fresh("other").state_dict()
            self.m.load_state_dict(other)
            f.seek(0)
            self.m.load_state_dict(torch.load(f))
            if observable(self.m) != before:
                self.fail("loading other weights and then its own changed the module")
        self.check()

    def check(self):
        now = list(self.m.state_dict().items())
        if [k for k, _ in now] != [k for k, _ in self.sd]:
            self.fail(f"keys {[k for k, _ in now]}, expected {[k for k, _ in self.sd]}")
        for (k, v), (_, w) in zip(now, self.sd):
            self.res.outputs += 1
            if v.shape != w.shape or v.dtype != w.dtype or not torch.equal(v, w):
                self.fail(f"{k} changed from {w} to {v}")

    def cmp(self, what, a, b):
        if isinstance(a, Raised) and isinstance(b, Raised):
            return  # not a matter of the weights
        if nothing(a) and nothing(b):
            self.res.placeholders += 1
            return
        d = diff(a, b, what, **({"rtol": self.e["rtol"]} if "rtol" in self.e else {}))
        if d:
            self.fail(d)

    def fail(self, msg):
        raise Violation(msg, list(self.hist))


def run_stream(task, res):
    e = next(e for e in zoo.zoo() if e["name"] == task["entry"])
    for n in range(1, task["depth"] + 1):
        for p in itertools.product(OPS, repeat=n):
            if n < task["depth"] and task["depth"] > 1 and n > 1:
                continue  # contained in the longer ones
            hist = []
            s = Streamed(e, res, hist)
            res.states += 1
            res.traces += 1
            # every weight must be there: module.parameters and persistent buffers
            names = {k for k, _ in s.m.named_parameters()}
            keys = {k for k, _ in s.sd}
            if names - keys:
                s.fail(f"parameters {sorted(names - keys)} are not in the state dict")
            if any("state" in k.split(".")[-1] or "buffer" in k.split(".")[-1] for k in keys):
                s.fail(f"state dict contains states: {sorted(keys)}")
            for op in p:
                s.apply(op)
            res.sample = list(hist)


# --- naming -------------------------------------------------------------------
def trees():
    """Names of weights -> builder; the model knows only the tree, not the code"""
    import continual as co

    def C():
        return co.Conv1d(2, 2, 3, padding=1)

    def bn():
        return nn.BatchNorm1d(2)

    lin = lambda: co.Linear(2, 2, bias=False)  # noqa: E731
    cw = ["weight", "bias"]
    bw = ["weight", "bias", "running_mean", "running_var", "num_batches_tracked"]
    lw = ["weight"]
    O = OrderedDict  # noqa: E741
    return {
        "one": (lambda: co.Sequential(C()), {"0": cw}),
        "two": (lambda: co.Sequential(C(), C()), {"0": cw, "1": cw}),
        "named": (lambda: co.Sequential(O([("a", C()), ("b", bn())])), {"a": cw, "b": bw}),
        "digit-name": (lambda: co.Sequential(O([("7", C()), ("x1", lin())])), {"7": cw, "x1": lw}),
        "res": (lambda: co.Residual(C()), None),
        "res-in-seq": (lambda: co.Sequential(O([("c", co.Residual(C())), ("d", lin())])), None),
        "nested-unique": (lambda: co.Sequential(co.Sequential(co.Sequential(O([("p", C())])), co.Sequential(O([("q", bn())])))), {"0": {"0": {"p": cw}, "1": {"q": bw}}}),
        "nested-clash": (lambda: co.Sequential(co.Sequential(O([("p", C())])), co.Sequential(O([("p", C())]))), {"0": {"p": cw}, "1": {"p": cw}}),
        "half-clash": (lambda: co.Sequential(O([("a", co.Sequential(C(), nn.ReLU())), ("b", co.Sequential(lin(), C()))])), {"a": {"0": cw}, "b": {"0": lw, "1": cw}}),
        "partial-clash": (lambda: co.Sequential(co.Sequential(O([("p", C())])), lin(), nn.ReLU(), co.Linear(2, 2)), {"0": {"p": cw}, "1": lw, "3": cw}),
        "reduce": (lambda: co.BroadcastReduce(O([("a", C()), ("b", co.Sequential(lin(), nn.ReLU()))])), None),
        "parallel": (lambda: co.Parallel(O([("a", C()), ("b", co.Conv1d(2, 2, 3, padding=1, bias=False))])), {"a": cw, "b": lw}),
        "parallel-unnamed": (lambda: co.Parallel(C(), co.Sequential(O([("z", C())]))), {"0": cw, "1": {"z": cw}}),
        "cond": (lambda: co.Conditional(lambda m, x: True, co.Sequential(C()), co.Sequential(O([("n", C())]))), {"0": {"0": cw}, "1": {"n": cw}}),
        "three": (
            lambda: co.Sequential(O([("stem", C()), ("body", co.Sequential(co.Residual(co.Sequential(O([("u", C()), ("v", bn())]))))), ("head", co.Sequential(lin()))])),
            None,
        ),
        "empty": (lambda: co.Sequential(nn.ReLU(), co.Delay(1)), {}),
        "embedded": (lambda: Holder(co.Sequential(co.Sequential(O([("p", C())])), lin())), {"net": {"0": {"p": cw}, "1": lw}}),
    }


class Holder(nn.Module):
    """An ordinary module that contains a container"""

    def __init__(self, net):
        super().__init__()
        self.net = net


def names(tree, prefix=""):
    if isinstance(tree, dict):
        return [n for k, v in tree.items() for n in names(v, prefix + k + ".")]
    return [prefix + n for n in tree]


def full_names(m, prefix=""):
    """Names from the module structure alone"""
    out = [prefix + n for n, p in m._parameters.items() if p is not None]
    out += [prefix + n for n, b in m._buffers.items() if b is not None and n not in m._non_persistent_buffers_set]
    for n, c in m._modules.items():
        out += full_names(c, prefix + n + ".")
    return out


def flat(ns):
    """Names without numeric parts if these are unique"""
    f = [".".join(p for p in n.split(".") if not p.isdigit()) for n in ns]
    return f if len(set(f)) == len(f) else ns


class Boom(Exception):
    pass


PROG = ("enter", "leave", "boom", "save", "saveflat", "prefix", "load", "loadflat", "on", "off")


class Naming:
    """Program state: stack of flat_state_dict contexts, attribute of the class instance"""

    def __init__(self, key, res, hist):
        import continual as co

        self.co, self.key, self.res, self.hist = co, key, res, hist
        make, tree = trees()[key]
        self.make = make
        self.m = make()
        init_weights(self.m, "one")
        self.full = names(tree) if tree is not None else full_names(self.m)
        if self.full != full_names(self.m):
            self.fail(f"weights {full_names(self.m)}, expected {self.full}")
        self.values = {n: v.clone() for n, v in zip(self.full, self.vals(self.m))}
        self.attr = False
        self.depth = 0
        self.ctxs = []
        self.saved = None

    def vals(self, m):
        return nn.Module.state_dict(m, keep_vars=True).values()

    def fail(self, msg):
        raise Violation(msg, list(self.hist))

    def flatten(self, arg):
        if isinstance(self.m, Holder):
            return False
        return arg or self.attr or self.depth > 0

    def apply(self, op):
        self.hist.append(op)
        explore.tick()
        self.res.transitions += 1
        c = self.co.flat_state_dict
        if op == "enter":
            c.__enter__()
            self.depth += 1
        elif op == "leave":
            if self.depth:
                c.__exit__(None, None, None)
                self.depth -= 1
        elif op == "boom":
            # an exception leaves a context of its own
            try:
                with c:
                    self.depth += 1
                    self.check_save(False)
                    raise Boom
            except Boom:
                self.depth -= 1
        elif op in ("save", "saveflat"):
            self.check_save(op == "saveflat")
        elif op == "prefix":
            exp = [f"mod.{n}" for n in self.full]
            if self.flatten(False):
                exp = flat(exp)
            sd = self.m.state_dict(prefix="mod.")
            if list(sd) != exp:
                self.fail(f"names with prefix {list(sd)}, expected {exp}")
        elif op in ("load", "loadflat"):
            self.check_load(op == "loadflat")
        elif op in ("on", "off"):
            if not isinstance(self.m, Holder):
                self.attr = op == "on"
                self.m.flatten_state_dict = self.attr
        if not self.depth and not self.attr:
            sd = self.m.state_dict()
            if list(sd) != self.full:
                self.fail(f"names {list(sd)} outside of all contexts, expected {self.full}")

    def check_save(self, arg):
        kw = {"flatten": True} if arg and not isinstance(self.m, Holder) else {}
        exp = flat(self.full) if self.flatten(bool(kw)) else self.full
        for kv in (False, True, None):
            sd = self.m.state_dict(**({} if kv is None else dict(keep_vars=kv)), **kw)
            self.res.outputs += 1
            if list(sd) != exp:
                self.fail(f"names {list(sd)}, expected {exp}")
            for n, (k, v), p in zip(self.full, sd.items(), self.vals(self.m)):
                if not torch.equal(v.detach(), self.values[n]) or (kv and v is not p) or (not kv and v.requires_grad):
                    self.fail(f"{k} is not the weight {n}")
        self.saved = (list(sd), OrderedDict((k, v.detach().clone()) for k, v in sd.items()))

    def check_load(self, arg):
        kw = {"flatten": True} if arg and not isinstance(self.m, Holder) else {}
        want = flat(self.full) if self.flatten(bool(kw)) else self.full
        if self.saved is None or self.saved[0] != want:
            return  # names of the other kind
        for other in (False, True):
            m = self.make() if other else self.m
            init_weights(m, "two")
            if not isinstance(m, Holder):
                m.flatten_state_dict = self.attr
            sd = OrderedDict((k, v.clone()) for k, v in self.saved[1].items())
            try:
                r = m.load_state_dict(sd, **kw)
            except Exception as e:  # noqa
                self.fail(f"loading {self.saved[0]}: {caught(e)}")
            if r.missing_keys or r.unexpected_keys:
                self.fail(f"loading {self.saved[0]}: {r}")
            for n, v in zip(self.full, self.vals(m)):
                self.res.outputs += 1
                if not torch.equal(v.detach(), self.values[n]):
                    self.fail(f"{n} is not what was saved")
            if list(sd) != self.saved[0]:
                self.fail("loading changed the given state dict")
        # wrong names are reported, without loading silently
        if self.full:
            bad = OrderedDict((k + "_", v) for k, v in self.saved[1].items())
            try:
                self.m.load_state_dict(bad, **kw)
            except (RuntimeError, KeyError):
                pass
            else:
                self.fail(f"loading unknown names {list(bad)} is not refused")

    def close(self):
        while self.depth:
            self.apply("leave")


def run_names(task, res):
    seen = set()
    L = task["depth"]
    for p in itertools.product(PROG, repeat=L):
        if p[0] != task["first"]:
            continue
        n = None
        try:
            hist = [task["tree"]]
            n = Naming(task["tree"], res, hist)
            res.traces += 1
            for op in p:
                n.apply(op)
                seen.add((n.depth, n.attr, n.saved and tuple(n.saved[0])))
            n.close()
            res.sample = list(hist)
        finally:
            while n is not None and n.depth:
                n.depth -= 1
                n.co.flat_state_dict.__exit__(None, None, None)
            if n is not None:
                n.co.flat_state_dict.flatten = False
                getattr(n.co.flat_state_dict, "_outer", []).clear()
    res.states += len(seen)


# --- exchange between differently nested networks ----------------------------------
def run_exchange(task, res):
    """Flattened weights fit every network with the same names, however it is nested without names"""
    import continual as co

    O = OrderedDict  # noqa: E741

    def parts():
        return co.Conv1d(2, 2, 3, padding=1), nn.BatchNorm1d(2)

    def forms():
        a, b = parts()
        yield co.Sequential(O([("a", a), ("b", b)]))
        a, b = parts()
        yield co.Sequential(co.Sequential(O([("a", a), ("b", b)])))
        a, b = parts()
        yield co.Sequential(co.Sequential(O([("a", a)])), co.Sequential(co.Sequential(O([("b", b)]))))
        a, b = parts()
        yield co.Sequential(O([("a", co.Sequential(a)), ("b", co.Sequential(b))]))
        a, b = parts()
        yield co.Sequential(nn.ReLU(), co.Sequential(O([("a", co.Sequential(co.Sequential(a)))])), co.Delay(1), co.Sequential(O([("b", b)])))
        a, b = parts()
        yield co.Parallel(co.Sequential(O([("a", a)])), co.Sequential(O([("b", b)])))

    F, G = list(forms()), list(forms())
    x = 0
    for (i, a), (j, b) in itertools.product(enumerate(F), enumerate(G)):
        for save in ("arg", "ctx"):
            for load in ("arg", "ctx"):
                x += 1
                hist = [[i, j, save, load]]
                res.states += 1
                res.traces += 1
                res.transitions += 2
                init_weights(a, f"a{x}")
                init_weights(b, "b")
                try:
                    if save == "ctx":
                        with co.flat_state_dict:
                            sd = a.state_dict()
                    else:
                        sd = a.state_dict(flatten=True)
                    if load == "ctx":
                        with co.flat_state_dict:
                            b.load_state_dict(sd)
                    else:
                        b.load_state_dict(sd, flatten=True)
                except Exception as e:  # noqa
                    raise Violation(f"exchange failed: {caught(e)}", hist)
                va, vb = [list(nn.Module.state_dict(m).values()) for m in (a, b)]
                for v, w in zip(va, vb):
                    res.outputs += 1
                    if not torch.equal(v, w):
                        raise Violation("weights differ after the exchange", hist)
    # unique and non-unique within one context
    u, v = co.Sequential(O([("a", co.Linear(2, 2))])), co.Sequential(co.Linear(2, 2), co.Linear(2, 2))
    with co.flat_state_dict:
        if list(v.state_dict()) != ["0.weight", "0.bias", "1.weight", "1.bias"]:
            raise Violation("no fall back to full names", [list(v.state_dict())])
        v.load_state_dict(v.state_dict())
        u.load_state_dict(u.state_dict())


def run(task, res):
    dict(counterparts=run_counterparts, stream=run_stream, names=run_names, exchange=run_exchange)[task["kind"]](task, res)


def tasks(tier):
    T = tier == "thorough"
    out = [dict(kind="counterparts"), dict(kind="exchange")]
    for key in trees():
        for first in PROG:
            out.append(dict(kind="names", tree=key, first=first, depth=(5 if key in ("two", "half-clash", "nested-unique") else 4) if T else 3 if key not in ("one", "half-clash") else 4))
    for e in zoo.zoo():
        out.append(dict(kind="stream", entry=e["name"], depth=3 if T or len(repr(e["tree"])) < 60 else 2, cost=len(repr(e["tree"]))))
    return out
