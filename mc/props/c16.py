"""C16 Conversion keeps a module's meaning (oracle: the original torch.nn module)"""
import copy
import itertools
import math

import torch
from torch import nn

from .. import explore
from ..explore import Violation, caught, dt
from ..tensors import data, diff, init_weights

BOUNDS = {
    "quick": "all registered module types x products of their constructor options x both training modes x two dtypes x {co.continual, "
    "build_from} (options of convolutions and pools over 2 and 3 dimensions: all combinations of values of any 3 options) x {frozen completely, weights only, biases only, not} x {alone, in Sequential, in named Sequential in Sequential}; after each conversion all histories of {forward, call, "
    "step, chunk, clean, train/eval switch, converting again} of length 2",
    "thorough": "all combinations of values of any 4 options, full products for pools over 2 dimensions, histories of length 3",
}
ASSUMPTIONS = [
    "random modules (dropout, RReLU) are compared under equal random seeds", "options that torch.nn itself refuses are skipped",
    "options whose temporal semantics a frame-wise module cannot have (normalising over time) are compared in forward only",
]

SHAPES = {1: (2, 4, 9), 2: (2, 4, 9, 7), 3: (2, 4, 9, 7, 6)}


# --- specs: dict(cls, args, kw, shape, local: "" (forward only), "step" (time-local))
def cover(options, strength):
    """Covering array: rows of the product such that every combination of values of any `strength` options occurs"""
    groups = list(itertools.combinations(range(len(options)), strength))
    missing = sum(math.prod(len(options[i]) for i in g) for g in groups)
    sizes = [len(o) for o in options]
    total = math.prod(sizes)
    step = next(p for p in (7919, 7907, 7901, 7883) if total % p)  # a fixed permutation of the product
    seen, out = set(), []
    for want in (len(groups) // 2, len(groups) // 5, 1):
        for n in range(total):
            i, row = (n * step) % total, []
            for s in sizes:
                i, r = divmod(i, s)
                row.append(r)
            new = {(g, *[row[i] for i in g]) for g in groups} - seen
            if len(new) >= want:
                seen |= new
                out.append([o[r] for o, r in zip(options, row)])
            if len(seen) == missing:
                return out
    return out


def conv_specs(T):
    out = []
    bools, pms, outs = [True, False], ["zeros", "replicate", "reflect", "circular"], [2, 4, 6]
    for d in (1, 2, 3):
        if d == 1:
            rows = list(itertools.product([1, 2, 3], [1, 2], [0, 1, "same", "valid"], [1, 2], [1, 2], bools, pms, [2, 4]))
        else:
            tup = lambda *vs: [v[:d] for v in vs]  # noqa: E731
            options = [
                [1, 2, 3] + tup((3, 1, 2), (1, 3, 2)), [1, 2] + tup((1, 2, 2), (2, 1, 1), (1, 2, 1)), [0, 1, "same", "valid"] + tup((0, 1, 1), (1, 0, 0), (1, 0, 1)),
                [1, 2] + tup((1, 2, 2), (1, 1, 2)), [1, 2], bools, pms, outs,
            ]
            if d == 2:
                options = [list(dict.fromkeys(o)) for o in options]
            rows = cover(options, 4 if T else 3)
        for k, s, p, dil, g, b, pm, o in rows:
            if isinstance(p, str) and d == 1 and (g > 1 or not b or pm != "zeros"):
                continue
            out.append(dict(cls=f"Conv{d}d", args=[4, o], kw=dict(kernel_size=k, stride=s, padding=p, dilation=dil, groups=g, bias=b, padding_mode=pm), shape=SHAPES[d]))
    return out


def pool_specs(T):
    out = []
    bools = [False, True]
    for d in (1, 2, 3):
        tup = lambda *vs: list(dict.fromkeys(v[:d] for v in vs)) if d > 1 else []  # noqa: E731
        k, s, p = [1, 2, 3] + tup((2, 3, 1), (3, 2, 2), (2, 2, 3)), [None, 1, 2, 3] + tup((1, 2, 2), (2, 1, 1), (1, 2, 1)), [0, 1] + tup((0, 1, 1), (1, 0, 0), (1, 0, 1))
        rows = lambda *o: cover(list(o), len(o) if d == 1 or T and d == 2 else 4 if T else 3)  # noqa: E731
        for k_, s_, p_, cm, cip, div in rows(k, s, p, bools, bools, [None, 3] if d > 1 else [None]):
            kw = dict(stride=s_, padding=p_, ceil_mode=cm, count_include_pad=cip)
            if div:
                kw["divisor_override"] = div
            out.append(dict(cls=f"AvgPool{d}d", args=[k_], kw=kw, shape=SHAPES[d]))
        for k_, s_, p_, cm, dil, ri in rows(k, s, p, bools, [1, 2] + tup((1, 2, 2), (2, 1, 1)), bools):
            out.append(dict(cls=f"MaxPool{d}d", args=[k_], kw=dict(stride=s_, padding=p_, ceil_mode=cm, dilation=dil, return_indices=ri), shape=SHAPES[d]))
        if d > 1:
            for kind in ("Avg", "Max"):
                for o in [1, (1, 2, 3)[:d], (1, 1, 1)[:d], (1, None, 2)[:d], 2, (3, 2, 2)[:d]]:
                    out.append(dict(cls=f"Adaptive{kind}Pool{d}d", args=[o], kw={}, shape=SHAPES[d]))
                    out.append(dict(cls=f"Adaptive{kind}Pool{d}d", args=[o], kw={}, shape=SHAPES[d], how="build_from", bkw=dict(kernel_size=4)))
                out.append(dict(cls=f"Adaptive{kind}Pool{d}d", args=[o], kw={}, shape=SHAPES[d]))
    return out


def simple_specs(T):
    out = []

    def add(cls, *args, shape=SHAPES[2], local="step", **kw):
        out.append(dict(cls=cls, args=list(args), kw=kw, shape=shape, local=local))

    for shape in (SHAPES[1], SHAPES[2], SHAPES[3]):
        for inplace in (False, True):
            for c in ("ReLU", "ReLU6", "Hardsigmoid", "SiLU", "Hardswish", "SELU"):
                add(c, shape=shape, inplace=inplace)
            add("Threshold", 0.1, -0.5, shape=shape, inplace=inplace)
            add("RReLU", 0.1, 0.3, shape=shape, inplace=inplace)
            add("Hardtanh", -0.5, 0.7, shape=shape, inplace=inplace)
            add("ELU", 0.5, shape=shape, inplace=inplace)
            add("CELU", 0.5, shape=shape, inplace=inplace)
            add("LeakyReLU", 0.2, shape=shape, inplace=inplace)
            for c in ("Dropout", "Dropout1d", "Dropout2d", "Dropout3d", "AlphaDropout", "FeatureAlphaDropout"):
                if c[-2:] in ("1d", "2d", "3d") and int(c[-2]) + 2 != len(shape):
                    continue
                add(c, 0.4, shape=shape, inplace=inplace, local="drop")
        for c in ("Sigmoid", "Tanh", "LogSigmoid", "Softsign", "Tanhshrink"):
            add(c, shape=shape)
        add("Hardshrink", 0.3, shape=shape)
        add("Softshrink", 0.3, shape=shape)
        add("Softplus", 2, 3, shape=shape)
        for a in ("none", "tanh"):
            add("GELU", shape=shape, approximate=a)
        add("PReLU", shape=shape)
        add("PReLU", 4, shape=shape)
        for c in ("Softmin", "Softmax", "LogSoftmax"):
            add(c, dim=1, shape=shape)
            add(c, dim=2, shape=shape, local="")
            if len(shape) > 3:
                add(c, dim=-1, shape=shape)
                add(c, dim=3, shape=shape)
        add("GLU", dim=1, shape=shape)
        for affine, eps in itertools.product((True, False), (1e-5, 0.1)):
            for g in (1, 2, 4):
                add("GroupNorm", g, 4, eps=eps, affine=affine, shape=shape, local="")
            for trs in (True, False):
                for mom in (0.1, 0.5, None):
                    d = len(shape) - 2
                    add(f"BatchNorm{d}d", 4, eps=eps, momentum=mom, affine=affine, track_running_stats=trs, shape=shape, local="eval" if trs else "")
                    add(f"InstanceNorm{d}d", 4, eps=eps, momentum=mom or 0.2, affine=affine, track_running_stats=trs, shape=shape, local="eval" if trs else "")
    add("Softmax2d", shape=SHAPES[2])
    for ew, bias in itertools.product((True, False), (True, False)):
        kw = dict(elementwise_affine=ew)
        if ew:
            kw["bias"] = bias
        add("LayerNorm", 7, shape=SHAPES[2], **kw)
        add("LayerNorm", [7, 6], shape=SHAPES[3], eps=0.1, **kw)
        add("LayerNorm", [9, 7], shape=SHAPES[2], local="", **kw)
    for b in (True, False):
        add("Linear", 7, 3, bias=b, shape=SHAPES[2], local="last")
        add("Linear", 6, 5, bias=b, shape=SHAPES[3], local="last")
    return out


def rnn_specs(T):
    out = []
    for c, L, b, bf, do, bi in itertools.product(("RNN", "GRU", "LSTM"), (1, 2, 3), (True, False), (True, False), (0.0, 0.5), (False, True)):
        for extra in [dict(nonlinearity="tanh"), dict(nonlinearity="relu")] if c == "RNN" else [{}]:
            out.append(dict(cls=c, args=[4, 3], kw=dict(num_layers=L, bias=b, batch_first=bf, dropout=do if L > 1 else 0.0, bidirectional=bi, **extra), shape=SHAPES[1], local="rnn"))
    for L, bf in itertools.product((1, 2), (True, False)):
        out.append(dict(cls="LSTM", args=[4, 3], kw=dict(num_layers=L, batch_first=bf, proj_size=2), shape=SHAPES[1], local="rnn"))
    return out


def mha_specs(T):
    out = []
    for cls in ("SingleOutputMultiheadAttention", "RetroactiveMultiheadAttention"):
        for heads, bias, abk, azk, dims, bf, do in itertools.product((1, 2), (True, False), (False, True), (False, True), ({}, dict(kdim=3, vdim=5)), (True, False), (0.0, 0.3)):
            out.append(dict(cls="MultiheadAttention", args=[4, heads], kw=dict(bias=bias, add_bias_kv=abk, add_zero_attn=azk, batch_first=bf, dropout=do, **dims), co=cls, bkw=dict(sequence_len=5), how="build_from", shape=(2, 5, 4), local="mha"))
    return out


def te_specs(T):
    out = []
    for layers, heads, act, norm, nf, bf, eps, do in itertools.product((1, 2), (1, 2), ("relu", "gelu"), (None, 1e-3), (False, True), (True, False), (1e-5, 0.1), (0.0, 0.3)):
        out.append(dict(cls="TransformerEncoder", args=[], kw=dict(layers=layers, heads=heads, act=act, norm=norm, norm_first=nf, batch_first=bf, eps=eps, dropout=do), bkw=dict(sequence_len=5), how="build_from", shape=(2, 4, 5), local="te"))
    return out


REFUSED = [
    ("ConvTranspose1d", [4, 4, 3]), ("Flatten", []), ("LPPool1d", [2, 2]), ("MultiheadAttention", [4, 2]), ("Embedding", [4, 4]), ("AdaptiveAvgPool1d", [1]), ("ModuleList", []),
    ("Upsample", []), ("Bilinear", [4, 4, 4]), ("ZeroPad2d", [1]), ("LocalResponseNorm", [2]), ("TransformerEncoderLayer", [4, 2]), ("RNNCell", [4, 3]),
]

REFUSALS = (AssertionError, NotImplementedError, TypeError, ValueError, KeyError)


class SubConv(nn.Conv1d):
    """A subclass with its own meaning"""

    def forward(self, x):
        return super().forward(x) * 2


class SubReLU(nn.ReLU):
    def forward(self, x):
        return super().forward(x) + x.mean(2, keepdim=True)


def make(spec, dtype, train):
    """The original; None if torch.nn refuses the options"""
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in spec["kw"].items()}
    args = [tuple(a) if isinstance(a, list) else a for a in spec["args"]]
    try:
        if spec["cls"] == "TransformerEncoder":
            layer = nn.TransformerEncoderLayer(
                4, kw["heads"], 6, kw["dropout"], kw["act"], layer_norm_eps=kw["eps"], batch_first=kw["batch_first"], norm_first=kw["norm_first"]
            )
            m = nn.TransformerEncoder(layer, kw["layers"], nn.LayerNorm(4, eps=kw["norm"]) if kw["norm"] else None, enable_nested_tensor=False)
        elif spec["cls"] in ("SubConv", "SubReLU"):
            m = globals()[spec["cls"]](*args, **kw)
        else:
            m = getattr(nn, spec["cls"])(*args, **kw)
        m = m.to(dtype).train(train)
        init_weights(m)
        x = inputs(spec, dtype)
        with torch.no_grad():
            copy.deepcopy(m)(*x)
        return m
    except (RuntimeError, ValueError, TypeError, NotImplementedError, AssertionError, AttributeError, IndexError):
        return None


def inputs(spec, dtype, k=0):
    """Inputs of the original"""
    x = data(spec["shape"], "x", k, dtype=dtype)
    kw = spec["kw"]
    lo = spec.get("local")
    if lo == "rnn":
        x = x.transpose(1, 2)
        return (x if kw.get("batch_first") else x.transpose(0, 1),)
    if lo == "mha":
        B, N, E = spec["shape"]
        q, k_, v = x, data((B, N, kw.get("kdim") or E), "k", k, dtype=dtype), data((B, N, kw.get("vdim") or E), "v", k, dtype=dtype)
        return tuple(t if kw["batch_first"] else t.transpose(0, 1) for t in (q, k_, v))
    if lo == "te":
        x = x.transpose(1, 2)
        return (x if kw["batch_first"] else x.transpose(0, 1),)
    return (x,)


def may_refuse(spec):
    """Options that have no continual counterpart; they may be refused, all others must be converted"""
    kw, c = spec["kw"], spec["cls"]
    first = lambda v: v[0] if isinstance(v, (tuple, list)) else v  # noqa
    if c.startswith("Conv"):
        return first(kw["dilation"]) > 1 or kw["padding_mode"] in ("reflect", "circular") or isinstance(kw["padding"], str)
    if c.startswith("Adaptive"):
        return spec.get("how") != "build_from" or first(spec["args"][0]) != 1
    if c.startswith("MaxPool"):
        return kw["return_indices"]
    if c.startswith("InstanceNorm"):
        return not (kw["affine"] and kw["track_running_stats"])
    return bool(kw.get("bidirectional") or kw.get("norm_first") or kw.get("add_bias_kv") or kw.get("add_zero_attn"))


class Pair:
    """Original and converted module, driven in lockstep"""

    def __init__(self, spec, dtype, train, nest, res, frozen=None):
        import continual as co

        self.spec, self.co, self.dtype, self.res = spec, co, dtype, res
        self.hist = [[spec["cls"], str(spec["args"]), str(spec["kw"]), str(dtype), train, nest]]
        self.train = train
        self.ok = False
        src = make(spec, dtype, train)
        if src is None:
            return
        if frozen:
            self.hist[0].append("frozen " + frozen)
            for n, w in src.named_parameters():
                w.requires_grad = not (frozen == "all" or frozen in n)
        self.nest = nest
        if nest in ("seq", "mixed"):
            whole = nn.Sequential(src)
        elif nest == "named":
            from collections import OrderedDict

            whole = nn.Sequential(OrderedDict([("a", nn.Sequential(nn.Sigmoid())), ("b", nn.Sequential(OrderedDict([("c", src)])))]))
        else:
            whole = src
        whole.train(train)
        if nest == "mixed":
            self.train = not train
            src.train(not train)
        self.twin = copy.deepcopy(src)
        self.src = src
        self.before = [(k, v.detach().clone()) for k, v in whole.state_dict().items()]
        self.flags = {n: m.training for n, m in whole.named_modules()}
        try:
            if spec.get("how") == "build_from":
                C = getattr(co, spec.get("co", spec["cls"]))
                self.m = C.build_from(whole, **spec.get("bkw", {}))
                self.m.train(train)  # build_from copies weights only
            else:
                self.m = co.continual(whole)
        except REFUSALS as e:
            res.placeholders += 1
            self.refused = e
            if not may_refuse(spec):
                self.fail(f"conversion refused: {e}")
            return
        self.ok = True
        self.whole = whole

    def fail(self, msg):
        raise Violation(msg, list(self.hist))

    def pre(self, x):
        return torch.sigmoid(x) if self.nest == "named" else x

    def seeded(self, f, *a):
        torch.manual_seed(5)
        with torch.no_grad():
            return f(*a)

    def expected(self, k):
        """Result of the original, laid out as the converted module gives it"""
        x = inputs(self.spec, self.dtype, k)
        if self.nest == "named":
            x = tuple(self.pre(i) for i in x)
        y = self.seeded(self.twin, *[i.clone() for i in x])
        lo = self.spec.get("local")
        if lo == "rnn":
            o, h = y
            o = o if self.spec["kw"]["batch_first"] else o.transpose(0, 1)
            return o.transpose(1, 2), h
        return y

    def given(self, k):
        x = inputs(self.spec, self.dtype, k)
        lo = self.spec.get("local")
        if lo == "rnn":
            x = data(self.spec["shape"], "x", k, dtype=self.dtype)
            return (x,)
        return tuple(i.clone() for i in x)

    def norm(self, y):
        return [self.norm(i) for i in y] if isinstance(y, (tuple, list)) else y

    def forward(self, k, call):
        exp = self.expected(k)
        x = self.given(k)
        lo = self.spec.get("local")
        if lo == "te":  # continual encoders take (B, E, T); forward gives the tokens they return
            x = (data(self.spec["shape"], "x", k, dtype=self.dtype),)
            e = exp if self.spec["kw"]["batch_first"] else exp.transpose(0, 1)
            exp = e.transpose(1, 2)
            if self.spec["kw"]["layers"] > 1:
                exp = exp[:, :, -1:]
        obs = self.run(self.m if call else self.m.forward, *x)
        if lo in ("mha", "te") and self.train and self.spec["kw"]["dropout"]:
            return self.shape(obs, exp)  # draws other random numbers than torch.nn does for all tokens
        if lo == "mha":
            return self.mha(obs, exp)
        if lo == "rnn" and self.nest:
            exp = exp[0]
        self.cmp("call" if call else "forward", self.norm(obs), self.norm(exp))

    def shape(self, obs, exp):
        obs, exp = [i[0] if isinstance(i, tuple) else i for i in (obs, exp)]
        if not torch.is_tensor(obs) or obs.dtype != exp.dtype or not torch.isfinite(obs).all():
            self.fail(f"forward in train mode gives {obs}")

    def mha(self, obs, exp):
        obs, w = obs if isinstance(obs, tuple) else (obs, None)
        e = exp[0]
        if "Single" in self.spec["co"] and obs.shape != e.shape:
            e = e[:, -1:] if self.spec["kw"]["batch_first"] else e[-1:]
        self.cmp("forward", obs, e)

    def run(self, f, *a):
        explore.tick()
        self.res.transitions += 1
        try:
            return self.seeded(f, *a)
        except Exception as e:  # noqa
            return caught(e)

    def cmp(self, what, obs, exp):
        self.res.outputs += 1
        d = diff(obs, exp, what)
        if d:
            self.fail(d)

    def static(self):
        """Weights, dtypes, training modes, names; the original keeps its weights"""
        co = self.co
        m = self.m
        if not co.CoModule.is_valid(m):
            self.fail("result is not a continual module")
        lo = self.spec.get("local")
        mine = list(nn.Module.state_dict(m).items())
        if lo == "te":
            from ..nets import te_key

            mine = [(te_key(k), v) for k, v in mine]
            # equal names for equal weights, in any order
            mine.sort(key=lambda kv: kv[0])
            self.before.sort(key=lambda kv: kv[0])
        if [k for k, _ in mine] != [k for k, _ in self.before]:
            self.fail(f"weights {[k for k, _ in mine]}, expected {[k for k, _ in self.before]}")
        for (k, v), (_, w) in zip(mine, self.before):
            d = diff(v, w, f"weight {k}", rtol=0, atol=0) if v.is_floating_point() else None
            if d:
                self.fail(d)
        for (k, v), w in zip(self.before, self.whole.state_dict().values()):
            if lo != "te" and v.is_floating_point() and not torch.equal(v, w):
                self.fail(f"weight {k} of the original changed")
        for p in m.parameters():
            if p.dtype != self.dtype:
                self.fail(f"parameter of {p.dtype}, expected {self.dtype}")
        if lo not in ("te", "mha"):
            for n, x in m.named_modules():
                if n in self.flags and x.training != self.flags[n]:
                    self.fail(f"training mode {x.training} of '{n}', expected {self.flags[n]}")
        if self.spec.get("how") != "build_from":
            if co.continual(m) is not m:
                self.fail("converting a continual module gives another one")

    def local(self):
        lo = self.spec.get("local")
        if lo == "eval":
            return not self.train
        if lo == "drop":
            return not self.train
        if lo in ("step", "last"):
            return not (self.spec["cls"] == "RReLU" and self.train)
        return False

    def step(self, k):
        exp = self.expected(k)
        x = self.given(k)[0]
        for t in (0, 3):
            obs = self.run(self.m.forward_step, x[:, :, t].clone())
            self.cmp(f"forward_step {t}", obs, exp[:, :, t])

    def steps(self, k):
        exp = self.expected(k)
        x = self.given(k)[0]
        self.cmp("forward_steps", self.run(self.m.forward_steps, x[:, :, 2:6].clone()), exp[:, :, 2:6])
        self.cmp("forward_steps", self.run(self.m.forward_steps, x[:, :, 8:9].clone()), exp[:, :, 8:9])

    def apply(self, op, i):
        self.hist.append(op)
        if op == "forward":
            self.forward(i, False)
        elif op == "call":
            self.forward(i, True)
        elif op == "step":
            if self.local():
                self.step(i)
        elif op == "steps":
            if self.local():
                self.steps(i)
        elif op == "mode":
            self.train = not self.train
            self.twin.train(self.train)
            self.m.train(self.train)
        elif op == "again":
            if self.spec.get("how") != "build_from":
                self.m = self.co.continual(self.m)
        elif op == "clean":
            self.m.clean_state()


OPS = ("forward", "call", "step", "steps", "mode", "again", "clean")


def programs(depth):
    """All operation sequences; the last one compares"""
    for n in range(1, depth + 1):
        for p in itertools.product(OPS, repeat=n):
            if p[-1] in ("forward", "call", "step", "steps"):
                yield p


def run(task, res):
    if task["kind"] == "refused":
        return run_refused(task, res)
    if task["kind"] == "functions":
        return run_functions(task, res)
    if task["kind"] == "nestings":
        return run_nestings(task, res)
    for n, spec in enumerate(task["specs"]):
        spec = dict(spec)
        for frozen in ("all", "weight", "bias"):
            p = Pair(spec, torch.float64, False, "", res, frozen)
            if p.ok:
                p.static()
                p.apply("forward", 0)
                res.states += 1
                res.traces += 1
        for dtype, train in [("f64", False), ("f64", True), ("f32", False)]:
            nests = [""] if spec.get("how") == "build_from" else ["", "seq", "named", "mixed"]
            for nest in nests:
                res.states += 1
                p = Pair(spec, dt(dtype), train, nest, res)
                if not p.ok:
                    continue
                p.static()
                depth = task["depth"] if dtype == "f64" and nest in ("", "named") else 1
                if task["depth"] == 2 and depth == 2 and (n % 4 or train) and spec.get("local") != "rnn":
                    depth = 1
                for prog in programs(depth):
                    q = Pair(spec, dt(dtype), train, nest, res)
                    res.traces += 1
                    if res.sample is None or len(res.sample) < len(prog) + 2:
                        res.sample = [spec["cls"], str(spec["kw"]), *prog]
                    for i, op in enumerate(prog):
                        q.apply(op, i)


def run_refused(task, res):
    import continual as co

    for cls, args in REFUSED + [("SubConv", [4, 4, 3]), ("SubReLU", [])]:
        src = globals()[cls](*args) if cls.startswith("Sub") else getattr(nn, cls)(*args)
        for nest in (0, 1, 2):
            whole = src
            for _ in range(nest):
                whole = nn.Sequential(nn.Tanh(), whole)
            res.states += 1
            res.transitions += 1
            res.traces += 1
            try:
                m = co.continual(whole)
            except REFUSALS:
                res.placeholders += 1
                continue
            if cls.startswith("Sub"):
                init_weights(m)
                init_weights(whole)
                x = data(SHAPES[1], "x").float()
                with torch.no_grad():
                    e = whole(x.clone())
                    d = diff(m.forward(x.clone()), e, "forward of a converted subclass")
                if d:
                    raise Violation(d, [[cls, nest]])
                continue
            raise Violation(f"{cls} has no continual counterpart but was converted to {type(m).__name__}", [[cls, nest]])


FUNCTIONS = {
    "named": lambda: times3,
    "lambda": lambda: (lambda x: x + 1),
    "mean": lambda: (lambda x: x - x.mean(1, keepdim=True)),
    "tuple": lambda: (lambda x: x.sum(1)),
}


def times3(x):
    return 3 * x


def run_functions(task, res):
    """Functions are applied per frame: fn(x[:, :, t]) for all t"""
    import continual as co

    for name, f in FUNCTIONS.items():
        for d in (1, 2, 3):
            for how in ("continual", "Lambda", "Lambda-time", "Sequential", "nested", "forward_only", "steps_only", "step_only"):
                for dtype in (torch.float64, torch.float32):
                    fn = f()
                    if how == "continual":
                        m = co.continual(fn)
                    elif how == "Lambda":
                        m = co.Lambda(fn)
                    elif how == "Lambda-time":
                        if name == "tuple":
                            continue
                        m = co.Lambda(fn, takes_time=True)
                    elif how == "Sequential":
                        m = co.Sequential(fn)
                    elif how == "nested":
                        m = co.Sequential(co.Sequential(nn.ReLU(), co.Lambda(fn)))
                    else:
                        m = co.Lambda(fn, **{{"forward_only": "forward_only_fn", "steps_only": "forward_steps_only_fn", "step_only": "forward_step_only_fn"}[how]: lambda x: x * 7})
                    x = data(SHAPES[d], "x", dtype=dtype)
                    y = torch.relu(x) if how == "nested" else x
                    exp = torch.stack([f()(y[:, :, t]) for t in range(x.shape[2])], 2) if x.dim() > 3 or name != "tuple" else torch.stack([f()(y[:, :, t]) for t in range(x.shape[2])], 1)
                    if name == "tuple":
                        if d == 1:
                            continue  # results without a channel dimension cannot be stacked over dimension 2
                        exp = torch.stack([y[:, :, t].sum(1) for t in range(x.shape[2])], 2)
                    other = x * 7
                    hist = [[name, how, d, str(dtype)]]
                    for order in itertools.permutations(("forward", "step", "steps")):
                        for op in order:
                            res.transitions += 1
                            explore.tick()
                            h = hist + [list(order), op]
                            e = other if how == {"forward": "forward_only", "steps": "steps_only", "step": "step_only"}[op] else exp
                            try:
                                if op == "forward":
                                    got = [(m.forward(x), e)]
                                elif op == "steps":
                                    got = [(m.forward_steps(x[:, :, 2:5]), e[:, :, 2:5]), (m.forward_steps(x[:, :, 5:6], pad_end=True), e[:, :, 5:6])]
                                else:
                                    got = [(m.forward_step(x[:, :, t]), e[:, :, t]) for t in range(4)] + [(m.forward_step(x[:, :, 0], update_state=False), e[:, :, 0])]
                            except Exception as ex:  # noqa
                                got = [(caught(ex), exp)]
                            for o, w in got:
                                res.outputs += 1
                                dd = diff(o, w, op)
                                if dd:
                                    raise Violation(dd, h)
                        res.traces += 1
                    res.states += 1


def run_nestings(task, res):
    """All Sequentials of up to three members out of a pool, nested in two ways, some members shared; forward, weights, structure"""
    import continual as co

    def pool(dtype):
        return {
            "conv": lambda: nn.Conv1d(4, 4, 3, padding=1, dtype=dtype),
            "relu": lambda: nn.ReLU(),
            "bn": lambda: nn.BatchNorm1d(4, dtype=dtype),
            "pool": lambda: nn.AvgPool1d(2, 1),
            "lin": lambda: nn.Linear(9, 9, dtype=dtype),
            "co": lambda: co.Conv1d(4, 4, 3, padding=1, dtype=dtype),
            "cores": lambda: co.Residual(co.Conv1d(4, 4, 3, padding=1, dtype=dtype)),
            "fn": lambda: co.Lambda(times3),
        }

    dtype = torch.float64
    P = pool(dtype)
    names = list(P)
    L = task["length"]
    for combo in itertools.product(names, repeat=L):
        if combo[0] != task["first"]:
            continue
        if "lin" in combo and "pool" in combo:
            continue
        for form in ("flat", "left", "right", "shared"):
            if L < 2 and form != "flat":
                continue
            for train in (False, True):
                mods = [P[n]() for n in combo]
                if form == "shared":
                    mods[-1] = mods[0]
                if form in ("flat", "shared"):
                    src = nn.Sequential(*mods)
                elif form == "left":
                    src = nn.Sequential(nn.Sequential(*mods[:-1]), mods[-1])
                else:
                    src = nn.Sequential(mods[0], nn.Sequential(*mods[1:]))
                if form == "shared" and "lin" in combo:
                    continue
                init_weights(src)
                src.train(train)
                hist = [[*combo, form, train]]
                res.states += 1
                res.traces += 1
                if True:
                    twin = copy.deepcopy(src)
                    before = [(k, v.clone()) for k, v in src.state_dict().items()]
                    flags = {n: m.training for n, m in src.named_modules()}
                    try:
                        m = co.continual(src)
                    except REFUSALS as e:
                        raise Violation(f"conversion refused: {e}", hist)
                    if not isinstance(m, co.Sequential) or len(m) != len(src):
                        raise Violation(f"converted to {m}", hist)
                    if [k for k, _ in m.state_dict().items()] != [k for k, _ in before]:
                        raise Violation(f"weights {[k for k in m.state_dict()]}, expected {[k for k, _ in before]}", hist)
                    for (k, v), w in zip(before, m.state_dict().values()):
                        if not torch.equal(v, w):
                            raise Violation(f"weight {k} changed", hist)
                    for n, x in m.named_modules():
                        if n in flags and x.training != flags[n]:
                            raise Violation(f"training mode {x.training} of '{n}'", hist)
                    for k in range(2):
                        x = data(SHAPES[1], "x", k, dtype=dtype)
                        with torch.no_grad():
                            exp = twin(x.clone())
                            explore.tick()
                            res.transitions += 1
                            try:
                                obs = m.forward(x.clone()) if k else m(x.clone())
                            except Exception as e:  # noqa
                                obs = caught(e)
                        d = diff(obs, exp, f"forward {k}")
                        res.outputs += 1
                        if d:
                            raise Violation(d, hist)


def tasks(tier):
    T = tier == "thorough"
    specs = conv_specs(T) + pool_specs(T) + simple_specs(T) + rnn_specs(T) + mha_specs(T) + te_specs(T)
    out = [dict(kind="specs", depth=3 if T else 2, specs=specs[i::64]) for i in range(64)]
    out += [dict(kind="refused"), dict(kind="functions")]
    for n in range(1, 5 if T else 4):
        for first in ("conv", "relu", "bn", "pool", "lin", "co", "cores", "fn"):
            out.append(dict(kind="nestings", length=n, first=first))
    return out
