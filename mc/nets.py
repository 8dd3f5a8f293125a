"""Network grammar: JSON trees, the builder of the continual network, and the reference semantics.

A node `n` offers
  n.make()               -> the continual module (code under test)
  n.bind(module)         -> takes over (copies of) the weights of the built module
  n.stream(xs, end)      -> [(tick, y)]: the outputs the regular network gives for the frames `xs`
                            with start fill in front (and end fill behind if `end`), each with the
                            index of the frame that completes it (END: completed by end fill)
  n.forward(xs)          -> [y]: outputs of the regular network over the clip `xs`
  n.count(n, end)        -> number of outputs stream() gives for n frames
The reference uses torch.nn(.functional) on explicitly padded frame lists and index arithmetic
only; it shares no code with the library.
"""
import math

import torch
import torch.nn.functional as F
from torch import nn

END = 10**9


def _co():
    import continual

    return continual


def pretty(tree):
    return str(tree)


class Node:
    stateful = False
    flushes = False  # emits additional outputs upon end padding

    def __init__(self, *args, **kw):
        self.args, self.kw = args, kw
        self.kids = []

    def bind(self, module):
        pass

    # Frame-wise modules by default
    def frame(self, x):
        raise NotImplementedError

    def stream(self, xs, end=False):
        return [(i, self.frame(x)) for i, x in enumerate(xs)]

    def forward(self, xs):
        return [y for _, y in self.stream(xs, True)]

    def count(self, n, end=False):
        return n

    def length(self, T):
        """Number of outputs of forward over T frames; None if forward is not defined"""
        return T

    def explicit_delay(self):
        return any(k.explicit_delay() for k in self.kids)

    def starves(self, n0, n1):
        """Is a member left without input in the end-padded chunk n0..n1 although it holds frames?"""
        return False

    def pollutes(self):
        """Do end-padding outputs of a member enter the state of a later one? (known finding A)"""
        return False

    def any_stateful(self):
        return self.stateful or any(k.any_stateful() for k in self.kids)

    def any_flush(self):
        return self.flushes or any(k.any_flush() for k in self.kids)

    def delay(self):
        raise NotImplementedError

    def rate(self):
        return 1

    def rf(self):
        return 1

    def pad(self):
        return 0


CONV = {1: ("Conv1d", F.conv1d), 2: ("Conv2d", F.conv2d), 3: ("Conv3d", F.conv3d)}


class Conv(Node):
    stateful = True

    def __init__(self, dims, cin, cout, k, s=1, p=0, d=1, g=1, bias=True, pm="zeros", fill="zeros", **kw):
        super().__init__()
        t = lambda v: tuple(v) if isinstance(v, (list, tuple)) else (v,) * dims
        self.dims, self.cin, self.cout = dims, cin, cout
        self.k, self.s, self.p, self.d = t(k), t(s), t(p), t(d)
        self.g, self.bias_, self.pm, self.fill = g, bias, pm, fill
        self.extra = kw
        self.flushes = self.p[0] > 0

    def make(self):
        return getattr(_co(), CONV[self.dims][0])(
            self.cin, self.cout, self.k, stride=self.s, padding=self.p, dilation=self.d, groups=self.g,
            bias=self.bias_, padding_mode=self.pm, temporal_fill=self.fill, **self.extra,
        )

    def bind(self, m):
        self.w = m.weight.detach().clone()
        self.b = None if m.bias is None else m.bias.detach().clone()

    def _conv(self, frames):
        """Regular convolution without temporal padding over a frame list"""
        if len(frames) < self.k[0]:
            return []
        x = torch.stack(frames, 2)
        sp = []
        for p in reversed(self.p[1:]):
            sp += [p, p]
        if any(sp):
            mode = "constant" if self.pm == "zeros" else self.pm
            if mode == "constant":
                x = F.pad(x, sp)
            else:
                x = F.pad(x, sp + [0, 0], mode=mode)
        y = CONV[self.dims][1](x, self.w, self.b, stride=self.s, padding=0, dilation=self.d, groups=self.g)
        return [y[:, :, i] for i in range(y.shape[2])]

    def _fill(self, x):
        return torch.zeros_like(x) if self.fill == "zeros" else x.clone()

    def stream(self, xs, end=False):
        if not xs:
            return []
        p = self.p[0]
        ys = self._conv([self._fill(xs[0])] * p + list(xs) + ([self._fill(xs[-1])] * p if end else []))
        out = []
        for j, y in enumerate(ys):
            t = j * self.s[0] + self.k[0] - 1 - p
            out.append((t if t < len(xs) else END, y))
        return out

    def forward(self, xs):
        p = self.p[0]
        f = (lambda x: torch.zeros_like(x)) if self.pm == "zeros" else (lambda x: x.clone())
        return self._conv([f(xs[0])] * p + list(xs) + [f(xs[-1])] * p)

    def count(self, n, end=False):
        if n == 0:
            return 0
        return max(0, (n + self.p[0] * (2 if end else 1) - self.k[0]) // self.s[0] + 1)

    def length(self, T):
        n = (T + 2 * self.p[0] - self.k[0]) // self.s[0] + 1
        return n if n > 0 else None

    def delay(self):
        return self.k[0] - 1 - self.p[0]

    def rate(self):
        return self.s[0]

    def rf(self):
        return self.k[0]

    def pad(self):
        return self.p[0]


class Pool(Node):
    stateful = True

    def __init__(self, cls, k=None, s=None, p=0, d=1, fill=None, out=None, fkw=None, **extra):
        """cls e.g. "MaxPool2d"; for adaptive pooling `k` is the temporal kernel and `out` the spatial size"""
        super().__init__()
        self.cls = cls
        self.max = "Max" in cls
        self.adaptive = "Adaptive" in cls
        self.dims = int(cls[-2])
        t = lambda v: tuple(v) if isinstance(v, (list, tuple)) else (v,) * self.dims
        self.extra = dict(extra)
        if self.adaptive:
            self.k, self.s, self.p, self.d = (k,), (1,), (0,), (1,)
            self.out = t(out)
        else:
            self.k = t(k)
            self.s = self.k if s is None else t(s)
            self.s_arg = s
            self.p = t(p)
            self.d = t(d)
        self.fill_arg = fill
        self.fill = fill or ("neg_inf" if self.max and not self.adaptive else "zeros")
        self.span = self.d[0] * (self.k[0] - 1) + 1
        self.flushes = self.p[0] > 0

    def make(self):
        kw = dict(self.extra)
        if self.fill_arg:
            kw["temporal_fill"] = self.fill_arg
        C = getattr(_co(), self.cls)
        if self.adaptive:
            return C((1, *self.out[1:]), self.k[0], **kw)
        if self.d[0] != 1:
            kw["dilation"] = self.d
        if self.s_arg is not None:
            kw["stride"] = self.s
        return C(self.k, padding=self.p, **kw)

    def space(self, x):
        """Spatial pooling of one frame"""
        if self.dims == 1:
            return x
        if self.adaptive:
            f = {
                (2, True): F.adaptive_max_pool1d, (2, False): F.adaptive_avg_pool1d,
                (3, True): F.adaptive_max_pool2d, (3, False): F.adaptive_avg_pool2d,
            }[(self.dims, self.max)]
            return f(x, self.out[1:] if self.dims == 3 else self.out[1])
        f = {
            (2, True): F.max_pool1d, (2, False): F.avg_pool1d,
            (3, True): F.max_pool2d, (3, False): F.avg_pool2d,
        }[(self.dims, self.max)]
        return f(x, self.k[1:], self.s[1:], self.p[1:])

    def _pool(self, frames):
        out, i = [], 0
        while i + self.span <= len(frames):
            w = torch.stack(frames[i : i + self.span : self.d[0]], 0)
            out.append(w.amax(0) if self.max else w.mean(0))
            i += self.s[0]
        return out

    def _fill(self, x, kind):
        if kind == "replicate":
            return x.clone()
        return torch.full_like(x, 0.0 if kind == "zeros" else -math.inf)

    def stream(self, xs, end=False):
        if not xs:
            return []
        p = self.p[0]
        fr = [self.space(x) for x in xs]
        fs, fe = self._fill(fr[0], self.fill), self._fill(fr[-1], self.fill)
        ys = self._pool([fs] * p + fr + ([fe] * p if end else []))
        out = []
        for j, y in enumerate(ys):
            t = j * self.s[0] + self.span - 1 - p
            out.append((t if t < len(xs) else END, y))
        return out

    def forward(self, xs):
        """torch.nn's layer over the clip (1 temporal output for adaptive pooling)"""
        fr = [self.space(x) for x in xs]
        if self.adaptive:
            w = torch.stack(fr, 0)
            return [w.amax(0) if self.max else w.mean(0)]
        f = self._fill(fr[0], "neg_inf" if self.max else "zeros")
        return self._pool([f] * self.p[0] + fr + [f] * self.p[0])

    def count(self, n, end=False):
        if n == 0:
            return 0
        return max(0, (n + self.p[0] * (2 if end else 1) - self.span) // self.s[0] + 1)

    def length(self, T):
        if self.adaptive:
            return 1
        n = (T + 2 * self.p[0] - self.span) // self.s[0] + 1
        return n if n > 0 else None

    def delay(self):
        return self.span - 1 - self.p[0]

    def rate(self):
        return self.s[0]

    def rf(self):
        return self.span

    def pad(self):
        return self.p[0]


class Delay(Node):
    stateful = True

    def __init__(self, d, fill="zeros", shrink=False):
        super().__init__()
        self.d, self.fill, self.shrink = d, fill, shrink
        self.flushes = d > 0 and not shrink
        self.stateful = d > 0

    def make(self):
        return _co().Delay(self.d, self.fill, self.shrink)

    def stream(self, xs, end=False):
        d, n = self.d, len(xs)
        if self.shrink == "lagging":
            return [(i + d, xs[i]) for i in range(n - d)]
        if self.shrink:
            return [(i + d, xs[i]) for i in range(d, n - d)]
        return [(i + d if i + d < n else END, x) for i, x in enumerate(xs) if end or i + d < n]

    def explicit_delay(self):
        return self.d > 0

    def length(self, T):
        return self.count(T, True) or None

    def count(self, n, end=False):
        d = self.d
        if self.shrink == "lagging":
            return max(0, n - d)
        if self.shrink:
            return max(0, n - 2 * d)
        return n if end else max(0, n - d)

    def delay(self):
        return self.d


class Skip(Node):
    stateful = True

    def __init__(self, n):
        super().__init__()
        self.n = n

    def make(self):
        return _co().Skip(self.n)

    def stream(self, xs, end=False):
        return [(i, x) for i, x in enumerate(xs) if i >= self.n]

    def count(self, n, end=False):
        return max(0, n - self.n)

    def delay(self):
        return 0


class Linear(Node):
    def __init__(self, cin, cout, bias=True, channel_dim=1):
        super().__init__()
        self.cin, self.cout, self.bias_, self.cd = cin, cout, bias, channel_dim

    def make(self):
        return _co().Linear(self.cin, self.cout, self.bias_, channel_dim=self.cd)

    def bind(self, m):
        self.w = m.weight.detach().clone()
        self.b = None if m.bias is None else m.bias.detach().clone()

    def frame(self, x):
        if self.cd == 1:
            y = torch.einsum("bc...,oc->bo...", x, self.w)
            return y if self.b is None else y + self.b.reshape(1, -1, *[1] * (x.dim() - 2))
        y = torch.einsum("...c,oc->...o", x, self.w)
        return y if self.b is None else y + self.b

    def delay(self):
        return 0


class NN(Node):
    """A time-local torch.nn module, converted naively"""

    def __init__(self, cls, *args, **kw):
        super().__init__()
        self.cls, self.a, self.k = cls, args, kw

    def make(self):
        return getattr(nn, self.cls)(*self.a, **self.k)

    def bind(self, m):
        self.twin = getattr(nn, self.cls)(*self.a, **self.k)
        if list(m.parameters()) or list(m.buffers()):
            t = next(iter([*m.parameters(), *[b for b in m.buffers() if b.is_floating_point()]]))
            self.twin.to(t.dtype)
            self.twin.load_state_dict({k: v.detach().clone() for k, v in nn.Module.state_dict(m).items()})
        self.twin.train(m.training)

    def frame(self, x):
        with torch.no_grad():
            return self.twin(x.clone().unsqueeze(2)).squeeze(2)

    def delay(self):
        return 0


class Fn(Node):
    """Lambda-like modules"""

    def __init__(self, kind, c=None):
        super().__init__()
        self.kind, self.c = kind, c

    def make(self):
        co = _co()
        return {
            "add": lambda: co.Add(self.c),
            "mul": lambda: co.Multiply(self.c),
            "id": lambda: co.Identity(),
            "const": lambda: co.Constant(self.c),
            "zero": lambda: co.Zero(),
            "one": lambda: co.One(),
            "lam": lambda: co.Lambda(_sq),
            "lamt": lambda: co.Lambda(_sq, takes_time=True),
            "cube": lambda: co.Lambda(_cube_norm),
            "reshape": lambda: co.Reshape(*self.c),
            "reshapec": lambda: co.Reshape(*self.c, contiguous=True),
        }[self.kind]()

    def frame(self, x):
        if self.kind.startswith("reshape"):
            return x.reshape(*self.c)
        return {
            "add": lambda: x + self.c,
            "mul": lambda: x * self.c,
            "id": lambda: x,
            "const": lambda: torch.full_like(x, self.c),
            "zero": lambda: torch.zeros_like(x),
            "one": lambda: torch.ones_like(x),
            "lam": lambda: x * x - x,
            "lamt": lambda: x * x - x,
            "cube": lambda: x**3 - x.mean(1, keepdim=True),
        }[self.kind]()

    def delay(self):
        return 0


def _sq(x):
    return x * x - x


def _cube_norm(x):  # acts on one frame (B, C, ...): depends on the channel dim only
    return x**3 - x.mean(1, keepdim=True)


class Seq(Node):
    def __init__(self, *kids, names=None):
        super().__init__()
        self.kids, self.names = [parse(k) for k in kids], names

    def make(self):
        from collections import OrderedDict

        ms = [k.make() for k in self.kids]
        if self.names:
            return _co().Sequential(OrderedDict(zip(self.names, ms)))
        return _co().Sequential(*ms)

    def bind(self, m):
        for k, c in zip(self.kids, m.children()):
            k.bind(c)

    def stream(self, xs, end=False):
        cur = list(enumerate(xs))
        for k in self.kids:
            res = k.stream([v for _, v in cur], end)
            cur = [(cur[t][0] if t < len(cur) else END, y) for t, y in res]
        return cur

    def forward(self, xs):
        for k in self.kids:
            xs = k.forward(xs)
        return xs

    def length(self, T):
        for k in self.kids:
            T = T and k.length(T)
        return T

    def count(self, n, end=False):
        for k in self.kids:
            n = k.count(n, end)
        return n

    def starves(self, n0, n1):
        for i, k in enumerate(self.kids):
            if i and n1 - n0 <= 0:
                return any(r.any_stateful() for r in self.kids[i:])
            if k.starves(n0, n1):
                return True
            n0, n1 = k.count(n0, False), k.count(n1, True)
        return False

    def pollutes(self):
        fl = False
        for k in self.kids:
            if k.pollutes() or (fl and k.any_stateful()):
                return True
            fl = fl or k.any_flush()
        return False

    def delay(self):
        d, s = 0, 1
        for k in self.kids:
            d += s * k.delay()
            s *= k.rate()
        return d

    def rate(self):
        s = 1
        for k in self.kids:
            s *= k.rate()
        return s

    def rf(self):
        r, s = 1, 1
        for k in self.kids:
            r += s * (k.rf() - 1)
            s *= k.rate()
        return r

    def pad(self):
        p, s = 0, 1
        for k in self.kids:
            p += s * k.pad()
            s *= k.rate()
        return p


def _combine(op, ys):
    if op == "concat":
        return torch.cat(ys, 1)
    if op == "wsum":
        return sum((i + 1) * y for i, y in enumerate(ys))
    r = ys[0]
    for y in ys[1:]:
        r = {"sum": torch.add, "mul": torch.mul, "max": torch.maximum}[op](r, y)
    return r


def wsum(inputs):
    """A user-defined, order-sensitive reduction"""
    return sum((i + 1) * y for i, y in enumerate(inputs))


class Branches(Node):
    """BroadcastReduce ("br") or Broadcast -> Parallel -> Reduce ("par")"""

    def __init__(self, form, op, *kids, names=None):
        super().__init__()
        self.form, self.op = form, op
        self.kids, self.names = [parse(k) for k in kids], names

    def make(self):
        from collections import OrderedDict

        co = _co()
        ms = [co.continual(k.make()) for k in self.kids]
        args = [OrderedDict(zip(self.names, ms))] if self.names else ms
        op = wsum if self.op == "wsum" else self.op
        self.made = ms
        if self.form == "br":
            return co.BroadcastReduce(*args, reduce=op)
        return co.Sequential(co.Broadcast(), co.Parallel(*args), co.Reduce(op))

    def bind(self, m):
        # Automatic delays wrap members: use the instances that were passed in
        for k, c in zip(self.kids, self.made):
            k.bind(c)
        self.made = None

    def _zip(self, outs):
        n = min(len(o) for o in outs)
        return [
            (max(o[i][0] for o in outs), _combine(self.op, [o[i][1] for o in outs])) for i in range(n)
        ]

    def stream(self, xs, end=False):
        return self._zip([k.stream(xs, end) for k in self.kids])

    def forward(self, xs):
        outs = [k.forward(xs) for k in self.kids]
        assert len({len(o) for o in outs}) == 1, "branches of different length"
        return [_combine(self.op, list(ys)) for ys in zip(*outs)]

    def length(self, T):
        ls = {k.length(T) for k in self.kids}
        return ls.pop() if len(ls) == 1 else None

    def count(self, n, end=False):
        if end:
            return min(k.count(n, True) for k in self.kids)
        # An output appears when the slowest branch has it
        if n <= self.delay():
            return 0
        return (n - 1 - self.delay()) // self.rate() + 1

    def starves(self, n0, n1):
        return any(k.starves(n0, n1) for k in self.kids)

    def pollutes(self):
        D = self.delay()
        for k in self.kids:
            if k.pollutes():
                return True
            # the automatic delay makes a chain of two
            if k.delay() < D and k.any_stateful() and (k.any_flush() or k.rate() > 1):
                return True
        return False

    def any_flush(self):
        return True

    def any_stateful(self):
        return self.delay() > 0 or any(k.any_stateful() for k in self.kids)

    def delay(self):
        return max(k.delay() for k in self.kids)

    def rate(self):
        return self.kids[0].rate()

    def rf(self):
        D = self.delay()
        return max(k.rf() + (D - k.delay()) for k in self.kids)

    def pad(self):
        return max(k.pad() for k in self.kids)


class Res(Node):
    def __init__(self, kid, shrink=False, op="sum", fill=None):
        super().__init__()
        self.kids, self.shrink, self.op, self.fill = [parse(kid)], shrink, op, fill
        self.flushes = True

    def make(self):
        co = _co()
        self.made = co.continual(self.kids[0].make())
        kw = {}
        if self.fill:
            kw["temporal_fill"] = self.fill
        return co.Residual(self.made, reduce=wsum if self.op == "wsum" else self.op, residual_shrink=self.shrink, **kw)

    def bind(self, m):
        self.kids[0].bind(self.made)
        self.made = None

    def _off(self):
        k = self.kids[0]
        cut = k.rf() - 1 - 2 * k.pad()
        if cut == 0:
            return 0
        assert self.shrink, "lengths of residual and module differ"
        return {"lagging": 0, "leading": cut, "centered": cut // 2, True: cut // 2}[self.shrink]

    def stream(self, xs, end=False):
        o = self._off()
        return [
            (t, _combine(self.op, [xs[i + o], y])) for i, (t, y) in enumerate(self.kids[0].stream(xs, end))
        ]

    def forward(self, xs):
        o = self._off()
        return [_combine(self.op, [xs[i + o], y]) for i, y in enumerate(self.kids[0].forward(xs))]

    def length(self, T):
        return self.kids[0].length(T)

    def count(self, n, end=False):
        return self.kids[0].count(n, end)

    def starves(self, n0, n1):
        return self.kids[0].starves(n0, n1)

    def pollutes(self):
        return self.kids[0].pollutes()

    def any_stateful(self):
        return True

    def delay(self):
        return self.kids[0].delay()

    def rate(self):
        return self.kids[0].rate()

    def rf(self):
        return self.kids[0].rf()

    def pad(self):
        return self.kids[0].pad()


class Rnn(Node):
    """co.RNN / GRU / LSTM; reference: the cell equations"""

    stateful = True

    def __init__(self, cls, cin, hid, layers=1, bias=True, nonlinearity=None, proj=0):
        super().__init__()
        self.cls, self.cin, self.hid, self.layers, self.bias_ = cls, cin, hid, layers, bias
        self.nl, self.proj = nonlinearity, proj

    def make(self):
        kw = dict(num_layers=self.layers, bias=self.bias_)
        if self.nl:
            kw["nonlinearity"] = self.nl
        if self.proj:
            kw["proj_size"] = self.proj
        return getattr(_co(), self.cls)(self.cin, self.hid, **kw)

    def bind(self, m):
        self.w = {k: v.detach().clone() for k, v in m.named_parameters()}

    def zeros(self, x):
        z = lambda n: x.new_zeros(x.shape[0], n)  # noqa: E731
        return [(z(self.proj or self.hid), z(self.hid)) for _ in range(self.layers)]

    def cell(self, x, hs):
        """One time step through all layers; hs: [(h, c)] per layer"""
        new = []
        for l, (h, c) in enumerate(hs):
            gi = x @ self.w[f"weight_ih_l{l}"].T
            gh = h @ self.w[f"weight_hh_l{l}"].T
            if self.bias_:
                gi = gi + self.w[f"bias_ih_l{l}"]
                gh = gh + self.w[f"bias_hh_l{l}"]
            if self.cls == "RNN":
                h2, c2 = (torch.relu if self.nl == "relu" else torch.tanh)(gi + gh), c
            elif self.cls == "GRU":
                ir, iz, in_ = gi.chunk(3, 1)
                hr, hz, hn = gh.chunk(3, 1)
                r, z = torch.sigmoid(ir + hr), torch.sigmoid(iz + hz)
                n = torch.tanh(in_ + r * hn)
                h2, c2 = (1 - z) * n + z * h, c
            else:
                i, f, g, o = (gi + gh).chunk(4, 1)
                c2 = torch.sigmoid(f) * c + torch.sigmoid(i) * torch.tanh(g)
                h2 = torch.sigmoid(o) * torch.tanh(c2)
                if self.proj:
                    h2 = h2 @ self.w[f"weight_hr_l{l}"].T
            new.append((h2, c2))
            x = h2
        return x, new

    def run(self, xs, hs=None):
        hs = hs or self.zeros(xs[0])
        ys = []
        for x in xs:
            y, hs = self.cell(x, hs)
            ys.append(y)
        return ys, hs

    def stream(self, xs, end=False):
        if not xs:
            return []
        return list(enumerate(self.run(xs)[0]))

    def delay(self):
        return 0


class Rpe(Node):
    """Recycling positional encoding. NB: forward moves the position (see the property C14)"""

    stateful = True

    def __init__(self, dim, n, learned=True, upd=0):
        super().__init__()
        self.dim, self.n, self.learned, self.upd = dim, n, learned, upd

    def make(self):
        return _co().RecyclingPositionalEncoding(self.dim, self.n, self.learned, self.upd)

    def bind(self, m):
        with torch.no_grad():
            self.table = m.pe(torch.arange(self.n)).detach().clone()

    def stream(self, xs, end=False, pos=0):
        return [(i, x + self.table[(pos + i) % self.n]) for i, x in enumerate(xs)]

    def delay(self):
        return 0


def attention(q, k, v, w, heads, one=None):
    """Plain multi-head attention of the queries q over k, v: lists of (B, E) tokens"""
    Q, K, V = torch.stack(q, 1), torch.stack(k, 1), torch.stack(v, 1)  # B, N, E
    E = Q.shape[2]
    Wq, Wk, Wv = w["wq"], w["wk"], w["wv"]
    Q, K, V = Q @ Wq.T, K @ Wk.T, V @ Wv.T
    if w["b"] is not None:
        bq, bk, bv = w["b"].chunk(3)
        Q, K, V = Q + bq, K + bk, V + bv
    if one is not None:
        Q = Q[:, one : one + 1]
    h = E // heads
    outs = []
    for i in range(heads):
        s = slice(i * h, (i + 1) * h)
        A = torch.softmax(Q[:, :, s] @ K[:, :, s].transpose(1, 2) / math.sqrt(h), -1)
        outs.append(A @ V[:, :, s])
    y = torch.cat(outs, 2) @ w["wo"].T
    return y if w["bo"] is None else y + w["bo"]  # B, Nq, E


class Mha(Node):
    """kind: "single" or "retro". Inputs are tuples handled by the C11 world if kv is set"""

    stateful = True

    def __init__(self, kind, E, heads, n, q=-1, bias=True, batch_first=True, ed2=True, kdim=None, vdim=None, mask=False, sof=True, dropout=0.0, how="direct"):
        super().__init__()
        self.kind, self.E, self.heads, self.n, self.q = kind, E, heads, n, q
        self.bias_, self.bf, self.ed2, self.kdim, self.vdim = bias, batch_first, ed2, kdim, vdim
        self.mask, self.sof, self.dropout, self.how = mask, sof, dropout, how

    def make(self):
        co = _co()
        kw = dict(
            embed_dim=self.E, num_heads=self.heads, bias=self.bias_, batch_first=self.bf, sequence_len=self.n,
            forward_returns_attn_mask=self.mask, embed_dim_second=self.ed2, kdim=self.kdim, vdim=self.vdim,
        )
        cls = co.RetroactiveMultiheadAttention
        if self.kind == "single":
            cls = co.SingleOutputMultiheadAttention
            kw.update(query_index=self.q, single_output_forward=self.sof)
        if self.how == "from":
            own = ("sequence_len", "query_index", "single_output_forward", "embed_dim_second", "forward_returns_attn_mask")
            return cls.build_from(self.regular(), **{k: v for k, v in kw.items() if k in own})
        return cls(dropout=self.dropout, **kw)

    def regular(self):
        return nn.MultiheadAttention(
            self.E, self.heads, self.dropout, self.bias_, kdim=self.kdim, vdim=self.vdim, batch_first=self.bf
        )

    def bind(self, m):
        E = self.E
        if m.in_proj_weight is not None:
            wq, wk, wv = m.in_proj_weight.detach().clone().chunk(3)
        else:
            wq, wk, wv = [p.detach().clone() for p in (m.q_proj_weight, m.k_proj_weight, m.v_proj_weight)]
        c = lambda p: None if p is None else p.detach().clone()  # noqa: E731
        self.twin = self.regular().to(wq.dtype)
        self.twin.load_state_dict({k: c(v) for k, v in nn.Module.state_dict(m).items()})
        self.twin.train(m.training)
        self.w = dict(wq=wq, wk=wk, wv=wv, b=c(m.in_proj_bias), wo=c(m.out_proj.weight), bo=c(m.out_proj.bias))

    def window(self, q, k, v):
        """Step output for a window of n tokens"""
        if self.kind == "single":
            return attention(q, k, v, self.w, self.heads, one=self.q % self.n)[:, 0]
        y = attention(q, k, v, self.w, self.heads)  # B, N, E
        if not self.bf:
            y = y.transpose(0, 1)
        if self.ed2:
            y = y.transpose(1, 2)
        return y

    def stream(self, xs, end=False):
        n = self.n
        # a frame is a token, or its [query, key, value]; keys and values default to the query
        qkv = [[x[i] if i < len(x) else x[0] for x in xs] if xs and isinstance(xs[0], list) else xs for i in range(3)]
        return [(t, self.window(*[v[t - n + 1 : t + 1] for v in qkv])) for t in range(n - 1, len(xs))]

    def count(self, n, end=False):
        return max(0, n - self.n + 1)

    def delay(self):
        return self.n - 1


def te_key(key):
    """Name of a continual encoder's parameter in torch.nn.TransformerEncoder"""
    parts = key.split(".")
    if parts[0] == "norm":
        return "norm." + parts[-1]
    layer = next(p for p in parts if p.isdigit())
    names = [p for p in parts if p in ("self_attn", "out_proj", "linear1", "linear2", "norm1", "norm2")]
    return ".".join(["layers", layer, *names, parts[-1]])


class Te(Node):
    """Transformer encoder; how: "direct", "from" (TransformerEncoder.build_from)"""

    stateful = True

    def __init__(self, E, heads, n, layers=1, ff=6, act="relu", norm=False, how="direct", eps=1e-5, dropout=0.0, bf=True):
        super().__init__()
        self.dropout, self.bf_ = dropout, bf
        self.E, self.heads, self.n, self.layers, self.ff = E, heads, n, layers, ff
        self.act, self.norm, self.how, self.eps = act, norm, how, eps

    def regular(self, dropout=0.0, bf=True):
        layer = nn.TransformerEncoderLayer(
            self.E, self.heads, self.ff, dropout, self.act, layer_norm_eps=self.eps, batch_first=bf
        )
        norm = nn.LayerNorm(self.E, eps=1e-3) if self.norm else None
        return nn.TransformerEncoder(layer, self.layers, norm, enable_nested_tensor=False)

    def make(self):
        co = _co()
        if self.how == "from":
            return co.TransformerEncoder.build_from(self.regular(self.dropout, self.bf_), sequence_len=self.n)
        act = self.act
        if self.how == "callable":
            act = getattr(F, act)
        f = co.TransformerEncoderLayerFactory(
            self.E, self.heads, self.ff, self.dropout, act, self.eps, sequence_len=self.n
        )
        return co.TransformerEncoder(f, self.layers, nn.LayerNorm(self.E, eps=1e-3) if self.norm else None)

    def bind(self, m):
        r = self.regular()
        sd = {te_key(k): v.detach().clone() for k, v in nn.Module.state_dict(m).items()}
        r.to(next(iter(sd.values())).dtype)
        r.load_state_dict(sd)
        # training mode avoids torch's fused inference path; there is no dropout
        self.twin = r.train()

    def window(self, xs):
        with torch.no_grad():
            return self.twin(torch.stack(xs, 1))  # B, T, E

    def stream(self, xs, end=False):
        n = self.n
        return [(t, self.window(xs[t - n + 1 : t + 1])[:, -1]) for t in range(n - 1, len(xs))]

    def forward(self, xs):
        y = self.window(xs)
        return [y[:, -1]] if self.layers > 1 else list(y.unbind(1))

    def count(self, n, end=False):
        return max(0, n - self.n + 1)

    def delay(self):
        return self.n - 1


class Tel(Node):
    """One encoder layer; kind: "single" (with query index q and forward for one or all tokens) or "retro".

    how: "direct", "factory" (only q = -1)"""

    stateful = True

    def __init__(self, kind, E, heads, n, q=-1, sof=False, ff=6, act="relu", eps=1e-5, dropout=0.0, how="direct"):
        super().__init__()
        self.kind, self.E, self.heads, self.n, self.q, self.sof = kind, E, heads, n, q, sof
        self.ff, self.act, self.eps, self.dropout, self.how = ff, act, eps, dropout, how

    def make(self):
        co = _co()
        a = (self.E, self.heads, self.ff, self.dropout, self.act if self.how == "factory" else getattr(F, self.act), self.eps)
        if self.how == "factory":
            kind = "retroactive" if self.kind == "retro" else ("single_output_forward" if self.sof else "single_output")
            return co.TransformerEncoderLayerFactory(*a, sequence_len=self.n)(kind)
        if self.kind == "retro":
            return co.RetroactiveTransformerEncoderLayer(*a, sequence_len=self.n)
        return co.SingleOutputTransformerEncoderLayer(
            *a, sequence_len=self.n, query_index=self.q, single_output_forward=self.sof
        )

    def bind(self, m):
        self.twin = nn.TransformerEncoderLayer(self.E, self.heads, self.ff, 0.0, self.act, self.eps, batch_first=True)
        names = ("self_attn", "out_proj", "linear1", "linear2", "norm1", "norm2")
        sd = {}
        for k, v in nn.Module.state_dict(m).items():
            parts = k.split(".")
            sd[".".join([p for p in parts[:-1] if p in names] + parts[-1:])] = v.detach().clone()
        self.twin.to(v.dtype)
        self.twin.load_state_dict(sd)
        self.twin.train()  # no dropout; avoids torch's fused path

    def window(self, xs):
        with torch.no_grad():
            return self.twin(torch.stack(xs, 1))  # B, T, E

    def stream(self, xs, end=False):
        n = self.n
        out = []
        for t in range(n - 1, len(xs)):
            y = self.window(xs[t - n + 1 : t + 1])
            out.append((t, y[:, self.q] if self.kind == "single" else y.transpose(1, 2)))
        return out

    def forward(self, xs):
        y = self.window(xs)
        return [y[:, self.q]] if self.kind == "single" and self.sof else list(y.unbind(1))

    def count(self, n, end=False):
        return max(0, n - self.n + 1)

    def delay(self):
        return self.n - 1


def _always(m, x):
    return True


def _never(m, x):
    return False


def _training(m, x):
    return m.training


class Cond(Node):
    """Conditional with a constant predicate (histories of outcomes: see the C10 world)"""

    def __init__(self, pred, yes, no=None):
        super().__init__()
        self.pred, self.yes, self.no = pred, parse(yes), parse(no) if no else None
        self.kids = [self.yes] + ([self.no] if no else [])

    def make(self):
        co = _co()
        self.made = [co.continual(k.make()) for k in self.kids]
        return co.Conditional(dict(yes=_always, no=_never, train=_training)[self.pred], *self.made)

    def bind(self, m):
        for k, c in zip(self.kids, self.made):
            k.bind(c)
        self.made = None
        self.sel = self.yes if self.pred == "yes" or (self.pred == "train" and m.training) else self.no
        self.lag = self.delay() - (self.sel.delay() if self.sel else 0)

    def stream(self, xs, end=False):
        if self.sel is None:
            return list(enumerate(xs))
        s = Seq()
        s.kids = ([Delay(self.lag)] if self.lag else []) + [self.sel]
        return s.stream(xs, end)

    def forward(self, xs):
        return list(xs) if self.sel is None else self.sel.forward(xs)

    def pollutes(self):
        return any(k.pollutes() or (k.delay() < self.delay() and k.any_stateful()) for k in self.kids)

    def delay(self):
        return max(k.delay() for k in self.kids)

    def rate(self):
        return self.yes.rate()


# --- multi-stream modules: values are (nested) lists of tensors


class Bcast(Node):
    def __init__(self, n=None):
        super().__init__()
        self.n = n

    def make(self):
        return _co().Broadcast(self.n)

    def frame(self, x):
        return [x] * self.n

    def delay(self):
        return 0


class Parallel(Node):
    def __init__(self, *kids, names=None, auto=True):
        super().__init__()
        self.kids, self.names, self.auto = [parse(k) for k in kids], names, auto

    def make(self):
        from collections import OrderedDict

        co = _co()
        self.made = ms = [co.continual(k.make()) for k in self.kids]
        return co.Parallel(*([OrderedDict(zip(self.names, ms))] if self.names else ms), auto_delay=self.auto)

    def bind(self, m):
        for k, c in zip(self.kids, self.made):
            k.bind(c)
        self.made = None

    def stream(self, xs, end=False):
        outs = [k.stream([x[i] for x in xs], end) for i, k in enumerate(self.kids)]
        n = min(len(o) for o in outs)
        return [(max(o[i][0] for o in outs), [o[i][1] for o in outs]) for i in range(n)]

    def forward(self, xs):
        outs = [k.forward([x[i] for x in xs]) for i, k in enumerate(self.kids)]
        assert len({len(o) for o in outs}) == 1
        return [list(ys) for ys in zip(*outs)]

    length, count, starves, pollutes = Branches.length, Branches.count, Branches.starves, Branches.pollutes
    any_flush, any_stateful = Branches.any_flush, Branches.any_stateful
    delay, rate, rf, pad = Branches.delay, Branches.rate, Branches.rf, Branches.pad


class Dispatch(Node):
    def __init__(self, mapping, seq="list"):
        super().__init__()
        self.mapping, self.seq = mapping, seq

    def make(self):
        f = lambda m: m if isinstance(m, int) else {"list": list, "tuple": tuple}[self.seq](f(i) for i in m)
        return _co().ParallelDispatch(f(self.mapping))

    def frame(self, x):
        f = lambda m: x[m] if isinstance(m, int) else [f(i) for i in m]
        return f(self.mapping)

    def delay(self):
        return 0


class Reduce(Node):
    def __init__(self, op):
        super().__init__()
        self.op = op

    def make(self):
        return _co().Reduce(wsum if self.op == "wsum" else self.op)

    def frame(self, x):
        return _combine(self.op, x)

    def delay(self):
        return 0


KINDS = dict(
    te=Te, tel=Tel, cond=Cond, bcast=Bcast, parallel=Parallel, dispatch=Dispatch, reduce=Reduce,
    conv=Conv, pool=Pool, delay=Delay, skip=Skip, linear=Linear, nn=NN, fn=Fn, seq=Seq, res=Res, rnn=Rnn, rpe=Rpe, mha=Mha,
)


def parse(tree):
    """[kind, *args, {kwargs}?] -> Node"""
    tree = list(tree)
    kind, args = tree[0], tree[1:]
    kw = {}
    if args and isinstance(args[-1], dict):
        kw = dict(args[-1])
        args = args[:-1]
    if kind in ("br", "par"):
        return Branches(kind, *args, **kw)
    if kind == "oseq":
        return Seq(*[k for _, k in args], names=[n for n, _ in args])
    args = [tuple(a) if kind in ("fn",) and isinstance(a, list) else a for a in args]
    return KINDS[kind](*args, **kw)


def build(node, dtype=torch.float64, train=False, tag=""):
    """A fresh continual module for a node, with generic deterministic weights; binds the node"""
    from .tensors import init_weights

    co = _co()
    m = node.make()
    if not co.CoModule.is_valid(m):
        m = co.continual(m)
    m = m.to(dtype)
    m.train(train)
    init_weights(m, tag)
    return m
