"""C15 Calling a module runs the selected mode, and only while selected (model: a stack of contexts and the attributes)"""
import contextlib
import itertools

import torch
from torch import nn

from .. import explore
from ..explore import Violation, caught
from ..tensors import data, diff, fingerprint, init_weights

BOUNDS = {
    "quick": "all reachable selections (stacks of up to 3 contexts, 1-2 for nested networks, x attributes of the root and its members) of 12 modules and networks: "
    "in each, the root and members are called, every explicit method is executed, and exceptions are raised inside "
    "calls and explicit methods; contexts are left normally, by an exception caught right outside and by one that unwinds all of "
    "them, entered as decorators, created without being entered; modes named in 4 ways; unmerged histories of 2 operations; chains of "
    "value-changing and looking forward (pre-)hooks on called members; full backward (pre-)hooks of every member, every pair and all members, in all selections and both training modes, against autograd's account",
    "thorough": "unmerged histories of 3 operations; contexts of up to 4 (3) levels",
}
ASSUMPTIONS = [
    "selections of one thread (see C18 for several)",
    "always_call hooks are left out; the order of backward hooks is not judged", "direct calls of the members of a Conditional are not judged (only as part of it)",
    "naively converted modules: `forward` is what their call dispatches to, so only forward_step and forward_steps count as explicit",
]

MODES = ("forward", "forward_steps", "forward_step")
STEPM = "forward_step"


class Boom(Exception):
    pass


def make_probe(log, flag):
    import continual as co

    class Probe(co.CoModule, nn.Module):
        """Records how it is run"""

        def __init__(self):
            nn.Module.__init__(self)

        def run(self, mode, x):
            if flag:
                flag.append("hit")
                raise Boom()
            log.append((id(self), mode, x.dim() if torch.is_tensor(x) else None))
            return x + 1

        def forward(self, input):
            return self.run("forward", input)

        def forward_step(self, input, update_state=True):
            return self.run("forward_step", input)

        def forward_steps(self, input, pad_end=False, update_state=True):
            return self.run("forward_steps", input)

        def get_state(self):
            return None

        def set_state(self, state):
            pass

        def clean_state(self):
            pass

    return Probe()


class Own(nn.Module):
    """A user's time-local module, made continual by forward_stepping. Takes a keyword argument"""

    def forward(self, x, gain=2.0):
        assert x.dim() == 3
        return x * gain - 1


NETS = ["probe", "naive", "own", "conv", "rnn", "seq", "nested", "br", "residual", "parallel", "cond", "real"]


class ModeWorld:
    def __init__(self, task):
        _reset()
        self.task = task
        self.max_stack = task.get("stack", 3)
        self.frame = data((2, 2), "x")
        self.clip = data((2, 2, 5), "c")
        self.paths = list(self.net()[1])
        self.expected = {}
        live = ModeLive(self)
        for path, m in live.members.items():
            for mode in MODES:
                live.clean()
                f = m if mode == "forward" and live.naive(m) else getattr(m, mode)
                with torch.no_grad():
                    y = f(live.inp(path, mode))
                self.expected[path, mode] = y, live.ran()
        self.setts = self.settable()

    def net(self):
        """-> root, {path: member}, log, flag"""
        import continual as co

        log, flag = [], []
        p = lambda: make_probe(log, flag)  # noqa: E731
        conv = lambda: co.Conv1d(2, 2, 3, padding=1)  # noqa: E731
        t = self.task["net"]
        if t == "probe":
            m = p()
        elif t == "naive":
            m = co.continual(nn.Tanh())
        elif t == "own":
            m = co.forward_stepping(Own())
        elif t == "conv":
            m = conv()
        elif t == "rnn":
            m = co.Sequential(co.GRU(2, 2), p())
        elif t == "seq":
            m = co.Sequential(p(), co.continual(nn.Tanh()), conv(), p())
        elif t == "nested":
            m = co.Sequential(p(), co.Sequential(p(), co.Sequential(p(), co.continual(nn.Sigmoid()))))
        elif t == "br":
            m = co.BroadcastReduce(p(), co.Sequential(p(), co.Linear(2, 2, channel_dim=1)))
        elif t == "residual":
            m = co.Residual(co.Sequential(conv(), p()))
        elif t == "parallel":
            m = co.Sequential(co.Broadcast(2), co.Parallel(p(), co.Sequential(p(), co.forward_stepping(Own()))), co.ParallelDispatch([1, 0]), co.Reduce("sum"))
        elif t == "cond":
            m = co.Sequential(co.Conditional(_yes, co.Sequential(p(), conv()), p()), p())
        else:
            m = co.Sequential(
                conv(), co.AvgPool1d(2, stride=1), co.Delay(1), co.continual(nn.ReLU()), co.RecyclingPositionalEncoding(2, 9, False, 0),
                co.SingleOutputMultiheadAttention(2, 1, sequence_len=2, single_output_forward=False, embed_dim_second=True, batch_first=True),
            )
        m = m.double().eval()
        init_weights(m)
        members = {(): m}

        def walk(x, path):
            if isinstance(x, (co.Sequential, co.BroadcastReduce, co.Parallel)):
                for i, c in enumerate(x.children()):
                    if isinstance(c, nn.Module) and hasattr(c, "call_mode"):
                        members[path + (i,)] = c
                        walk(c, path + (i,))

        walk(m, ())
        if len(members) > 1:
            with torch.no_grad():  # attributes may be created by the first call
                m(self.clip.clone())
        log.clear()
        return m, members, log, flag

    def start(self):
        return ((), tuple([0] * len(self.paths)))

    def settable(self):
        """Members whose attribute is set: the first and the last leaf and the first inner container"""
        ks = self.paths[1:]
        leaves = [k for k in ks if not any(q[: len(k)] == k and q != k for q in ks)]
        inner = [k for k in ks if k not in leaves]
        out = [leaves[-1], *inner[:1]] if leaves else []
        return list(dict.fromkeys([(), *out]))

    def ops(self, g):
        stack, attrs = g
        out = []
        if len(stack) < self.max_stack:
            out += [["E", i] for i in range(3)]
        if stack:
            out += [["X"], ["XR"]]
        if len(stack) > 1:
            out.append(["XA"])
        i = (len(stack) + sum(attrs)) % 3
        out += [["D", i], ["N", i]]
        out += [["A", list(k), i] for k in self.setts for i in range(3)]
        out += [["call"], ["boom", -1], ["boom", i]]
        out += [["M", i] for i in range(3)]
        return out

    def next(self, g, op):
        stack, attrs = g
        k = op[0]
        if k == "E":
            return (stack + (op[1],), attrs)
        if k in ("X", "XR"):
            return (stack[:-1], attrs)
        if k == "XA":
            return ((), attrs)
        if k == "A":
            ks = self.paths
            p = tuple(op[1])
            return (stack, tuple(op[2] if q[: len(p)] == p else a for q, a in zip(ks, attrs)))
        return g

    def live(self):
        return ModeLive(self)


def scale(x, f):
    """Exact: f is a power of two"""
    if isinstance(x, (tuple, list)):
        return type(x)(scale(i, f) for i in x)
    return x * f if torch.is_tensor(x) else x


def _yes(m, x):
    return True


class ModeLive:
    def __init__(self, w):
        import continual as co

        self.w, self.co = w, co
        _reset()
        self.m, self.members, self.log, self.flag = w.net()
        self.g = w.start()
        self.cms = []
        self.hist = []
        self.replaying = False

    def key(self):
        cm = self.co.call_mode
        return (self.g, fingerprint(self.m), int(cm.cur), None if cm.prev is None else int(cm.prev))

    def name(self, i, how):
        """The mode in different notations"""
        n = MODES[i]
        if how % 4 == 0:
            return n
        if how % 4 == 1:
            return n.upper()
        if how % 4 == 2:
            return i
        m = self.co.Add(1)
        m.call_mode = n
        return m.call_mode

    def selected(self, path):
        stack, attrs = self.g
        return MODES[stack[-1] if stack else attrs[list(self.members).index(path)]]

    def clean(self):
        self.m.clean_state()
        self.log.clear()

    def inp(self, path, mode):
        m = self.members[path]
        x = self.w.frame if mode == STEPM else self.w.clip
        x = x.clone()
        if isinstance(m, (self.co.Parallel, self.co.ParallelDispatch, self.co.Reduce)):
            return [x, x * 2]
        return x

    def compare(self, what, path, mode, obs):
        """Result and modes of all parts: as without contexts and attributes"""
        exp, texp = self.w.expected[path, mode]
        d = diff(obs, exp, what)
        if d:
            raise Violation(d, list(self.hist))
        ran = self.ran()
        for _, n, _ in ran:
            if n != mode:
                raise Violation(f"{what}: a member ran {n} instead of {mode}", list(self.hist))
        if ran != texp:
            raise Violation(f"{what}: members ran as {ran}, expected {texp}", list(self.hist))

    def ran(self):
        order = {id(m): i for i, m in enumerate(self.m.modules())}
        return [(order.get(i), n, d) for i, n, d in self.log]

    def naive(self, m):
        return not isinstance(m, self.co.CoModule)

    def do_call(self, path, looking=False):
        mode = self.selected(path)
        self.clean()
        hooked, seen = [], []
        hs = [m.register_forward_hook(lambda m, i, o: hooked.append(id(m))) for m in self.members.values()]
        if looking:
            hs += self.hooks(self.members[path], seen)
        try:
            with torch.no_grad():
                obs = self.members[path](self.inp(path, mode))
        except Exception as e:  # noqa
            obs = caught(e)
        finally:
            for h in hs:
                h.remove()
        self.compare(f"call of {path}, selected {mode}", path, mode, obs)
        if len(set(hooked)) != len(hooked):
            raise Violation(f"call of {path}, selected {mode}: a hook ran twice", list(self.hist))
        if hooked.count(id(self.members[path])) != 1:
            raise Violation(f"call of {path}, selected {mode}: its hook did not run", list(self.hist))
        if not looking:
            return
        x = self.inp(path, mode)
        y = self.w.expected[path, mode][0]
        exp = [("p0", x), ("p1", scale(x, 2)), ("p2", x), ("p3", x, {}), ("f0", x, y), ("f1", x, {}, scale(y, 2)), ("f2", x, scale(y, 2)), ("f3", x, y)]
        if [e[0] for e in seen] != [e[0] for e in exp]:
            raise Violation(f"call of {path}, selected {mode}: hooks ran as {[e[0] for e in seen]}", list(self.hist))
        for e, s in zip(exp, seen):
            for a, b in zip(e[1:], s[1:]):
                d = None if a == {} and b == {} else diff(b, a, f"call of {path}, selected {mode}: given to hook {e[0]}")
                if d:
                    raise Violation(d, list(self.hist))

    def hooks(self, m, seen):
        """Hooks that change inputs and results and undo that, between ones that only look"""

        def p0(m, a):
            seen.append(("p0", *a))
            return scale(a[0], 2)

        def p1(m, a):
            seen.append(("p1", *a))
            return (scale(a[0], 0.5),)

        def p2(m, a):
            seen.append(("p2", *a))

        def p3(m, a, k):
            seen.append(("p3", *a, k))
            return a, k

        def f0(m, a, r):
            seen.append(("f0", *a, r))
            return scale(r, 2)

        def f1(m, a, k, r):
            seen.append(("f1", *a, k, r))

        def f2(m, a, r):
            seen.append(("f2", *a, r))
            return scale(r, 0.5)

        def f3(m, a, r):
            seen.append(("f3", *a, r))

        hs = [m.register_forward_pre_hook(p) for p in (p0, p1, p2)] + [m.register_forward_pre_hook(p3, with_kwargs=True)]
        return hs + [m.register_forward_hook(f, with_kwargs=f is f1) for f in (f0, f1, f2, f3)]

    def do_explicit(self, path, mode):
        m = self.members[path]
        if mode == "forward" and self.naive(m):
            return
        self.clean()
        try:
            with torch.no_grad():
                obs = getattr(m, mode)(self.inp(path, mode))
        except Exception as e:  # noqa
            obs = caught(e)
        self.compare(f"explicit {mode} of {path}", path, mode, obs)

    def verify(self):
        rest = [p for p in self.w.paths if p not in self.w.setts]
        some = self.w.setts + rest[:1] + [p for p in rest[1:] if self.naive(self.members[p])]
        for p in some:
            self.do_call(p)
        for mode in MODES:
            self.do_explicit((), mode)
        for p in some:
            self.do_call(p, True)

    def leave(self, n, error):
        """Leave the n innermost contexts"""
        exc = Boom() if error else None
        for _ in range(n):
            cm = self.cms.pop()
            OPEN.remove(cm)
            if exc is None:
                cm.__exit__(None, None, None)
            else:
                try:
                    if cm.__exit__(Boom, exc, None):
                        raise Violation("an exception was swallowed by the context", list(self.hist))
                except Boom:
                    pass

    def apply(self, op):
        co, k = self.co, op[0]
        self.hist.append(op)
        how = len(self.hist)
        try:
            if k == "E":
                cm = co.call_mode(self.name(op[1], how))
                cm.__enter__()
                self.cms.append(cm)
                OPEN.append(cm)
            elif k == "X":
                self.leave(1, False)
            elif k == "XR":
                self.leave(1, True)
            elif k == "XA":
                self.leave(len(self.cms), True)
            elif k == "N":
                co.call_mode(self.name(op[1], how))  # not entered
            elif k == "A":
                self.members[tuple(op[1])].call_mode = self.name(op[2], how)
        except Violation:
            raise
        except Exception as e:  # noqa
            raise Violation(f"{op}: {caught(e)!r}", list(self.hist))
        self.g = self.w.next(self.g, op)
        if k == "call":
            self.do_call(())
        elif k == "M":
            self.do_explicit((), MODES[op[1]])
        elif k == "D":
            stack, attrs = self.g

            @co.call_mode(self.name(op[1], how))
            def f():
                self.g = (stack + (op[1],), attrs)
                try:
                    self.do_call(())
                finally:
                    self.g = (stack, attrs)

            f()
        elif k == "boom" and not (self.naive(self.m) and op[1] == 0):
            # raised within a call or an explicit method
            self.flag.append(1)
            mode = self.selected(()) if op[1] < 0 else MODES[op[1]]
            x = self.inp((), mode)
            bad = not any(type(c).__name__ == "Probe" for c in self.m.modules())
            if bad:
                x = torch.zeros(1, 2, 3, 4, 5, 6)  # refused by the module itself
            try:
                with torch.no_grad():
                    (self.m if op[1] < 0 else getattr(self.m, mode))(x)
            except Exception:  # noqa
                pass
            else:
                if "hit" in self.flag:
                    raise Violation(f"{op}: an exception was swallowed", list(self.hist))
            self.flag.clear()
        if not self.replaying:
            self.verify()
        return k in ("call", "M", "D")


def _reset():
    """Histories that end inside contexts are dropped: close what they left open"""
    for cm in reversed(OPEN):
        try:
            cm.__exit__(None, None, None)
        except Exception:  # noqa
            pass
    OPEN.clear()


OPEN = []

SMALL = ("probe", "naive", "own", "conv")
HEAVY = ("parallel", "br", "residual", "nested", "cond", "real")


def tasks(tier):
    T = tier == "thorough"
    out = []
    for net in NETS:
        w = dict(world="props.c15:ModeWorld", net=net)
        out.append(dict(w, stack=(4 if T else 3) if net in SMALL else (3 if T else 2 - (net in ("parallel", "nested", "residual"))), cost=200 - HEAVY.index(net) if net in HEAVY else 100))
        out.append(dict(w, stack=2, kind="tree", depth=3 if T else 2))
        out.append(dict(kind="backward", net=net))
    return out


class Gradients:
    """Autograd's own account of the gradients at modules: identity operations around them"""

    def __init__(self, live, paths):
        self.calls = {p: [] for p in paths}
        self.odd = set()
        for p in paths:
            live.members[p].register_forward_pre_hook(lambda m, a, p=p: self.pre(p, a))
            live.members[p].register_forward_hook(lambda m, a, r, p=p: self.post(p, r))

    def pre(self, p, a):
        c = {}
        self.calls[p].append(c)
        if len(a) != 1 or not torch.is_tensor(a[0]):
            self.odd.add(p)
            return None
        x = a[0].clone()
        c["given"] = x.requires_grad
        if x.requires_grad:
            x.register_hook(lambda g: c.__setitem__("in", g.clone()))
        return (x,)

    def post(self, p, r):
        c = self.calls[p][-1]
        if isinstance(r, (tuple, list)):
            self.odd.add(p)
        if not torch.is_tensor(r) or not r.requires_grad:
            return None
        r = r.clone()
        r.register_hook(lambda g: c.__setitem__("out", g.clone()))
        return r

    def expected(self, p):
        """What full backward hooks and pre-hooks are given, in any order"""
        b = [(c.get("in"), c["out"]) for c in self.calls[p] if "out" in c and ("in" in c or not c["given"])]
        return ordered(b), ordered([(c["out"],) for c in self.calls[p] if "out" in c])


def ordered(gs):
    return sorted(gs, key=lambda g: [None if t is None else t.flatten().tolist() for t in g[::-1]])


def backprop(live, sel, ctx):
    xs = [(live.inp((), sel) * (1 + 0.5 * i)).requires_grad_() for i in range(7 if sel == STEPM else 1)]
    with live.co.call_mode(ctx) if ctx else contextlib.nullcontext():
        ys = [live.m(x) for x in xs]
    ys = [y[0] if isinstance(y, tuple) else y for y in ys]
    loss = sum((y * data(tuple(y.shape), "g", i)).sum() for i, y in enumerate(ys[-2:]))
    loss.backward()
    return [p.grad for p in live.m.parameters()] + [x.grad for x in xs]


def run_backward(task, res):
    """Gradients, and the full backward hooks of all single members, all pairs and all members, in all selections"""
    w = ModeWorld(task)
    for mode, ctx, train in itertools.product(MODES, (None, *MODES), (False, True)):
        sel = ctx or mode
        hist = [[task["net"], mode, ctx, train]]

        def fresh():
            live = ModeLive(w)
            live.m.train(train)
            live.m.call_mode = mode
            return live

        try:
            grads = backprop(fresh(), sel, ctx)
            live = fresh()
            truth = Gradients(live, list(live.members))
            d = diff(backprop(live, sel, ctx), grads, "gradients with forward hooks")
        except Exception as e:  # noqa
            raise Violation(f"{caught(e)!r}", hist)
        if d:
            raise Violation(d, hist)
        paths = [p for p in live.members if p not in truth.odd]
        sets = [((p,), k) for p in paths for k in ("b", "p", "bp")] + [(q, "bp") for q in itertools.combinations(paths, 2)] + [(tuple(paths), "bp")]
        for who, kinds in sets:
            h = hist + [[list(p) for p in who], kinds]
            live = fresh()
            seen = {(k, p): [] for p in who for k in kinds}
            for p in who:
                if "b" in kinds:
                    live.members[p].register_full_backward_hook(lambda m, gi, go, p=p: seen["b", p].append((*gi, *go)))
                if "p" in kinds:
                    live.members[p].register_full_backward_pre_hook(lambda m, go, p=p: seen["p", p].append(tuple(go)))
            explore.tick()
            res.transitions += 1
            try:
                d = diff(backprop(live, sel, ctx), grads, "gradients with backward hooks")
            except Exception as e:  # noqa
                d = f"{caught(e)!r}"
            if d:
                raise Violation(d, h)
            for p in who:
                b, pre = truth.expected(p)
                for k, exp in (("b", b), ("p", pre)):
                    if k in kinds:
                        res.outputs += 1
                        d = diff([list(g) for g in ordered(seen[k, p])], [list(g) for g in exp], f"gradients given to backward hook {k} of {p}")
                        if d:
                            raise Violation(d, h)
            res.states += 1
            res.traces += 1
        res.sample = h


def run(task, res):
    return run_backward(task, res)
