"""C25 An edited Sequential is the network of its members (reference: one stream per member, and a directly built network)

All histories of edits and calls; the reference keeps, for every member, the frames it has received since it was built or
cleaned, and the names of the members in a torch.nn.Sequential of placeholders which is edited in the same way.
"""
import itertools
from collections import OrderedDict

import torch
from torch import nn

from ..explore import Violation, caught, tick
from ..nets import build, parse
from ..tensors import copy_state, data, diff
from .c01 import conv
from .c02 import pool

BOUNDS = {
    "quick": "7 networks to start from (empty, one member, several, named, nested, with a residual); all histories of 2 edits out of append, "
    "extend, add_module, +=, insert, item assignment, deletion of items and slices, pop, slicing, and edits of a nested member, with "
    "13 members (continual, torch.nn and functions), all positions, with a step or a chunk before them or a step between them; after every "
    "edit sequence: 3 frames as steps or chunk, forward, attributes, names, a copy of the state in a directly built network, cleaning, another stream",
    "thorough": "all histories of 3 edits",
}
ASSUMPTIONS = [
    "members given to insert and item assignment are continual modules (only append, extend, add_module and += convert)",
    "insert on networks with numbered members, append where the number of members is not yet the name of one (torch.nn.Sequential overwrites members otherwise)",
    "no member occurs twice; Parallel and BroadcastReduce are not edited",
]
DT = torch.float64


def c(k, s=1, p=0):
    return conv(1, k, s, p)


# name -> (tree, how the module is given)
MEMBERS = {
    "c2": (c(2), "co"),
    "c3p": (c(3, 1, 1), "co"),
    "c1s2": (c(1, 2), "co"),
    "d1": (["delay", 1], "co"),
    "mp": (pool("Max", 1, 2, 1), "co"),
    "add": (["fn", "add", 3], "co"),
    "res": (["res", c(3, 1, 1)], "co"),
    "seq": (["seq", c(2), ["fn", "mul", -2]], "co"),
    "corelu": (["nn", "ReLU"], "co"),
    "relu": (["nn", "ReLU"], "nn"),
    "nnconv": (c(2), "nn"),
    "nnseq": (["seq", c(2), ["nn", "ReLU"]], "nn"),
    "fun": (["nn", "Tanh"], "fun"),
}
STARTS = [
    [], ["c2"], ["c2", "relu"], ["c3p", "c1s2", "d1"], ["seq", "c2"], ["res", "add", "mp"],
]


def a_function(x):
    return torch.tanh(x)


class Leaf:
    def __init__(self, node):
        self.node, self.feeds = node, []

    def push(self, x):
        self.feeds.append(x)
        n = len(self.feeds) - 1
        return [y for t, y in self.node.stream(self.feeds) if t == n]

    def forward(self, xs):
        return self.node.forward(xs)

    def clean(self):
        self.feeds = []


class Chain:
    def __init__(self, kids, uids):
        self.kids, self.uids = kids, uids

    def push(self, x):
        return self.through([x])

    def through(self, xs):
        for k in self.kids:
            xs = [y for x in xs for y in k.push(x)]
        return xs

    def forward(self, xs):
        for k in self.kids:
            xs = k.forward(xs)
        return xs

    def clean(self):
        for k in self.kids:
            k.clean()


def member(name, uid, direct=False):
    """-> module as given to the network, reference. The weights depend on uid only; direct: a continual module"""
    import continual as co

    tree, how = MEMBERS[name]
    if tree[0] == "seq":
        parts = [leaf(t, "nn" if how == "nn" and not direct else "co", f"{uid}.{i}") for i, t in enumerate(tree[1:])]
        m = (nn.Sequential if how == "nn" and not direct else co.Sequential)(*[p[0] for p in parts])
        ref = Chain([p[1] for p in parts], [(t, f"{uid}.{i}") for i, t in enumerate(tree[1:])])
        return m, ref
    return leaf(tree, "co" if direct and how == "nn" else how, uid)


def leaf(tree, how, uid):
    node = parse(tree)
    m = build(node, DT, False, tag=str(uid))
    node.bind(m)
    ref = Leaf(node)
    if how == "fun":
        return a_function, ref
    if how == "nn":
        if tree[0] == "nn":
            m = getattr(nn, tree[1])()
        else:
            a = tree[2]
            plain = nn.Conv1d(a["cin"], a["cout"], a["k"]).to(DT)
            plain.load_state_dict(m.state_dict())
            m = plain
    return m, ref


def full(ref):
    """No empty network in it (the attributes of which are not defined)"""
    return not isinstance(ref, Chain) or bool(ref.kids) and all(full(k) for k in ref.kids)


def shadow(ref):
    return nn.Sequential(*[shadow(k) for k in ref.kids]) if isinstance(ref, Chain) else nn.Identity()


class Run:
    def __init__(self, start, named):
        import continual as co

        self.n = self.t = 0
        self.names_ok = True
        ms, refs, uids = [], [], []
        for x in start:
            m, r, u = self.new(x)
            ms.append(m)
            refs.append(r)
            uids.append(u)
        if named:
            names = [f"m{i}" for i in range(len(ms))]
            self.net = co.Sequential(OrderedDict(zip(names, ms)))
            self.sh = nn.Sequential(OrderedDict(zip(names, [shadow(r) for r in refs])))
        else:
            self.net = co.Sequential(*ms)
            self.sh = nn.Sequential(*[shadow(r) for r in refs])
        self.ref = Chain(refs, uids)

    def new(self, name):
        self.n += 1
        m, r = member(name, self.n)
        return m, r, (name, self.n)

    def x(self):
        self.t += 1
        return data((2, 2), "x", self.t, dtype=DT)

    def edit(self, op):
        net, sh, ref = self.net, self.sh, self.ref
        if op[0] == "in":
            net, sh, ref = net[op[1]], sh[op[1]], ref.kids[op[1]]
            op = op[2]
        k = op[0]
        kids, uids = ref.kids, ref.uids
        if k in ("append", "extend", "add", "iadd"):
            new = [self.new(n) for n in op[-1]]
            ms, rs, us = [n[0] for n in new], [n[1] for n in new], [n[2] for n in new]
            ss = [shadow(r) for r in rs]
            if k == "append":
                self.same(net.append(ms[0]), net)
                sh.append(ss[0])
            elif k == "extend":
                self.same(net.extend(ms), net)
                sh.extend(ss)
            elif k == "add":
                names = list(sh._modules)
                net.add_module(op[1], ms[0])
                sh.add_module(op[1], ss[0])
                if op[1] in names:
                    i = names.index(op[1])
                    kids[i], uids[i] = rs[0], us[0]
                    return
            else:
                import continual as co

                before = net
                net += co.Sequential(*ms)
                self.same(net, before)
                sh += nn.Sequential(*ss)
            kids += rs
            uids += us
        elif k in ("insert", "set"):
            m, r, u = self.new(op[2])
            if k == "insert":
                self.same(net.insert(op[1], m), net)
                sh.insert(op[1], shadow(r))
                kids.insert(op[1], r)
                uids.insert(op[1], u)
            else:
                net[op[1]] = m
                sh[op[1]] = shadow(r)
                kids[op[1]], uids[op[1]] = r, u
            at = op[1] + len(kids) - 1 if k == "insert" and op[1] < 0 else op[1]
            self.same(net[at], m)
        elif k in ("del", "pop"):
            i = slice(*op[1]) if isinstance(op[1], list) else op[1]
            if k == "del":
                del net[i]
            else:
                was = net[i]
                self.same(net.pop(i), was)
            del sh[i], kids[i], uids[i]
        elif k == "slice":
            i = slice(*op[1])
            self.net, self.sh = net[i], sh[i]
            self.ref = Chain(kids[i], uids[i])
        else:
            raise KeyError(k)

    def same(self, a, b):
        if a is not b:
            raise Violation("the result of the edit is not the expected module", [])

    def play(self, op):
        """Calls; returns observed and expected"""
        net, k = self.net, op[0]
        if k == "S":
            x = self.x()
            y = net.forward_step(x.clone())
            e = self.ref.push(x)
            return y, e[0] if e else None
        if k == "m":  # through __call__
            x = self.x()
            net.call_mode = "forward_step"
            y = net(x.clone())
            e = self.ref.push(x)
            return y, e[0] if e else None
        if k == "C":
            xs = [self.x() for _ in range(op[1])]
            y = net.forward_steps(torch.stack(xs, 2))
            e = self.ref.through(xs)
            return y, torch.stack(e, 2) if e else None
        if k == "F":
            xs = [self.x() for _ in range(op[1])]
            e = self.ref.forward(xs)
            return net.forward(torch.stack(xs, 2)), torch.stack(e, 2)
        if k == "K":
            net.clean_state()
            self.ref.clean()
            return None, None
        raise KeyError(k)

    def direct(self):
        """A network built from the current members (with initial state)"""
        import continual as co

        def fresh(u):
            return (leaf(u[0], "co", u[1]) if isinstance(u[0], list) else member(*u, direct=True))[0]

        def make(ref, sh):
            ms = [make(r, s) if isinstance(r, Chain) else fresh(u) for r, s, u in zip(ref.kids, sh, ref.uids, strict=True)]
            return co.Sequential(OrderedDict(zip(sh._modules, [co.continual(m) if not isinstance(m, nn.Module) else m for m in ms])))

        return make(self.ref, self.sh)

    def look(self):
        """Names, attributes and the state, against a directly built network"""
        net = self.net
        if len(net) != len(self.ref.kids):
            return f"{len(net)} members, expected {len(self.ref.kids)}"
        if list(net._modules) != list(self.sh._modules):
            return f"names {list(net._modules)}, expected {list(self.sh._modules)}"
        if not all(full(k) for k in self.ref.kids):
            return None
        d = self.direct()
        if list(net.state_dict()) != list(d.state_dict()):
            return f"state dict {list(net.state_dict())}, expected {list(d.state_dict())}"
        for k, v in d.state_dict().items():
            if not torch.equal(v, net.state_dict()[k]):
                return f"state dict: {k} differs"
        for a in ("receptive_field", "stride", "padding", "delay", "total_delay") if full(self.ref) else ():
            x, y = getattr(net, a, None), getattr(d, a, None)
            if x != y:
                return f"{a} {x}, of a directly built network {y}"
        return None

    def move(self):
        """Continue with a directly built network which takes over the state"""
        if not all(full(k) for k in self.ref.kids):
            return
        d = self.direct()
        s = copy_state(self.net.get_state())
        if s is not None:
            d.set_state(s)
        self.net = d


def edits(ref, sh, full, nested=True):
    """All edits of a network"""
    n = len(ref.kids)
    out = [["append", [x]] for x in (MEMBERS if full else ["c2", "relu"])]
    out += [["extend", x] for x in ([["nnconv", "add"], ["fun", "c2"], []] if full else [["nnconv", "fun"]])]
    out += [["iadd", x] for x in ([["mp", "relu"], ["seq"]] if full else [["mp", "relu"]])]
    names = list(sh._modules)
    out += [["add", "z", [x]] for x in (["nnseq", "d1"] if full else ["nnconv"])]
    out += [["add", m, [x]] for m in (names if full else names[:1]) for x in ["nnconv"]]
    if names == [str(i) for i in range(n)]:
        out += [["insert", i, x] for i in (range(-n, n + 1) if full else range(n + 1)) for x in (["c2", "corelu"] if full else ["c2"])]
    out += [["set", i, x] for i in (range(-n, n) if full else range(n)) for x in (["d1", "seq"] if full else ["d1"])]
    out += [["del", i] for i in (range(-n, n) if full else range(n))]
    if n > 1:
        out += [["del", [1, None]]]
        out += [["slice", [a, b]] for a in range(n) for b in range(a + 1, n + 1) if b - a < n or full] if nested else []
    if n:
        out += [["pop", -1]]
    if nested:
        for j, r in enumerate(ref.kids):
            if isinstance(r, Chain):
                out += [["in", j, e] for e in edits(r, sh[j], False, False)]

    def taken(e):  # also torch.nn.Sequential gives a new member the number of members as its name
        k = len(e[-1]) if e[0] in ("append", "extend", "iadd") else 0
        return any(str(n + i) in names for i in range(k))

    return [e for e in out if not taken(e)]


PARTS = 12
CALLS = [[], [["S"]], [["C", 2]]]
PROBE = [
    [["S"], ["m"], ["C", 2]],
    [["C", 3], ["m"]],
]


def tasks(tier):
    T = tier == "thorough"
    out = []
    for i, s in enumerate(STARTS):
        for named in (False, True) if len(s) > 1 else (False,):
            if named and not T and i % 2:
                continue
            for a in range(PARTS):
                out.append(dict(kind="edit", start=s, named=named, part=a, depth=3 if T else 2, cost=100 + 10 * len(s)))
    return out


def run(task, res):
    r = _go(task, [], res)
    for e in edits(r.ref, r.sh, True)[task["part"] :: PARTS]:
        for gap in CALLS:
            _edits(task, res, [*gap, e], task["depth"] - 1)


def _go(task, hist, res):
    tick()
    done = []
    try:
        with torch.no_grad():
            r = Run(task["start"], task["named"])
            for op in hist:
                done.append(op)
                if op[0] in ("S", "C", "F", "K", "m"):
                    y, e = r.play(op)
                    res.transitions += 1
                    d = diff(y, e, str(op))
                    if d:
                        raise Violation(d, done)
                    res.outputs += y is not None
                    res.placeholders += y is None
                elif op[0] == "look":
                    d = r.look()
                    if d:
                        raise Violation(d, done)
                elif op[0] == "move":
                    r.move()
                else:
                    r.edit(op)
                    res.transitions += 1
            return r
    except Violation as v:
        raise Violation(v.message, list(done)) from v
    except Exception as e:  # noqa
        raise Violation(f"{caught(e)!r}", list(done)) from e


def _edits(task, res, hist, left):
    r = _go(task, hist, res)
    res.states += 1
    if left:
        for e in edits(r.ref, r.sh, False):
            gap = CALLS[0 if hist[0][0] in "SC" else 1]  # calls before the first edit or between the two
            _edits(task, res, [*hist, *gap, e], left - 1)
    # the network as it is now
    T = 12
    n = res.states
    p, q = PROBE[n % 2], PROBE[(n + 1) % 2]
    middle = [["move"]] if n % 3 == 0 else []
    _go(task, [*hist, ["look"], *p, *middle, ["F", T], *q, ["look"], ["K"], *p, ["F", T + 1]], res)
    res.traces += 1
