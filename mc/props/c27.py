"""C27 A stream of any length takes bounded memory and bounded work per frame (self oracle: the first windows of a fresh module)

Memory: bytes of the storages of all tensors a module holds (so a small view of a large chunk counts as the chunk), and
entries of its containers; process-wide in long streams. Work: elements of the operands and results of all operations executed by a call.
"""
import gc

import torch
from torch.utils._python_dispatch import TorchDispatchMode

from ..explore import Live, Violation, World, tick
from ..nets import build, parse
from ..tensors import init_weights
from ..zoo import world, zoo

BOUNDS = {
    "quick": "76 modules and networks; all histories of 2 * span + 3 (networks: span + 4) frames over {step, chunk of 1-3, flush, look-ahead, forward, clean}, "
    "states merged by everything the module holds: memory after and work of every call; streams of 30 windows (at least 100 frames) in 4 cuts; "
    "process-wide memory between and after; attention over windows of 8, 16, 32 and dimensions 4, 8, 16",
    "thorough": "chunks of any size, streams of 100 windows",
}
ASSUMPTIONS = [
    "without recorded gradients (with them the graph of the stream is kept by design)",
    "memory and work are compared with those of steps and chunks within the first two windows on a fresh instance, not with absolute figures",
]


class Work(TorchDispatchMode):
    def __init__(self):
        super().__init__()
        self.n = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.n += 4  # also operations on few elements (and views) take time
        ins = {a.untyped_storage().data_ptr() for a in args if isinstance(a, torch.Tensor)} if func.is_view else ()
        for t in out if isinstance(out, (list, tuple)) else (out,):
            if isinstance(t, torch.Tensor) and not (ins and t.untyped_storage().data_ptr() in ins):
                self.n += t.numel()
        if not func.is_view:
            for a in args:
                self.n += sum(t.numel() for t in (a if isinstance(a, (list, tuple)) else (a,)) if isinstance(t, torch.Tensor))
        return out


def held(module):
    """Bytes of distinct storages and number of container entries reachable from a module"""
    seen, bytes_, entries = set(), 0, 0
    stack = [v for m in module.modules() for k, v in m.__dict__.items() if k != "_modules"]  # (attributes themselves do not count)
    visited = set()
    while stack:
        x = stack.pop()
        if isinstance(x, torch.Tensor):
            s = x.untyped_storage()
            if s.data_ptr() not in seen:
                seen.add(s.data_ptr())
                bytes_ += s.nbytes()
        elif isinstance(x, (dict, list, tuple, set)):
            if id(x) in visited:
                continue
            visited.add(id(x))
            entries += len(x)
            stack += list(x.values()) if isinstance(x, dict) else list(x)
    return bytes_, entries


def measure(f):
    with Work() as w:
        y = f()
    return y, w.n


class MemWorld(World):
    def __init__(self, task):
        super().__init__(task)
        self.limits()

    def limits(self):
        """Memory and work of steps and chunks in the first windows"""
        t = self.task
        n = 2 * t["span"] + 3
        self.work = {}
        mem = []

        def note(kind, w):
            self.work[kind] = max(self.work.get(kind, 0), w)

        x = [self.get(("j", 0, i % 8)) for i in range(n + 8)]
        with torch.no_grad():
            m = self.build()
            mem.append(held(m))
            for i in range(n):
                if "s" in t["alpha"]:
                    note(("s",), measure(lambda: m.forward_step(x[i], update_state=False))[1])
                note(("S",), measure(lambda: m.forward_step(x[i]))[1])
                mem.append(held(m))
            for j in range(1, t["chunk"] + 1):
                for kind in [k for k in "CPcp" if k in t["alpha"]]:
                    for pre in range(n - j):
                        m = self.build()
                        for i in range(pre):
                            m.forward_step(x[i])
                        kw = dict(pad_end=kind in "Pp", update_state=kind in "CP")
                        note((kind, j), measure(lambda: m.forward_steps(self.clip(x[pre : pre + j]), **kw))[1])
                        mem.append((0, held(m)[1]))  # the bytes after a chunk may not exceed those of steps
            for T in t["FT"] if "F" in t["alpha"] else []:
                m = self.build()
                note(("F", T), measure(lambda: self.call_forward(m, self.clip(x[:T])))[1])
                mem.append((0, held(m)[1]))
                m.clean_state()
                mem.append((0, held(m)[1]))
        self.mem = tuple(max(v) for v in zip(*mem))

    def live(self):
        return MemLive(self)


class MemLive(Live):
    def call(self, method, x, **kw):
        y, n = measure(lambda: super(MemLive, self).call(method, x, **kw))
        op = self.hist[-1]
        kind = (op[0],) if op[0] in "Ss" else tuple(op[:2])
        top = self.w.work.get(kind)
        if top is not None and n > top * 1.02 + 64:
            raise Violation(f"{op}: work {n}, in the first windows at most {top}", list(self.hist))
        return y

    def apply(self, op):
        y = super().apply(op)
        self.check()
        return y

    def check(self):
        b, e = held(self.m)
        B, E = self.w.mem
        if b > B or e > E:
            raise Violation(f"{b} bytes in storages and {e} entries held, in the first windows at most {B} and {E}", list(self.hist))


def process(n):
    """Bytes of all tensors and number of objects known to the garbage collector, with the number of frames so far"""
    gc.collect()
    seen, total = set(), 0
    for o in gc.get_objects():
        if isinstance(o, torch.Tensor):
            try:
                s = o.untyped_storage()
            except Exception:  # noqa
                continue
            if s.data_ptr() not in seen:
                seen.add(s.data_ptr())
                total += s.nbytes()
    seen = o = s = None
    return total, len(gc.get_objects()), n


def tasks(tier):
    T = tier == "thorough"
    out = []
    for i, e in enumerate(zoo()):
        cmax = e.get("cmax", 99)
        chunk = min(cmax, 5 if T else 3)
        ft = [min(cmax, e.get("ft", e["span"] + 2))]
        n = 2 * e["span"] + 4 if T else e["span"] + 4 if e["net"] else 2 * e["span"] + 3
        kw = dict(world="props.c27:MemWorld", span=e["span"], chunk=chunk, FT=ft, cj=[min(2, chunk)], pj=[1], junk=1, pmax=2, epochs=2)
        out.append(world(dict(e, cmax=chunk), ["S", "C", "P", "s", "c", "p", "F", "K"], N=n, tag="merged", **dict(kw, epochs=1)))
        out.append(world(dict(e, cmax=2), ["S", "C", "K", "F"], N=min(n, 6), tag="epochs", **kw))
        W = world(e, ["S", "C", "P"], N=4, tag="long", **dict(kw, epochs=1))
        for cut in ("steps", "chunks", "mixed") + (("big",) if cmax == 99 else ()):
            out.append(dict(W, kind="long", cut=cut, frames=max(300 if T else 100, (100 if T else 30) * e["span"]), name=f"{e['name']}/long-{cut}"))
    for kind in ("single", "retro"):
        out.append(dict(kind="scale", mha=kind, name=f"scale-{kind}", cost=500))
    return out


def run(task, res):
    (run_long if task["kind"] == "long" else run_scale)(task, res)


def run_long(task, res):
    w = MemWorld(task)
    m = w.build()
    x = [w.get(("j", 0, i % 8)) for i in range(8)]
    big = task["cut"] == "big"
    chunk = 4 * task["span"] + 8 if big else task["chunk"]
    works = []
    if big:  # work of fresh chunks of one, two and three times the size: affine
        for i in (1, 2, 3):
            clip = w.clip([x[k % 8] for k in range(i * chunk)])
            works.append(measure(lambda: w.build().forward_steps(clip))[1])
        a, b = works[1] - works[0], works[2] - works[1]
        if b > 1.05 * a + 64:
            raise Violation(f"work of chunks of {chunk}, {2 * chunk} and {3 * chunk} frames: {works}", [["C", 3 * chunk]])
    marks = []
    n = k = 0
    hist = []
    N = task["frames"]
    with torch.no_grad():
        while n < N:
            tick()
            k += 1
            j = 0 if task["cut"] == "steps" else chunk if task["cut"] in ("chunks", "big") else (0, 1, chunk, 0, 2)[k % 5]
            j = min(j, chunk)
            if j:
                clip = w.clip([x[(n + i) % 8] for i in range(j)])
                y, c = measure(lambda: m.forward_steps(clip))
                top = works[0] * 1.5 if big else w.work[("C", j)]  # (a first chunk gives fewer outputs)
            else:
                frame = x[n % 8].clone() if isinstance(x[0], torch.Tensor) else x[n % 8]
                y, c = measure(lambda: m.forward_step(frame))
                top = w.work[("S",)]
            clip = frame = y = None
            n += j or 1
            hist = [["frames", n], ["cut", task["cut"]]]
            res.transitions += 1
            if c > top * 1.02 + 64:
                raise Violation(f"work {c}, in the first windows at most {top}", hist)
            b, e = held(m)
            if b > w.mem[0] or e > w.mem[1]:
                raise Violation(f"{b} bytes in storages and {e} entries held, in the first windows at most {w.mem}", hist)
            for part in (0.4, 0.7, 1):
                if n - (j or 1) < N * part <= n:  # (big chunks: some twice)
                    marks.append(process(n))
        (b0, k0, n0), (b1, k1, n1) = marks[0], marks[-1]
        if b1 > b0 + 1024 or k1 > k0 + 10 + (n1 - n0) / 8:  # (some of torch's own scalars may come and go)
            raise Violation(f"bytes in all tensors and objects known to the garbage collector after that many frames: {marks}", hist)
    res.states += n
    res.traces += 1


def run_scale(task, res):
    """Work of a step of attention: affine in the window, and its slope linear in the dimension"""
    f = {}
    for E in (4, 8, 16):
        for n in (8, 16, 32):
            m = build(parse(["mha", dict(kind=task["mha"], E=E, heads=2, n=n)]))
            init_weights(m)
            with torch.no_grad():
                for i in range(n + 2):
                    x = torch.randn(2, E, dtype=torch.float64, generator=torch.Generator().manual_seed(i))
                    _, f[E, n] = measure(lambda: m.forward_step(x))
                    res.transitions += 1
            res.states += 1
    for E in (4, 8, 16):
        a, b = f[E, 16] - f[E, 8], f[E, 32] - f[E, 16]
        if b > 2.2 * a + 64:
            raise Violation(f"work of a step with windows 8, 16, 32: {[f[E, n] for n in (8, 16, 32)]}", [["dimension", E]])
    a, b = f[8, 32] - f[8, 8], f[16, 32] - f[16, 8]
    if b > 2.2 * a + 64:
        raise Violation(f"work per token of the window with dimensions 8, 16: {a}, {b}", [["windows", 8, 32]])
    res.traces += 1
