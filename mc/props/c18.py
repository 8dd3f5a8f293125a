"""C18 No interference through shared memory (self oracle), and none between threads (scheduled at every line)"""
import os
import sys
import threading

import torch

from .. import env, explore, nets
from ..explore import Violation
from ..tensors import data, diff
from ..zoo import world, zoo

BOUNDS = {
    "quick": "73 modules and networks: all call histories of span + 2 (at most 8) frames over {step, chunk, flush, their look-aheads, "
    "forward} with every earlier input and output kept and re-examined after each call, or overwritten after it; unmerged histories of "
    "3 operations after a full window; batches of 3 against each sample alone; all interleavings of two instances (also copies made in "
    "mid-stream) of up to 8 calls; two threads with an instance each: all line-level schedules with 1 preemption of 3 calls (call-level for networks), and "
    "call-level schedules with 2 preemptions of 2 calls",
    "thorough": "one more frame, unmerged histories of 4 operations; 4 calls in both orders, line-level for networks",
}
ASSUMPTIONS = [
    "threads share no module and no tensor; co.call_mode contexts are entered before the threads start",
    "preemption inside torch operators is not explored",
]

THREADS = (
    "conv1d-k3s2p1 maxpool1d-d2 delay3 linear gru lstm2 rpe mha-single mha-retro te1 te2 seq-cnn res-p1 res-lagging br-inception par-wsum nested "
    "cond-true cond-false seq-rpe-te dispatch parallel"
).split()
QUICK = "linear gru lstm2 rpe delay3 conv1d-k3s2p1 maxpool1d-d2 mha-single mha-retro res-p1 seq-cnn cond-true".split()
THREADS2 = "conv1d-k3s2p1 maxpool1d-d2 delay3 gru rpe mha-single res-p1 cond-true".split()
ROOT = os.path.join(os.path.abspath(env.REPO), "continual") + os.sep


class Schedule:
    """Two threads of which one runs at a time. switches: [(thread, n), ...]: at its n-th point since it
    was resumed, the thread is preempted; when a thread ends the other one continues"""

    def __init__(self, programs, switches, events):
        self.switches = list(switches)
        self.events = events
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.count = 0
        self.points = [0, 0]
        self.out = [None, None]
        self.preempted = 0
        self.threads = [threading.Thread(target=self.body, args=(i, p), daemon=True) for i, p in enumerate(programs)]

    def body(self, i, program):
        self.go[i].acquire()
        sys.settrace(lambda f, e, a: self.trace(i, f, e))
        try:
            self.out[i] = ("ok", program())
        except BaseException as e:
            self.out[i] = ("raised", f"{type(e).__name__}: {str(e)[:200]}")
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.count = 0
            self.go[1 - i].release()

    def trace(self, i, frame, event):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        self.point(i, event)
        return lambda f, e, a: self.local(i, f, e)

    def local(self, i, frame, event):
        self.point(i, event)
        return lambda f, e, a: self.local(i, f, e)

    def point(self, i, event):
        if event not in self.events:
            return
        self.points[i] += 1
        self.count += 1
        if self.switches and self.switches[0] == (i, self.count) and not self.done[1 - i]:
            self.switches.pop(0)
            self.preempted += 1
            self.count = 0
            self.go[1 - i].release()
            self.go[i].acquire()

    def run(self, first):
        for t in self.threads:
            t.start()
        self.go[first].release()
        for t in self.threads:
            t.join(60)
            if t.is_alive():
                return False
        return True


def run(task, res):
    import continual as co

    e = task["entry"]
    node = nets.parse(e["tree"])
    sp = tuple(e.get("sp", ()))

    def frames(i, a, b):
        def one(C, k):
            v = data((2, C, 12, *sp), "x", i, k, dtype=torch.float32)
            return v[:, :, a:b].clone()

        if e.get("tdim", 2) != 2:
            v = data((2, 12, e["C"]), "x", i, dtype=torch.float32)[:, a:b].clone()
            return v.transpose(0, 1) if e["tdim"] == 0 else v
        if isinstance(e["C"], list):
            return [one(C, k) for k, C in enumerate(e["C"])]
        return one(e["C"], 0)

    def frame(i, t):
        x = frames(i, t, t + 1)
        if e.get("tdim", 2) != 2:
            return x[:, 0] if e["tdim"] == 1 else x[0]
        return [v[:, :, 0] for v in x] if isinstance(x, list) else x[:, :, 0]

    def program(i):
        m = nets.build(nets.parse(e["tree"]), torch.float32).eval()
        if task["ctx"] is None:
            m.call_mode = "forward_step"

        for t in range(task["warm"]):
            m.forward_step(frame(i, 8 + t % 4))

        def go():
            with torch.no_grad():
                # by calling: what runs depends on the contexts and attributes
                if task["calls"] == 2:
                    return [m(frame(i, 0)), m.forward_steps(frames(i, 1, 2))]
                out = [m(frame(i, t)) for t in range(task["calls"] - 2)]
                if not e.get("nofwd") and "'rpe" not in repr(e["tree"]):
                    out.append(m.forward(frames(i, 0, min(8, e.get("cmax", 8)))))
                out.append(m.forward_steps(frames(i, task["calls"] - 2, task["calls"])))
            return out

        return go

    def schedule(first, switches, events, expected, hist):
        explore.tick()
        s = Schedule([program(0), program(1)], switches, events)
        if not s.run(first):
            raise Violation("the threads do not terminate", hist)
        res.transitions += sum(s.points)
        res.traces += 1
        res.states += 1
        if expected is not None:
            for i in (0, 1):
                res.outputs += 1
                if s.out[i][0] != "ok" or expected[i][0] != "ok":
                    if s.out[i] != expected[i]:
                        raise Violation(f"thread {i}: {s.out[i][1] if s.out[i][0] != 'ok' else 'ok'}, expected {expected[i][0]}", hist)
                    continue
                d = diff(s.out[i][1], expected[i][1], f"outputs of thread {i}")
                if d:
                    raise Violation(d, hist)
        return s

    ctx = co.call_mode(task["ctx"]) if task["ctx"] else None
    if ctx:
        ctx.__enter__()
    try:
        base = schedule(0, [], ("line",), None, [])
        expected = base.out
        for i in (0, 1):
            if expected[i][0] != "ok":
                raise Violation(f"thread {i} alone {expected[i][1]}", [])
        again = schedule(1, [], ("line",), expected, [["order", 1, 0]])
        n = [base.points[0], base.points[1]]
        res.sample = [["line-level points per thread", n]]
        if not task["bound2"]:
            for first in task["first"]:
                k = 0
                while True:
                    k += 1
                    s = schedule(first, [(first, k)], (task["grain"],), expected, [["thread", first], [f"preempted at {task['grain']} event", k]])
                    if not s.preempted:
                        break
        else:
            for first in task["first"]:
                i = 0
                while True:
                    i += 1
                    j = 0
                    while True:
                        j += 1
                        s = schedule(first, [(first, i), (1 - first, j)], ("call",), expected, [["thread", first], ["preempted at call event", i], ["other at", j]])
                        if s.preempted < 2:
                            break
                    if s.preempted < 1:
                        break
    finally:
        if ctx:
            ctx.__exit__(None, None, None)


def tasks(tier):
    T = tier == "thorough"
    out = []
    for i, e in enumerate(zoo()):
        cmax = e.get("cmax", 99)
        span = e["span"]
        ft = [min(cmax, span + 2)]
        kw = dict(FT=ft, cj=[2], pj=[2], junk=1, epochs=1, pmax=2)
        n = span + 3 if T else min(span + 2, 8)
        e = dict(e, cmax=min(cmax, 3), cmin=2)
        alpha = ["S", "C", "P", "s", "c", "p", "F"]
        for mem in ("keep", "poison"):
            mw = dict(world="streams:MemWorld", mem=mem)
            out.append(world(e, alpha, N=n, tag=mem, **mw, **kw))
            out.append(world(e, ["S", "C", "s", "F"], N=30, tag=mem + "-tree", kind="tree", depth=4 if T else 3, prefix=[["S"]] * span, **mw, **kw))
            if not e["notrain"]:
                out.append(world(e, ["S", "C", "s", "F"], N=n, tag=mem + "-train", train=True, dtype="f32", **mw, **kw))
        if not e["notrain"]:
            out.append(world(e, ["S", "C", "s", "p", "F"], N=n, tag="batch", train=i % 2 == 0, **dict(kw, oracle="batch", B=3)))
        out.append(world(e, [], N=min(n, 5 if T else 3), tag="twins", world="streams:TwinWorld", streams=2, instances=2, epochs=2, Bs=[2, 1], js=[0, 2], clean=True))
        if "'nn'" not in repr(e["tree"]) and "'te'" not in repr(e["tree"]):
            out.append(world(e, [], N=min(n, 5), tag="copies", world="streams:TwinWorld", streams=2, instances=2, epochs=2, js=[0, 2], copy_at=min(2, span)))
    for name, e in ((e["name"], e) for e in zoo()):
        if name in THREADS:
            kw = dict(kind="threads", entry=e)
            kw = dict(kind="threads", entry=e, bound2=False, grain="line")
            big = e["net"] or name.startswith("te")
            for ctx in (None, "forward_step"):
                if T:
                    out.append(dict(kw, name=f"{name}/threads-{ctx}", ctx=ctx, calls=3 if big else 4, warm=0, first=[0, 1], cost=1500))
                elif name in QUICK and (ctx is None or not big):
                    out.append(dict(kw, name=f"{name}/threads-{ctx}", ctx=ctx, calls=3, warm=e["span"], first=[0], grain="call" if big else "line", cost=150))
            if name in THREADS2 and (T or not e["net"]):
                out.append(dict(kw, name=f"{name}/threads2", ctx=None, bound2=True, calls=2, warm=e["span"], first=[0], cost=1500))
    return out
