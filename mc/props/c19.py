"""C19 An exported ONNX model streams like the module: two transition systems over the same state space, run in
lockstep from every phase of the stream"""
import contextlib
import io
import os
import sys

import torch

from .. import explore, nets, zoo
from ..explore import Violation
from ..tensors import data, diff
from ..zoo import BN, RELU, c1, conv, mha, pool, rnn, te, z

BOUNDS = {
    "quick": "63 modules and networks of temporal stride 1, and every nesting of Sequential and BroadcastReduce containers (also of a single member) "
    "around 2 and 3 (two levels) and 4 leaves (one level); exports from every phase of one period of the ring buffers, with batch "
    "sizes 1 and 2, default and given names, constant folding on and off, three opsets, eval and train mode; every export run from "
    "every start phase with batch sizes 2, 1 and 3 over two periods; all assignments of 6 consecutive steps to {module, graph}",
    "thorough": "start phases and horizon of three periods, assignments of 10 consecutive steps",
}
ASSUMPTIONS = [
    "temporal stride 1 and initialised states: a graph cannot return 'no output yet'",
    "modules whose _forward_step takes one tensor; Conditional with stateless branches is traced by the exporter and excluded",
    "float32 (the runtime has no float64 kernels for many operators)",
    "numbers are compared with the tolerance of float32",
]


def entries():
    zo = {e["name"]: e for e in zoo.zoo()}
    names = (
        "conv1d-k3 conv1d-k2p1r conv1d-k1 conv2d conv3d avgpool1d maxpool1d-p1 maxpool1d-d2 maxpool2d "
        "adaptiveavg2d delay3 delay1r delay2-centered delay2-lagging delay0 linear linear-last add mul lambda identity rnn2 gru lstm2 rpe "
        "rpe-static te1 te2 seq-conv-conv res-p1 res-shrink res-lagging res-leading br-inception br-max seq-rpe-te res-2d dispatch seq-rnn"
    ).split()
    out = [zo[n] for n in names]
    out += [
        z("conv1d-k4p2", c1(4, 1, 2, cout=4, g=2), 4),
        z("conv2d-k2-sp", conv(2, 2, 1, 0, ks=2, ss=2, ds=2, bias=False), 2, sp=[5]),
        z("bn2d", ["seq", ["nn", "BatchNorm2d", 2], c1k2d(2)], 2, sp=[4]),
        z("delay-bn", ["seq", ["delay", 2], BN(), RELU], 2),
        z("conv-bn", ["seq", c1(2), BN(), RELU], 2),
        z("conv-max", ["seq", conv(2, 3, 1, 1, ks=3, ps=1), pool("Max", 2, 2, 1, 0, ks=2, ss=2)], 4, sp=[4]),
        z("avg3d", pool("Avg", 3, 2, 1, 0, ks=2), 2, sp=[4, 4]),
        z("max3d", pool("Max", 3, 3, 1, 1, ks=2), 3, sp=[4, 3]),
        z("adaptivemax2d", zoo.adaptive("Max", 2, 2, [1]), 2, sp=[4]),
        z("rnn-relu", rnn("RNN", nonlinearity="relu"), 2, C=3),
        z("gru2", rnn("GRU", layers=2, bias=False), 2, C=3),
        z("lstm", rnn("LSTM"), 2, C=3),
        z("res-res", ["seq", ["res", c1(3, 1, 1)], ["res", ["seq", c1(3, 1, 1), RELU]]], 5),
        z("nested-br", ["seq", c1(2), ["br", "sum", ["seq", c1(1), c1(3, 1, 1)], ["res", c1(3, 1, 1)], ["fn", "mul", 2]]], 5),
        z("br-concat-rnn", ["seq", ["br", "concat", c1(1), ["delay", 1]], c1(2, cin=4)], 3),
        z("rnn-conv", ["seq", rnn("GRU"), c1(3, cin=2)], 4, C=3),
        z("conv-lstm-res", ["seq", c1(2, cin=3, cout=3), rnn("LSTM"), ["res", c1(3, 1, 1)]], 5, C=3),
        z("tel-retro", ["tel", "retro", 4, 2, 3], 3, C=4),
        z("tel-single", ["tel", "single", 4, 2, 3], 3, C=4),
        z("te1-n4", te(4, norm=True), 4, C=4),
        z("te2-n2", te(2, layers=2), 3, C=4),
        z("conv-te", ["seq", c1(2, cin=3, cout=4), te(3), ["linear", 4, 2]], 5, C=3),
        z("drop", ["seq", c1(2), ["nn", "Dropout", 0.5], BN()], 2),
        z("wsum", ["br", "wsum", c1(2), ["seq", c1(1), c1(2)]], 3),
    ]
    return out


def forests(n, depth):
    """All sequences of nested containers with n leaves, also containers of a single member"""
    if n == 0:
        return [[]]
    out = []
    for m in range(1, n + 1):
        heads = [["leaf"]] if m == 1 else []
        if depth:
            heads += [["box", *f] for f in forests(m, depth - 1)]
        out += [[h, *r] for h in heads for r in forests(n - m, depth)]
    return out


def nestings(deep):
    """Networks that differ in how their stateful members are nested"""
    A = [c1(2), ["delay", 1], RELU, c1(3, 1, 1)]
    B = [["delay", 2], RELU, c1(2), ["rpe", 2, 3, True]]

    def fill(node, leaves, br, top=False):
        if node[0] == "leaf":
            return leaves.pop(0)
        kids = [fill(k, leaves, br) for k in node[1:]]
        return ["br", "sum", *kids] if br and not top and len(kids) > 1 else ["seq", *kids]

    out = []
    for n, depth in ((2, 2), (3, 2), (4, 1)) if not deep else ((2, 3), (3, 2), (4, 2)):
        for leaves in (A, B) if deep or n < 4 else (A,):
            for f in forests(n, depth):
                for br in (False, True):
                    t = fill(["box", *f], list(leaves), br, top=True)
                    if br and '"br"' not in repr(t).replace("'", '"'):
                        continue
                    out.append(t)
    return out


def c1k2d(k):
    return conv(2, k, 1, 0, ks=1)


def flat(s):
    if s is None:
        return []
    if isinstance(s, (list, tuple)):
        return [x for i in s for x in flat(i)]
    return [s]


def clone(s):
    if s is None:
        return None
    if isinstance(s, (list, tuple)):
        vals = [clone(i) for i in s]
        return type(s)(*vals) if hasattr(s, "_fields") else type(s)(vals)
    return s.clone()


def restate(s, vals):
    """State of the same structure with other tensors (vals is consumed)"""
    if s is None:
        return None
    if isinstance(s, (list, tuple)):
        v = [restate(i, vals) for i in s]
        return type(s)(*v) if hasattr(s, "_fields") else type(s)(v)
    return vals.pop(0).clone()


@contextlib.contextmanager
def quiet():
    """The exporter writes to the file descriptors"""
    sys.stdout.flush()
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        yield


class Exported:
    def __init__(self, e, period):
        self.e = e
        self.node = nets.parse(e["tree"])
        self.sp = tuple(e.get("sp", ()))
        self.span = e["span"]
        self.period = period
        self.ref = {}  # batch -> (frames, outputs, states)

    def fresh(self):
        m = nets.build(nets.parse(self.e["tree"]), torch.float32).eval()
        m.call_mode = "forward_step"
        return m

    def stream(self, B, L):
        """Functional stepping and the stateful steps of another instance; states[t] is the state before frame t"""
        if B in self.ref:
            return self.ref[B]
        x = data((B, self.e["C"], L, *self.sp), "x", B, dtype=torch.float32)
        m, other = self.fresh(), self.fresh()
        st, states, outs = None, [], []
        for t in range(L):
            explore.tick()
            states.append(clone(st))
            o, st = m._forward_step(x[:, :, t], clone(st))
            o2 = other.forward_step(x[:, :, t])
            o = None if not isinstance(o, torch.Tensor) else o
            o2 = None if not isinstance(o2, torch.Tensor) else o2
            d = diff(o, o2, f"_forward_step against forward_step at step {t}")
            if d:
                raise Violation(d, [["B", B], ["step", t]])
            outs.append(o)
        if any(o is None for o in outs[self.span :]):
            raise Violation(f"no outputs after {self.span} steps: {[i for i, o in enumerate(outs) if o is None]}", [["B", B]])
        self.ref[B] = (x, outs, states)
        return self.ref[B]

    def export(self, m, x, st, **kw):
        import continual as co
        import onnxruntime as ort

        f = io.BytesIO()
        st = [v.clone() for v in flat(st)]
        with quiet():
            co.onnx.export(m, (x.clone(), *st) if st else x.clone(), f, **kw)
        o = ort.SessionOptions()
        o.intra_op_num_threads = o.inter_op_num_threads = 1
        o.log_severity_level = 4
        return ort.InferenceSession(f.getvalue(), o)


def step(sess, names, x, st):
    """names: (input, state inputs). Returns outputs"""
    have = {i.name for i in sess.get_inputs()}
    ins = {k: v.numpy() for k, v in zip(names, [x, *st]) if k in have}
    try:
        outs = sess.run(None, ins)
    except Exception as err:
        raise Violation(f"the exported model cannot be run: {type(err).__name__}: {str(err)[:300]}", [[k, str(list(v.shape))] for k, v in ins.items()])
    for info, v in [*zip(sess.get_outputs(), outs), *[(i, ins[i.name]) for i in sess.get_inputs()]]:
        for a, b in zip(info.shape or [], v.shape, strict=True) if info.shape is not None else ():
            if isinstance(a, int) and a != b:
                raise Violation(f"{info.name} is declared as {info.shape} and has shape {list(v.shape)}", [[k, str(list(v.shape))] for k, v in ins.items()])
    return [torch.tensor(v) for v in outs]


def names_of(n, given):
    i, o = given or ("input", "output")
    return [i] + [f"s{k}" for k in range(n)], [o] + [f"ns{k}" for k in range(n)]


def check_signature(sess, names, n, x, st, y, hist):
    ins, outs = names
    got_in, got_out = [i.name for i in sess.get_inputs()], [o.name for o in sess.get_outputs()]
    # the exporter may drop inputs that are not used
    if [k for k in ins if k in got_in] != got_in or got_in[0] != ins[0] or got_out != outs:
        raise Violation(f"graph of inputs {got_in} and outputs {got_out}, expected {ins} and {outs}", hist)
    for meta, v, w in zip(sess.get_inputs(), [x[0], *[a for a, k in zip(st[0], ins[1:]) if k in got_in]], [x[1], *[a for a, k in zip(st[1], ins[1:]) if k in got_in]]):
        for s, a, b in zip(meta.shape, v.shape, w.shape):
            # a and b: sizes for batch sizes 2 and 3
            if a == b and s != a or a != b and s != "batch":
                raise Violation(f"graph input {meta.name} has shape {meta.shape}, frames of batch size 2 and 3 have {tuple(v.shape)} and {tuple(w.shape)}", hist)
    meta = sess.get_outputs()[0]
    for s, a, b in zip(meta.shape, y[0].shape, y[1].shape):
        if isinstance(s, int) and not a == b == s or a != b and s != "batch":
            raise Violation(f"graph output {meta.name} has shape {meta.shape}, outputs of batch size 2 and 3 have {tuple(y[0].shape)} and {tuple(y[1].shape)}", hist)


def run(task, res):
    if "trees" in task:
        return run_nesting(task, res)
    e = task["entry"]
    span, period = e["span"], max(e["span"] + 1, 2)
    L = task["L"]
    w = Exported(e, period)
    res.sample = [["stream of", L], ["exports", len(task["exports"])]]
    with torch.no_grad():
        for B in (2, 1, 3):
            w.stream(B, L)
        starts = range(span, L - 1)
        n = len(flat(w.ref[2][2][span]))
        for ex in task["exports"]:
            explore.tick()
            hist = [["export", ex]]
            B, at = ex["B"], ex["at"]
            x, outs, states = w.ref[B]
            m = w.fresh()
            if ex.get("train"):
                m.train()
            for t in range(0 if ex.get("train") else at):
                m(x[:, :, t])
            before = ({k: v.clone() for k, v in m.state_dict().items()}, [k.training for k in m.modules()])
            kw = dict(ex.get("kw", {}))
            given = ex.get("names")
            if given:
                kw.update(input_names=[given[0]], output_names=[given[1]])
            try:
                sess = w.export(m, x[:, :, at], states[at], **kw)
            except Exception as err:
                raise Violation(f"export raised {type(err).__name__}: {str(err)[:300]}", hist)
            res.states += 1
            res.transitions += 1
            after = ({k: v.clone() for k, v in m.state_dict().items()}, [k.training for k in m.modules()])
            if before[1] != after[1] or list(before[0]) != list(after[0]) or any(not torch.equal(v, after[0][k]) for k, v in before[0].items()):
                raise Violation(f"exporting changes the module (training modes {before[1]} to {after[1]})", hist)
            if not ex.get("train"):
                for t in range(at, L):
                    d = diff(m(x[:, :, t]), outs[t], f"output of the module itself, exported before step {at}, at step {t}")
                    if d:
                        raise Violation(d, hist)
            names = names_of(n, given)
            s2, s3 = flat(w.ref[2][2][at]), flat(w.ref[3][2][at])
            check_signature(sess, names, n, (w.ref[2][0][:, :, 0], w.ref[3][0][:, :, 0]), (s2, s3), (w.ref[2][1][-1], w.ref[3][1][-1]), hist)
            # lockstep, from every phase
            for B2 in ex["run"]:
                x, outs, states = w.ref[B2]
                for s in starts if ex.get("all") else [starts[0]]:
                    st = flat(states[s])
                    end = min(L, s + task["horizon"])
                    for t in range(s, end):
                        explore.tick()
                        h = hist + [["B", B2], ["from", s], ["step", t]]
                        o, *st = step(sess, names[0], x[:, :, t], st)
                        res.transitions += 1
                        res.outputs += 1
                        d = diff(o, outs[t], f"output of the exported model at step {t} (from {s})")
                        if d:
                            raise Violation(d, h)
                        if t + 1 < L:
                            want = flat(states[t + 1])
                            if len(st) != len(want):
                                raise Violation(f"{len(st)} state outputs, the module has {len(want)}", h)
                            for k, (a, b) in enumerate(zip(st, want)):
                                d = diff(a, b, f"state output {k} at step {t}")
                                if d:
                                    raise Violation(d, h)
                    res.states += end - s
                    res.traces += 1
            # the module and the graph take turns on the same state
            if ex.get("turns"):
                x, outs, states = w.ref[2]
                K = ex["turns"]
                s = starts[0]
                m.eval()
                frontier = [((), states[s])]
                for i in range(K):
                    nxt = []
                    for who, st in frontier:
                        for a in ("module", "graph"):
                            explore.tick()
                            xi = x[:, :, s + i]
                            if a == "module":
                                o, st2 = m._forward_step(xi, clone(st))
                            else:
                                o, *v = step(sess, names[0], xi, flat(st))
                                st2 = restate(st, v)
                            res.transitions += 1
                            res.outputs += 1
                            d = diff(o, outs[s + i], f"output at step {i}")
                            if d:
                                raise Violation(d, hist + [[k] for k in who] + [[a]])
                            nxt.append(((*who, a), st2))
                    frontier = nxt
                res.states += len(frontier)
                res.traces += len(frontier)


def tasks(tier):
    out = []
    deep = tier == "thorough"
    for e in entries():
        span = e["span"]
        period = max(span + 1, 2)
        L = span + (3 if deep else 2) * period + 2
        L = max(L, span + (12 if deep else 8))
        ex = []
        for i, at in enumerate(range(span, span + period)):
            ex.append(dict(B=2, at=at, run=[2, 1, 3], all=(i == 0 or deep), names=["input", "output"], kw=dict(opset_version=14)))
        ex[0]["turns"] = 10 if deep else 6
        ex.append(dict(B=1, at=span, run=[3, 1], all=True, kw=dict(opset_version=14)))
        ex.append(dict(B=3, at=span + 1, run=[1, 2], names=["frame", "prediction"], kw=dict(opset_version=16, do_constant_folding=False)))
        ex.append(dict(B=2, at=span, run=[2], kw={}))
        if "rnn" not in repr(e["tree"]):
            ex.append(dict(B=2, at=span + 1, train=True, run=[3], names=["x", "y"], kw=dict(opset_version=14)))
        out.append(dict(kind="onnx", name=e["name"], entry=e, L=L, horizon=L if deep else 2 * period + 1, exports=ex, cost=span * len(repr(e["tree"]))))
    trees = nestings(deep)
    for i in range(0, len(trees), 6):
        out.append(dict(kind="nesting", name=f"nestings {i}-{min(i + 6, len(trees)) - 1}", trees=trees[i : i + 6], cost=100))
    return out


def run_nesting(task, res):
    for tree in task["trees"]:
        e = dict(tree=tree, C=2)
        e["span"] = nets.parse(tree).delay() + 1
        run(dict(entry=e, L=e["span"] + 6, horizon=6, exports=[dict(B=2, at=e["span"], run=[2], names=["input", "output"], kw=dict(opset_version=14), turns=2)]), res)
    res.sample = [["trees", task["trees"][:2]]]
