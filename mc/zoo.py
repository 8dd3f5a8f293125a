"""All module families and a range of composed networks, for the properties that are about every
module. Each entry: name, tree and world parameters; `span` ~ frames until all is in steady state."""
from .props.c01 import conv
from .props.c02 import adaptive, pool


def c1(k, s=1, p=0, **kw):
    return conv(1, k, s, p, **kw)


def z(name, tree, span, C=2, sp=(), **kw):
    return dict(name=name, tree=tree, span=span, C=C, sp=list(sp), **kw)


def mha(kind, n, E=4, heads=2, **kw):
    return ["mha", dict(kind=kind, E=E, heads=heads, n=n, **kw)]


def te(n, **kw):
    return ["te", dict(E=4, heads=2, n=n, **kw)]


def rnn(cls, **kw):
    return ["rnn", dict(cls=cls, cin=3, hid=2, **kw)]


BN = lambda c=2: ["nn", "BatchNorm1d", c]
RELU = ["nn", "ReLU"]


def modules():
    nopad = dict(pads=False)
    return [
        z("conv1d-k3", c1(3), 3),
        z("conv1d-k3s2p1", c1(3, 2, 1), 4),
        z("conv1d-k4s3p2r", c1(4, 3, 2, fill="replicate"), 6),
        z("conv1d-k5p2", c1(5, 1, 2), 5),
        z("conv1d-k1s2", c1(1, 2), 2),
        z("conv1d-k2p1r", c1(2, 1, 1, fill="replicate", pm="replicate", g=2), 3, C=2),
        z("conv1d-k1", c1(1), 1),
        z("conv1d-k2s4", c1(2, 4), 4),
        z("conv2d", conv(2, 3, 1, 1, ks=3, ps=1), 3, sp=[3]),
        z("conv2d-s", conv(2, 3, 2, 1, ks=2, ss=2, ds=2, bias=False, g=2), 4, sp=[4]),
        z("conv3d", conv(3, 2, 1, 0, ks=(3, 2), ps=(1, 0)), 2, sp=[3, 3]),
        z("avgpool1d", pool("Avg", 1, 3, 1), 3),
        z("avgpool1d-s2p1", pool("Avg", 1, 3, 2, 1), 4),
        z("avgpool1d-default", pool("Avg", 1, 2), 2),
        z("maxpool1d-p1", pool("Max", 1, 3, 1, 1), 3),
        z("maxpool1d-d2", pool("Max", 1, 3, 1, 0, 2), 5),
        z("maxpool1d-d3s2p1", pool("Max", 1, 2, 2, 1, 3), 5),
        z("maxpool2d", pool("Max", 2, 2, 1, 0, ks=2, ss=2), 2, sp=[4]),
        z("avgpool3d", pool("Avg", 3, 2, 3, 1, ks=2, ss=1), 4, sp=[2, 3]),
        z("adaptiveavg2d", adaptive("Avg", 2, 3, [1]), 3, sp=[4]),
        z("adaptivemax3d", adaptive("Max", 3, 3, [1, 2]), 3, sp=[2, 3]),
        z("delay3", ["delay", 3], 3),
        z("delay1r", ["delay", 1, "replicate"], 1),
        z("delay2-centered", ["delay", 2, "zeros", "centered"], 4),
        z("delay2-lagging", ["delay", 2, "zeros", "lagging"], 3),
        z("delay0", ["delay", 0], 1),
        z("skip3", ["skip", 3], 3),
        z("linear", ["linear", 2, 3], 1),
        z("linear-last", ["linear", 4, 3, dict(channel_dim=-1, bias=False)], 1, sp=[4]),
        z("add", ["fn", "add", 3], 1),
        z("mul", ["fn", "mul", -2], 1),
        z("lambda", ["fn", "lam"], 1),
        z("lambda-time", ["fn", "lamt"], 1),
        z("identity", ["fn", "id"], 1),
        z("batchnorm", BN(), 1, dtype="f64"),
        z("gelu", ["nn", "GELU"], 1),
        z("rnn2", rnn("RNN", layers=2), 2, C=3, **nopad),
        z("gru", rnn("GRU"), 2, C=3, **nopad),
        z("lstm2", rnn("LSTM", layers=2), 2, C=3, **nopad),
        z("rnn", rnn("RNN"), 2, C=3, **nopad),
        z("gru2", rnn("GRU", layers=2), 2, C=3, **nopad),
        z("lstm", rnn("LSTM"), 2, C=3, **nopad),
        z("rpe", ["rpe", dict(dim=3, n=4)], 4, C=3, cmax=4, **nopad),
        z("rpe-static", ["rpe", dict(dim=6, n=5, learned=False)], 5, C=6, cmax=5, **nopad),
        z("mha-single", mha("single", 3), 3, C=4, rtol=1e-7),
        z("mha-single-q0", mha("single", 4, q=0, ed2=False), 4, C=4, tdim=1, rtol=1e-7),
        z("mha-single-mid", mha("single", 4, q=-2, bias=False), 4, C=4, rtol=1e-7),
        z("mha-single-q1", mha("single", 3, q=1, ed2=False, batch_first=False), 3, C=4, tdim=0, rtol=1e-7),
        z("mha-retro", mha("retro", 3), 3, C=4, rtol=1e-7),
        z("mha-retro-bf", mha("retro", 4, ed2=False), 4, C=4, tdim=1, odim=1, rtol=1e-7),
        z("te1", te(3), 3, C=4, rtol=1e-7, **nopad),
        z("te2", te(3, layers=2, act="gelu", norm=True), 3, C=4, rtol=1e-7, **nopad),
    ]


def networks():
    return [
        z("seq-conv-conv", ["seq", c1(3, 1, 1), c1(3, 1, 1)], 5),
        z("seq-cnn", ["seq", c1(3, 2, 1), BN(), RELU, c1(2), pool("Max", 1, 2, 1)], 7),
        z("oseq-strided", ["oseq", ["a", c1(2, 2)], ["b", pool("Avg", 1, 2, 2)], ["c", c1(2)]], 10),
        z("res-p1", ["res", c1(3, 1, 1)], 3),
        z("res-shrink", ["res", c1(3), dict(shrink=True)], 3),
        z("res-lagging", ["res", c1(4), dict(shrink="lagging", op="mul")], 4),
        z("res-leading", ["res", c1(3), dict(shrink="leading")], 3),
        z("br-inception", ["br", "concat", c1(1), c1(3, 1, 1), ["seq", c1(1), c1(5, 1, 2)]], 5),
        z("br-strided", ["br", "sum", c1(3, 2, 1), ["seq", c1(1, 2), c1(1)]], 5),
        z("br-id-sum", ["br", "sum", ["fn", "id"], c1(1), ["fn", "mul", 2]], 1),
        z("br-id-mul", ["br", "mul", ["fn", "id"], c1(3, 1, 1), ["fn", "id"], c1(1)], 3),
        z("par-id-max", ["par", "max", ["fn", "id"], ["fn", "add", 1], ["fn", "id"]], 1),
        z("br-max", ["br", "max", c1(3, 1, 1), ["delay", 2], ["fn", "mul", 2]], 3),
        z("par-wsum", ["par", "wsum", c1(2), c1(4), ["fn", "id"]], 4, nofwd=True, pads=False),
        z("nested", ["seq", c1(2), ["res", ["seq", c1(3, 1, 1), RELU, ["br", "sum", c1(1), c1(3, 1, 1)]]], c1(2, 2)], 10),
        z("cond-true", ["cond", "yes", c1(3), c1(1)], 3),
        z("cond-false", ["cond", "no", c1(3), ["seq", c1(2), RELU]], 3),
        z("cond-none", ["seq", ["cond", "no", c1(1)], c1(2)], 3),
        z("seq-rnn", ["seq", c1(2, cout=3), rnn("GRU"), ["linear", 2, 2]], 4, **dict(pads=False)),
        z("seq-rpe-te", ["seq", ["rpe", dict(dim=4, n=5)], te(3)], 5, C=4, cmax=5, rtol=1e-7, pads=False),
        z("seq-mha", ["seq", c1(2, cin=4, cout=4), mha("single", 3)], 5, C=4, rtol=1e-7, pads=False),
        z("dispatch", ["seq", ["bcast", 2], ["parallel", c1(3, 1, 1), ["fn", "add", 1]], ["dispatch", [1, [0, 0]]], ["parallel", ["fn", "id"], ["reduce", "mul"]], ["reduce", "wsum"]], 4),
        z("parallel", ["parallel", c1(3), ["seq", c1(1), ["fn", "mul", 2]], c1(2, 1)], 4, C=[2, 2, 2], nofwd=True, pads=False),
        z("res-2d", ["seq", ["res", conv(2, 3, 1, 1, ks=3, ps=1)], ["nn", "BatchNorm2d", 2], pool("Avg", 2, 2, 1, 0, ks=2, ss=2)], 5, sp=[4]),
    ]


def zoo():
    out = modules() + networks()
    for i, e in enumerate(out):
        e["net"] = i >= len(modules())
        e.setdefault("pads", True)
        # batch statistics depend on the chunk by definition
        e.setdefault("notrain", "BatchNorm" in repr(e["tree"]))
        for k in ("te", "mha"):
            if f"'{k}'" in repr(e["tree"]):
                e.setdefault("rtol", 1e-7)
    return out


def world(e, alpha, **kw):
    """Task for a zoo entry, self oracle"""
    t = {k: v for k, v in e.items() if k not in ("span", "pads", "notrain", "net")}
    t["oracle"] = "self"
    t["alpha"] = [a for a in alpha if e["pads"] or a not in ("P", "p")]
    if "'rpe" in repr(e["tree"]) or e.get("nofwd"):
        # unpadded branches of different length; forward of the recycling encoding starts at the current position: see C14
        t["alpha"] = [a for a in t["alpha"] if a != "F"]
    t.setdefault("B", 2)
    t.setdefault("N", kw.pop("N", 2 * e["span"] + 3))
    t.update(kw)
    t["cost"] = e["span"] * len(repr(e["tree"]))
    t["name"] = e["name"] + "/" + kw.get("tag", "")
    return t
