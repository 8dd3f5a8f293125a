"""C12 A continual transformer encoder equals the regular encoder per window (reference: torch.nn per window)"""
import itertools

BOUNDS = {
    "quick": "encoders of 1-2 layers x sequence length 2-5 x 1-3 heads x {relu, gelu} x final norm x {direct, direct with callables, "
    "converted}; single layers of both attention kinds with every query position; all call histories over two windows of "
    "steps, chunks, look-aheads and forward; streams of 10 windows; positional encoding in front",
    "thorough": "the full product for sequence lengths 1-6, streams of 40 windows",
}
ASSUMPTIONS = [
    "no dropout (or evaluation mode)", "at most two layers (the library's middle layers are unimplemented)",
    "retroactive attention with sequence_len >= 2", "post-norm encoders",
    "single_output_forward with a non-negative query position: forward over sequence_len tokens",
    "moderate attention logits (see the known finding of C11)",
]


def base(E, n, **kw):
    return dict(
        C=E, B=kw.pop("B", 2), N=kw.pop("N", 2 * n + 1), FT=kw.pop("FT", [n, n + 2]), junk=2, jscale=0.5, epochs=1, cmax=kw.pop("cmax", 3), cj=[1, n],
        alpha=kw.pop("alpha", list("SCscF")), rtol=1e-6 if kw.get("dtype", "f64") == "f64" else 5e-3, cost=n, **kw,
    )


def te(n, heads=2, N=None, **kw):
    a = {k: kw.pop(k) for k in ("layers", "ff", "act", "norm", "how", "eps", "dropout", "bf") if k in kw}
    if N:
        kw["N"] = N
    return dict(base(heads * 2, n, **kw), tree=["te", dict(E=heads * 2, heads=heads, n=n, **a)])


def tel(kind, n, heads=2, **kw):
    a = {k: kw.pop(k) for k in ("q", "sof", "ff", "act", "eps", "dropout", "how") if k in kw}
    if a.get("sof") and a.get("q", -1) >= 0:
        kw["FT"] = [n]  # a query position counts from the start of a clip of sequence_len tokens
    return dict(base(heads * 2, n, **kw), tree=["tel", dict(kind=kind, E=heads * 2, heads=heads, n=n, **a)])


def long(n, windows):
    hist, left = [], n * windows
    for j, c in enumerate([1, 1, n, 1, 2, 1, n + 2, 1, 1, 1, 3] * 200):
        if left < c:
            return hist
        hist.append(["S"] if c == 1 else ["C", c])
        left -= c
        if j % 4 == 2:
            hist.append(["s", j % 2])


def tasks(tier):
    T = tier == "thorough"
    out = []
    i = 0
    W = 40 if T else 10
    for n in range(1, 7) if T else range(2, 6):
        for layers, act, norm, how in itertools.product((1, 2), ("relu", "gelu"), (False, True), ("direct", "from", "callable")):
            if layers == 2 and n < 2:
                continue
            for heads in (1, 2, 3) if T else [1 + i % 3]:
                i += 1
                a = dict(
                    layers=layers, act=act, norm=norm, how=how, heads=heads, ff=[6, 3, 1][i % 3], eps=[1e-5, 1e-1][i % 2],
                    dropout=[0.0, 0.4][i % 2], bf=i % 4 != 0, dtype="f32" if i % 9 == 8 else "f64", B=1 + i % 2,
                )
                out.append(te(n, **a))
                if i % 3 == 0 or T:
                    out.append(dict(te(n, **dict(a, alpha=list("SC"), N=n + 4)), kind="tree", cmin=2, data=1))
                if i % 3 == 1 or T:
                    out.append(dict(te(n, **dict(a, dtype="f64", N=n * W)), kind="linear", hist=long(n, W)))
        # single layers
        for q in range(-n, n):
            for sof in (False, True):
                i += 1
                hows = ["direct", "factory"] if q == -1 else ["direct"]
                for how in hows:
                    a = dict(q=q, sof=sof, how=how, act=["relu", "gelu"][i % 2], heads=1 + i % 3, dropout=[0.0, 0.4][i % 3 == 0], ff=[6, 3][i % 2])
                    out.append(tel("single", n, **a))
                    out.append(dict(tel("single", n, **dict(a, N=n * W)), kind="linear", hist=long(n, W)))
        if n > 1:
            for how, heads, act in itertools.product(("direct", "factory"), (1, 2, 3), ("relu", "gelu")):
                i += 1
                a = dict(how=how, heads=heads, act=act, dropout=[0.0, 0.4][i % 2])
                out.append(tel("retro", n, **a))
                out.append(dict(tel("retro", n, **dict(a, N=n * W)), kind="linear", hist=long(n, W)))
    # dimensions of size 1 (layer norm needs two features)
    for n in (2, 3):
        for layers in (1, 2):
            out.append(dict(base(2, n, B=1), tree=["te", dict(E=2, heads=2, n=n, layers=layers, ff=1)]))
            out.append(dict(base(2, n, B=1), tree=["te", dict(E=2, heads=1, n=n, layers=layers, ff=1, how="from")]))
        for kind in ("single", "retro"):
            out.append(dict(base(2, n, B=1), tree=["tel", dict(kind=kind, E=2, heads=2, n=n, ff=1)]))
    # behind a positional encoding and other layers
    for layers in (1, 2):
        for pe in (dict(dim=4, n=6), dict(dim=4, n=5, learned=False)):
            t = ["seq", ["rpe", pe], ["te", dict(E=4, heads=2, n=3, layers=layers, norm=True)]]
            out.append(dict(base(4, 3, N=9, alpha=list("SCs"), cmax=3), tree=t))
        t = ["seq", ["linear", 3, 4], ["te", dict(E=4, heads=2, n=3, layers=layers)], ["linear", 4, 2]]
        out.append(dict(base(4, 3, N=8, alpha=list("SCs"), cmax=3), tree=t, C=3))
    for t in out:
        if t.get("kind") == "linear" or t["tree"][0] == "seq":
            continue
        if "'n': 1" in repr(t["tree"]):
            t["cj"] = [1]
    return out
