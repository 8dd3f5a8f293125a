"""C11 Continual attention equals attention over the sliding window (reference: nets.attention)"""
import torch

from ..explore import Live, Violation, World, caught
from ..tensors import diff, tmap

BOUNDS = {
    "quick": "both attention kinds x sequence length 2-5 x 1-3 heads x all query positions x layouts x {self, separate key, "
    "separate key and value, own key/value dimensions} x bias (each value with every sequence length and query position); "
    "all call histories over 2-3 windows of steps, chunks and look-aheads; streams of 12 windows; forward with clips of "
    "3 lengths with attention mask, key padding mask, and without weights",
    "thorough": "the full product of these for sequence lengths 1-6; streams of 40 windows",
}
ASSUMPTIONS = [
    "no add_bias_kv, no add_zero_attn, no dropout while stepping in training mode", "embed_dim_second only with batch_first",
    "retroactive attention with sequence_len >= 2",
    "moderate attention logits for retroactive attention (known finding: see known_findings.txt)",
]


class MhaWorld(World):
    """Frames are tokens or lists [query, key(, value)]"""

    def __init__(self, task):
        super().__init__(task)
        # moderate logits: the incremental normaliser of the retroactive attention sums up exponentials
        self.X = [[tmap(lambda t: t * 0.7, x) for x in e] for e in self.X]
        for i, scale in task.get("peaks", []):
            self.X[0][i] = tmap(lambda t: t * scale, self.X[0][i])

    def live(self):
        return MhaLive(self)

    def regular(self, ids, variant):
        n = self.node
        fr = self.frames(ids)
        q, k, v = [[x[i] if i < len(x) else x[0] for x in fr] if isinstance(fr[0], list) else fr for i in range(3)]
        one = n.kind == "single" and n.sof
        if one:
            q = [q[n.q]]
        dim = 1 if n.bf else 0
        q, k, v = [torch.stack(x, dim) for x in (q, k, v)]
        y, w = n.twin(q, k, v, **self.masks(len(ids), 1 if one else len(ids), variant))
        if n.ed2:
            y = y.permute(0, 2, 1)
        return (y, w) if n.mask else y

    def masks(self, T, L, variant):
        if variant == 1:
            m = torch.zeros(L, T, dtype=torch.bool)
            m[:, T // 2] = True
            return dict(attn_mask=m)
        if variant == 2:
            m = torch.zeros(self.B, T, dtype=torch.bool)
            m[-1, 0] = True
            return dict(key_padding_mask=m)
        if variant == 3:
            return dict(need_weights=False)
        return {}

    def ops(self, g):
        out = [o for o in super().ops(g) if o[0] != "F"]
        if "F" in self.task["alpha"]:
            out += [["F", T, v] for T in self.task["FT"] for v in range(4) if T > 1 or v in (0, 3)]  # no fully masked clips
        return out


class MhaLive(Live):
    def call(self, method, x, **kw):
        xs = x if isinstance(x, list) else [x]
        return getattr(self.m, method)(*xs, **kw)

    def apply(self, op):
        if op[0] != "F":
            return super().apply(op)
        w, n = self.w, self.w.node
        self.hist.append(op)
        ids = w.ids("j", 0, 0, op[1])
        L = 1 if n.kind == "single" and n.sof else op[1]
        with torch.no_grad():
            exp = w.regular(ids, op[2])
            try:
                obs = self.call("forward", self.chunk(ids), **w.masks(op[1], L, op[2]))
            except Exception as e:  # noqa
                obs = caught(e)
        if isinstance(exp, tuple):
            obs, exp = list(obs) if isinstance(obs, tuple) else obs, list(exp)
            if exp[1] is None and isinstance(obs, list) and obs[1] is None:
                obs, exp = obs[:1], exp[:1]
        d = diff(obs, exp, f"{op}", **w.kw)
        if d:
            raise Violation(d, list(self.hist))
        return True


LAYOUTS = [dict(), dict(ed2=False), dict(ed2=False, batch_first=False)]


def world(kind, n, heads=2, q=-1, lay=0, kv="", C=None, per=2, **kw):
    E = heads * per
    L = LAYOUTS[lay]
    a = dict(kind=kind, E=E, heads=heads, n=n, **L)
    if kind == "single":
        a["q"] = q
    C = E
    if kv == "k":
        C = [E, E]
    elif kv == "kv":
        C = [E, E, E]
    elif kv == "dims":
        a.update(kdim=3, vdim=5)
        C = [E, 3, 5]
    opts = ("bias", "mask", "sof", "dropout", "how")
    a.update({k: kw.pop(k) for k in opts if k in kw})
    t = 2 if not L else (1 if L.get("batch_first", True) else 0)
    rt = 1e-7 if kw.get("dtype", "f64") == "f64" else 1e-3
    return dict(
        world="props.c11:MhaWorld", tree=["mha", a], C=C, B=kw.pop("B", 2), N=kw.pop("N", 2 * n + 1), tdim=t, odim=t, rtol=rt,
        FT=[n, n + 2], junk=2, jscale=0.9, epochs=1, cmax=kw.pop("cmax", 3), cj=[1, n], alpha=kw.pop("alpha", list("SCscF")), **kw,
    )


def tasks(tier):
    T = tier == "thorough"
    out = []
    i = 0

    def spread():
        nonlocal i
        i += 1
        kv = ["", "kv", "dims", "k"][i % 4]
        return dict(
            heads=[2, 1, 3][i % 3], lay=i % len(LAYOUTS), kv=kv, bias=i % 5 != 0, mask=i % 2 == 0, dropout=0.3 if i % 4 == 1 else 0.0,
            how="from" if i % 3 == 1 else "direct", dtype="f32" if i % 7 == 6 else "f64", B=1 + i % 2,
        )

    for n in range(1, 7) if T else range(2, 6):
        geo = [("single", q) for q in range(-n, n)] + ([("retro", -1)] * 4 if n > 1 else [])
        for kind, q in geo:
            for _ in range(6 if T else 1):
                o = spread()
                out.append(world(kind, n, q=q, sof=i % 3 != 2, **o))
                out.append(dict(world(kind, n, q=q, alpha=["S", "C"], **o), kind="tree", N=n + 4, cmin=2, data=1))
        for lay in range(3):
            for kv in ("", "k", "kv", "dims"):
                for how in ("direct", "from"):
                    for kind, q in [("single", -1), ("single", 0), ("retro", -1)]:
                        if kind == "retro" and n < 2:
                            continue
                        i += 1
                        if not T and (i % 4) and n != 3:
                            continue
                        out.append(world(kind, n, q=q, lay=lay, kv=kv, how=how, bias=i % 3 != 0, heads=1 + i % 3, sof=i % 2 == 0, N=n + 2))
    # dimensions of size 1
    for n in (1, 2, 3):
        for kind, q in [("single", -1), ("single", 0)] + [("retro", -1)] * (n > 1):
            for heads, lay, sof in [(1, 0, True), (1, 1, False), (1, 2, True), (2, 0, False), (2, 1, True)]:
                o = dict(bias=i % 2 == 0, mask=sof, how=["direct", "from"][i % 2])
                i += 1
                out.append(world(kind, n, heads, q, lay, kv=["", "kv"][i % 2], per=1, B=1, sof=sof, cmax=2, **o))
    # long streams
    for n in (2, 3, 4, 5, 7):
        for kind, q in [("single", -1), ("single", 0), ("single", n // 2), ("retro", -1), ("retro", -1)]:
            o = spread()
            N = n * (40 if T else 12)
            t = world(kind, n, q=q, **dict(o, dtype="f64"))
            hist = []
            left = N
            for j, c in enumerate([1, 1, n, 1, 2, 1, n + 2, 1, 1, 1, 3] * 100):
                if left < c:
                    break
                hist.append(["S"] if c == 1 else ["C", c])
                left -= c
                if j % 4 == 2:
                    hist.append(["s", j % 2])
            out.append(dict(t, kind="linear", N=N, hist=hist, rtol=1e-6))
    # probe of the known finding
    t = world("retro", 3, lay=1)
    out.append(dict(t, name="probe-retro-peak", kind="linear", N=9, peaks=[[3, 300.0]], hist=[["S"]] * 9))
    return out
