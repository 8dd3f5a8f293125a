"""Deterministic data, comparison, fingerprints and copies of (nested) tensors."""
import hashlib
import zlib
from collections import OrderedDict

import torch
from torch import Tensor

_SEED = 1


def set_seed(seed):
    global _SEED
    _SEED = int(seed)


def gen(*key):
    g = torch.Generator()
    g.manual_seed(zlib.crc32(repr((_SEED,) + key).encode()) + 7919 * _SEED)
    return g


def data(shape, *key, dtype=torch.float64):
    """Generic (tie-free, sign-mixed) data, a function of the key only"""
    x = torch.randn(tuple(shape), generator=gen("data", *key), dtype=torch.float64)
    return x.to(dtype)


def init_weights(module, tag=""):
    """Overwrite all parameters and running statistics by generic values depending on names only"""
    with torch.no_grad():
        for name, p in module.named_parameters():
            fan = max(1, p[0].numel()) if p.dim() > 1 else 4
            w = torch.randn(tuple(p.shape), generator=gen("w", tag, name), dtype=torch.float64)
            p.copy_((w * (1.0 / fan) ** 0.5).to(p.dtype))
        for name, b in module.named_buffers():
            if name.endswith("running_mean"):
                b.copy_(torch.randn(tuple(b.shape), generator=gen("m", tag, name)).to(b.dtype))
            elif name.endswith("running_var"):
                b.copy_(
                    (0.5 + torch.rand(tuple(b.shape), generator=gen("v", tag, name))).to(b.dtype)
                )
    return module


def tol(dtype):
    return (1e-8, 1e-8) if dtype == torch.float64 else (2e-4, 2e-5)


def close(a: Tensor, b: Tensor, rtol=None, atol=None):
    r, t = tol(torch.float64 if torch.float64 in (a.dtype,) and b.dtype == torch.float64 else torch.float32)
    rtol = r if rtol is None else rtol
    atol = t if atol is None else atol
    return torch.allclose(a.to(torch.float64), b.to(torch.float64), rtol=rtol, atol=atol, equal_nan=False)


def diff(obs, exp, path="output", **kw):
    """None if equal, else a description. Values: None, Tensor, (nested) lists/tuples of these"""
    if isinstance(exp, (list, tuple)):
        if not isinstance(obs, (list, tuple)) or len(obs) != len(exp):
            return f"{path}: got {brief(obs)}, expected {brief(exp)}"
        for i, (o, e) in enumerate(zip(obs, exp)):
            d = diff(o, e, f"{path}[{i}]", **kw)
            if d:
                return d
        return None
    if exp is None:
        return None if obs is None or (isinstance(obs, list) and obs and nothing(obs)) else f"{path}: got {brief(obs)}, expected None"
    if isinstance(exp, Tensor):
        if not isinstance(obs, Tensor):
            return f"{path}: got {brief(obs)}, expected {brief(exp)}"
        if tuple(obs.shape) != tuple(exp.shape):
            return f"{path}: shape {tuple(obs.shape)}, expected {tuple(exp.shape)}"
        if obs.dtype != exp.dtype:
            return f"{path}: dtype {obs.dtype}, expected {exp.dtype}"
        if not close(obs.detach(), exp.detach(), **kw):
            return f"{path}: values {brief(obs)}, expected {brief(exp)}"
        return None
    return None if obs == exp else f"{path}: got {brief(obs)}, expected {brief(exp)}"


def nothing(x):
    """None, or per stream None"""
    return all(nothing(i) for i in x) if isinstance(x, list) else x is None


def tmap(f, x):
    return [tmap(f, i) for i in x] if isinstance(x, (list, tuple)) else f(x)


def tstack(vals, dim):
    """Stack a list of equally nested values"""
    if isinstance(vals[0], (list, tuple)):
        return [tstack([v[i] for v in vals], dim) for i in range(len(vals[0]))]
    return torch.stack(vals, dim)


def tunbind(x, dim):
    """Inverse of tstack"""
    if isinstance(x, (list, tuple)):
        parts = [tunbind(i, dim) for i in x]
        return [list(v) for v in zip(*parts)]
    return list(x.unbind(dim))


def brief(x):
    if isinstance(x, Tensor):
        v = [round(float(f), 5) for f in x.detach().flatten()[:4]]
        return f"Tensor{tuple(x.shape)}{v}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(brief(i) for i in x) + "]"
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


def copy_state(s):
    """Deep copy of whatever get_state returned"""
    if isinstance(s, Tensor):
        return s.detach().clone()
    if isinstance(s, tuple) and hasattr(s, "_fields"):
        return type(s)(*(copy_state(i) for i in s))
    if isinstance(s, (list, tuple)):
        return type(s)(copy_state(i) for i in s)
    if isinstance(s, dict):
        return type(s)((k, copy_state(v)) for k, v in s.items())
    import copy

    return copy.deepcopy(s)


def _feed(h, x, depth=0):
    if isinstance(x, Tensor):
        h.update(("T%s%s" % (tuple(x.shape), x.dtype)).encode())
        if x.numel():
            y = x.detach()
            if y.dtype.is_floating_point:
                y = (torch.nan_to_num(y.double(), nan=9e9, posinf=8e9, neginf=-8e9) * 1e6).round().to(torch.int64)
            h.update(y.contiguous().numpy().tobytes())
    elif isinstance(x, (bool, int, float, str, bytes, type(None))):
        h.update(repr(x).encode())
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for i in x:
            _feed(h, i, depth + 1)
        h.update(b"]")
    elif isinstance(x, (dict, OrderedDict)):
        h.update(b"{")
        for k in x:
            h.update(repr(k).encode())
            _feed(h, x[k], depth + 1)
        h.update(b"}")
    else:
        h.update(type(x).__name__.encode())


def digest(x):
    h = hashlib.blake2b(digest_size=16)
    _feed(h, x)
    return h.hexdigest()


_SKIP = {"_parameters", "_modules", "_non_persistent_buffers_set"}


def fingerprint(module, skip_params=True):
    """Digest of everything a module holds besides its parameters: tensors and plain attributes of
    all submodules, whatever they are called"""
    h = hashlib.blake2b(digest_size=16)
    for name, m in module.named_modules():
        h.update(name.encode())
        for k, v in m.__dict__.items():
            if k in _SKIP or "hook" in k:
                continue
            if callable(v) and not isinstance(v, Tensor):
                continue
            h.update(k.encode())
            _feed(h, v)
    return h.hexdigest()


def observable(module):
    """Digest of what a user can read from a module: weights, streaming state, training and call mode"""
    state = getattr(module, "get_state", lambda: None)()
    return digest(
        [
            list(module.state_dict().items()),
            state,
            [m.training for m in module.modules()],
            getattr(module, "call_mode", None),
        ]
    )
