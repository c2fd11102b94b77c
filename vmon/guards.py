"""Immutability sanitizer: fingerprints of the data handed to the code under test."""

import hashlib

import numpy as np
import torch


def fingerprint(x, _depth=0):
    """A hashable description of the full content of x (tensors, arrays, containers, scalars)."""
    if isinstance(x, torch.Tensor):
        y = x.detach()
        if type(y) is not torch.Tensor:
            y = y.as_subclass(torch.Tensor)
        data = y.contiguous().cpu()
        if data.dtype == torch.bfloat16:
            data = data.view(torch.int16)
        return ("T", str(x.dtype), tuple(x.shape), hashlib.blake2b(data.numpy().tobytes(), digest_size=12).digest())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("O", x.shape, tuple(fingerprint(i, _depth + 1) for i in x.ravel()))
        return ("N", str(x.dtype), x.shape, hashlib.blake2b(np.ascontiguousarray(x).tobytes(), digest_size=12).digest())
    if isinstance(x, dict) or (hasattr(x, "keys") and hasattr(x, "__getitem__")):
        return ("D", tuple((repr(k), fingerprint(x[k], _depth + 1)) for k in x.keys()))
    if isinstance(x, (set, frozenset)):
        return ("S", tuple(sorted(repr(i) for i in x)))
    if isinstance(x, (list, tuple)):
        return ("L", type(x).__name__, tuple(fingerprint(i, _depth + 1) for i in x))
    return ("V", repr(x))


class Frozen:
    """Context manager: the given objects must come out of the block exactly as they went in."""

    def __init__(self, ctx, key, **objs):
        self.ctx, self.key, self.objs = ctx, key, objs

    def __enter__(self):
        self.before = {k: fingerprint(v) for k, v in self.objs.items()}
        return self

    def __exit__(self, et, ev, tb):
        if et is not None:
            return False
        for k, v in self.objs.items():
            self.ctx.event("immutability_checks")
            self.ctx.check(fingerprint(v) == self.before[k], self.key, lambda: f"{k} was modified by the call; now {v!r:.300}")
        return False
