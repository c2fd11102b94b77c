"""Uninitialised-memory sanitizer: fresh "empty" tensors get recognisable content instead of leftovers."""

import functools

import torch

MODES = ("none", "nan", "number", "nan")
NUMBER = 70368744.0
_plain = {"empty": torch.empty, "empty_like": torch.empty_like, "empty_strided": torch.empty_strided}


def _filled(fn):
    @functools.wraps(fn)
    def make(*args, **kwargs):
        r = fn(*args, **kwargs)
        if type(r) is torch.Tensor and "out" not in kwargs and r.device.type != "meta" and not r.is_complex():
            with torch.no_grad():
                r.fill_(True if r.dtype == torch.bool else 77 if not r.dtype.is_floating_point else NUMBER if r.dtype.itemsize > 2 else 60.0)
        return r

    return make


def set_mode(mode):
    """nan: torch itself fills with NaN / largest integer / True; number: filled with an ordinary looking number,
    for code whose missing values are NaN anyway"""
    torch.use_deterministic_algorithms(mode == "nan", warn_only=True)
    for name, fn in _plain.items():
        setattr(torch, name, _filled(fn) if mode == "number" else fn)
