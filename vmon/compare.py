"""Comparison of tensors, arrays, numbers and nested containers."""

import numpy as np
import torch


def to_np(x):
    if isinstance(x, torch.Tensor):
        x = x.detach()
        if type(x) is not torch.Tensor:
            x = x.as_subclass(torch.Tensor)
        x = x.cpu()
        if x.dtype == torch.bfloat16:
            x = x.to(torch.float32)
        return x.numpy()
    return np.asarray(x)


def mismatch(actual, expected, rtol=1e-4, atol=1e-5):
    """None if equal within tolerance, otherwise a description."""
    if isinstance(expected, dict):
        if not isinstance(actual, dict) or set(actual) != set(expected):
            return f"keys differ: {actual!r} vs {expected!r}"
        for k in expected:
            m = mismatch(actual[k], expected[k], rtol, atol)
            if m:
                return f"[{k!r}] {m}"
        return None
    if actual is None or expected is None:
        return None if actual is expected else f"{actual!r} is not {expected!r}"
    try:
        a, e = to_np(actual), to_np(expected)
    except Exception as ex:
        return f"not comparable: {type(actual)} vs {type(expected)} ({ex})"
    if a.shape != e.shape:
        return f"shape {a.shape}, expected {e.shape} (got {a!r:.200}, expected {e!r:.200})"
    if a.dtype == object or e.dtype == object or a.dtype.kind in "US" or e.dtype.kind in "US":
        return None if a.tolist() == e.tolist() else f"{a.tolist()!r} != {e.tolist()!r}"
    if a.dtype.kind in "biu" and e.dtype.kind in "biu":
        bad = a.astype(np.int64) != e.astype(np.int64) if not (a.dtype == np.uint64 or e.dtype == np.uint64) else a != e
    else:
        a = a.astype(np.float64)
        e = e.astype(np.float64)
        with np.errstate(all="ignore"):
            same = (a == e) | (np.isnan(a) & np.isnan(e))
            if rtol or atol:
                fin = np.isfinite(a) & np.isfinite(e)
                scale = float(np.max(np.abs(e[fin]))) if np.any(fin) else 0.0
                tol = atol + rtol * np.maximum(np.abs(e), 1e-3 * scale)
                same = same | (fin & (np.abs(a - e) <= tol))
            bad = ~same
    if not np.any(bad):
        return None
    idx = tuple(int(i) for i in np.argwhere(np.atleast_1d(bad))[0])
    av, ev = np.atleast_1d(a)[idx], np.atleast_1d(e)[idx]
    return f"{int(np.sum(bad))} of {bad.size} elements differ, first at {idx}: got {av!r}, expected {ev!r}"


def equal(a, b):
    return mismatch(a, b, 0.0, 0.0) is None
