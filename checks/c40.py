"""C40: the assertion helpers of evotorch.testing fail exactly when they should."""

from typing import Any

import numpy as np
import torch
from evotorch import Problem
from evotorch.testing import TestingError, assert_allclose, assert_almost_between, assert_dtype_matches, assert_eachclose, assert_shape_matches
from evotorch.tools import ObjectArray

from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C40", "A case is one call of an assertion helper on random values; whether it raises is compared with a float64 evaluation of the documented condition.")
ASSUMPTIONS = ["values within rounding of a tolerance or limit are avoided"]


def outcome(ctx, fn, what):
    """True if the assertion passed, False if it failed; anything else is a violation"""
    try:
        r = fn()
    except AssertionError:
        return False
    ctx.check(r is None, "result", f"{what} returned {r!r}")
    return True


def form(ctx, x, kinds=("tensor", "numpy", "list")):
    k = ctx.choice(kinds)
    if k == "list":
        return x.tolist()
    if k == "numpy":
        return x.copy()
    return torch.from_numpy(x.copy())


def batch_of(x):
    p = Problem("min", lambda v: v.sum(-1), solution_length=x.shape[-1], initial_bounds=(-1, 1), dtype=str(x.dtype))
    b = p.generate_batch(len(x), empty=True)
    b.set_values(torch.from_numpy(x.copy()))
    return b


@scenario("C40", quick=1400, thorough=12000, needs=["allclose:passed", "allclose:failed", "eachclose:passed", "eachclose:failed", "between:passed", "between:failed", "nan", "integers", "population", "solution", "no_tolerance"])
def values(ctx):
    shape = ctx.choice([(3,), (1,), (2, 3), (4, 1), (2, 2, 2)])
    which = ctx.choice(["allclose", "eachclose", "between"])
    dt = ctx.choice(["float32", "float64", "int64", "float32"])
    whole = dt == "int64"
    if whole:
        ctx.event("integers")
    base = ctx.np.integers(-20, 20, size=shape)
    x = (base if whole else base + ctx.np.choice([0.0, 0.25, 0.5, 0.1234, 0.0078], size=shape)).astype(dt)
    kinds = ["tensor", "numpy"] + ([] if whole else ["list"])
    if len(shape) == 2 and not whole:
        kinds += ["batch", "solution"]
    kind = ctx.choice(kinds)
    if kind == "solution":
        x = x[:1]
    tol = {}
    if ctx.flip(0.6):
        tol["atol"] = ctx.choice([0.1, 1.0, 2.6, 0.002])
    if not tol or ctx.flip(0.4):
        tol["rtol"] = ctx.choice([0.01, 0.1, 0.0002])

    def present(a):
        if kind == "batch":
            ctx.event("population")
            return batch_of(a)
        if kind == "solution":
            ctx.event("solution")
            return batch_of(a)[0]
        return form(ctx, a, [kind])

    if which == "allclose":
        want = x.astype(float)
        y = want + ctx.np.choice([0.0, 0.001, 0.03, -0.005, 0.4, -2.0, 3.5], size=x.shape, p=[0.5, 0.2, 0.1, 0.08, 0.04, 0.04, 0.04])
        nan = (not whole) and ctx.flip(0.3)
        equal_nan = ctx.choice([None, True, False])
        y = np.round(y).astype(dt) if whole else y.astype(dt)
        if nan:
            k = int(ctx.np.integers(0, y.size))
            y.reshape(-1)[k] = np.nan
            if ctx.flip(0.7):
                x.reshape(-1)[k] = np.nan
            ctx.event("nan")
        a, d = x.astype(float), y.astype(float)  # actual, desired
        gap = np.abs(a - d) - (tol.get("atol", 0.0) + tol.get("rtol", 0.0) * np.abs(d))
        both = np.isnan(a) & np.isnan(d)
        if (np.abs(gap[~np.isnan(gap)]) < 1e-5).any() and not (gap[np.abs(gap) < 1e-5] == 0).all():
            return
        if ((np.abs(gap) < 1e-5) & (gap > 0)).any() or ((gap == 0) & (a != d)).any():
            return
        ok = bool(((gap <= 0) | (both if equal_nan is not False else False)).all())
        kw = {} if equal_nan is None else {"equal_nan": equal_nan}
        desired = form(ctx, y, ["tensor", "numpy"] + ([] if dt != "float32" else ["list"]))
        if kind == "solution":
            desired = desired[0]
        actual = present(x)
        with Frozen(ctx, "arguments", actual=actual if kind in ("tensor", "numpy", "list") else 0, desired=desired):
            got = outcome(ctx, lambda: assert_allclose(actual, desired, **tol, **kw), "assert_allclose")
        ctx.check(got == ok, "allclose", lambda: f"assert_allclose of {x} and {y} with {tol} {kw}: {'passed' if got else 'failed'}")
    elif which == "eachclose":
        v = float(x.reshape(-1)[0]) if ctx.flip(0.7) else ctx.choice([1.5, 0.25, 3.0, -2.0])
        if ctx.flip(0.6):
            x = np.full_like(x, v)
            if ctx.flip(0.4):
                x.reshape(-1)[int(ctx.np.integers(0, x.size))] += 1
        gap = np.abs(x.astype(float) - v) - (tol.get("atol", 0.0) + tol.get("rtol", 0.0) * abs(v))
        if (np.abs(gap) < 1e-5).any() and not v == 0:
            return
        ok = bool((gap <= 0).all())
        value = ctx.choice([v, np.float64(v), torch.tensor(v, dtype=torch.float64)] + ([int(v)] if v == int(v) else []))
        actual = present(x)
        with Frozen(ctx, "arguments", actual=actual if kind in ("tensor", "numpy", "list") else 0):
            got = outcome(ctx, lambda: assert_eachclose(actual, value, **tol), "assert_eachclose")
        ctx.check(got == ok, "eachclose", lambda: f"assert_eachclose of {x} and {value!r} with {tol}: {'passed' if got else 'failed'}")
    else:
        f = x.astype(float)
        lo = f.min() + ctx.choice([-3.0, -0.3, 0.0, 0.2, 0.6])
        hi = f.max() + ctx.choice([3.0, 0.3, 0.0, -0.2, -0.6])
        if ctx.flip(0.4):
            lo = f + ctx.np.choice([-3.0, -0.3, 0.0, -0.0, 0.2], size=f.shape, p=[0.4, 0.3, 0.15, 0.1, 0.05])
        if ctx.flip(0.4):
            hi = f + ctx.np.choice([3.0, 0.3, 0.0, -0.2], size=f.shape, p=[0.4, 0.3, 0.25, 0.05])
        atol = ctx.choice([None, None, 0.1, 0.25, 1.0])
        t = atol or 0.0
        low, up = np.asarray(lo, float) - t, np.asarray(hi, float) + t
        edge = np.concatenate([np.abs(f - low).reshape(-1), np.abs(f - up).reshape(-1)])
        exact = t == 0 and (f * 4 == np.round(f * 4)).all()
        if ((edge > 0) & (edge < 1e-4)).any() or (not exact and (edge == 0).any()):
            return
        ok = bool(((f >= low) & (f <= up)).all())

        def bound(b):
            b = np.asarray(b, float)
            if kind == "solution" and b.ndim:
                b = b[0]
            return form(ctx, b, ["tensor", "numpy", "list"]) if b.ndim else ctx.choice([float(b), np.array(float(b)), torch.tensor(float(b))])

        actual, glo, ghi = present(x), bound(lo), bound(hi)
        with Frozen(ctx, "arguments", actual=actual if kind in ("tensor", "numpy", "list") else 0, lo=glo, hi=ghi):
            got = outcome(ctx, lambda: assert_almost_between(actual, glo, ghi, **({} if atol is None else {"atol": atol})), "assert_almost_between")
        ctx.check(got == ok, "between", lambda: f"assert_almost_between of {x} with [{lo}, {hi}] and atol={atol}: {'passed' if got else 'failed'}")
    ctx.event(f"{which}:{'passed' if ok else 'failed'}")
    if ctx.index % 20 == 0:
        ctx.raises(TestingError, lambda: assert_allclose(x, x), "no_tolerance", "assert_allclose without a tolerance")
        ctx.raises(TestingError, lambda: assert_eachclose(x, 1.0), "no_tolerance", "assert_eachclose without a tolerance")
        ctx.event("no_tolerance")
    ctx.state(which, dt, kind, ok, shape, tuple(sorted(tol)))


@scenario("C40", quick=500, thorough=5000, needs=["tight", "not_a_number", "infinite", "passed", "failed"])
def demanding(ctx):
    """double precision with tight tolerances, values which are not numbers or infinite"""
    n = ctx.randint(1, 5)
    tail = ctx.choice([(), (2,)])
    kind = ctx.choice(["tensor", "numpy"])
    if ctx.flip(0.5):
        ctx.event("tight")
        v = ctx.choice([0.1, 1.0 / 3, -7.7, 123.456, 1e9 + 0.3])
        tol = 10.0 ** ctx.randint(-13, -9)
        off = ctx.choice([0.0, 0.0, 0.2, 8.0, -0.2, -8.0]) * tol
        x = np.full((n, *tail), v)
        x.reshape(-1)[ctx.randint(0, x.size - 1)] += off * abs(v)
        ok = abs(off) < tol
        which = ctx.choice(["allclose", "eachclose", "between"])
        if which == "allclose":
            call = lambda: assert_allclose(form(ctx, x, [kind]), form(ctx, np.full_like(x, v), ["tensor", "numpy"]), rtol=tol)
        elif which == "eachclose":
            call = lambda: assert_eachclose(form(ctx, x, [kind]), ctx.choice([v, np.float64(v)]), rtol=tol)
        else:
            bound = lambda s: ctx.choice([float, np.array, lambda b: torch.tensor(b, dtype=torch.float64), lambda b: np.full(x.shape, b), lambda b: np.full(x.shape, b).tolist()])(v * (1 + s * tol) if s else v)
            if ctx.flip(0.3) and off == 0:
                call = lambda: assert_almost_between(form(ctx, x, [kind]), bound(0), bound(0))
            elif v > 0:
                call = lambda: assert_almost_between(form(ctx, x, [kind]), bound(-1), bound(1))
            else:
                call = lambda: assert_almost_between(form(ctx, x, [kind]), bound(1), bound(-1))
    else:
        odd = ctx.choice([np.nan, np.inf, -np.inf])
        ctx.event("not_a_number" if np.isnan(odd) else "infinite")
        x = ctx.np.uniform(-1, 1, size=(n, *tail)).astype(ctx.choice(["float32", "float64"]))
        x.reshape(-1)[ctx.randint(0, x.size - 1)] = odd
        which = ctx.choice(["eachclose", "between", "open", "allclose"])
        if which == "between":
            ok, call = False, lambda: assert_almost_between(form(ctx, x, [kind]), -2.0, 2.0, **({"atol": 1.0} if ctx.flip() else {}))
        elif which == "open":
            lo, hi = ctx.choice([(-np.inf, np.inf), (-np.inf, 2.0), (-2.0, np.inf)])
            ok, call = bool(((x >= lo) & (x <= hi)).all()), lambda: assert_almost_between(form(ctx, x, [kind]), lo, hi, **({"atol": 1.0} if ctx.flip() else {}))
        elif which == "allclose":
            y = x.copy()
            if ctx.flip():
                y.reshape(-1)[~np.isfinite(y.reshape(-1))] = ctx.choice([0.0, np.inf, -np.inf, np.nan])
            ok, call = bool(np.array_equal(x, y, equal_nan=True)), lambda: assert_allclose(form(ctx, x, [kind]), form(ctx, y, ["tensor", "numpy"]), atol=0.5)
        else:
            v = ctx.choice([0.0, np.inf])
            if ctx.flip():
                x[:] = odd
            ok = bool((x == v).all())
            call = lambda: assert_eachclose(form(ctx, x, [kind]), v, atol=3.0)
    got = outcome(ctx, call, which)
    ctx.check(got == ok, f"demanding:{which}", lambda: f"{which} of {x!r}: {'passed' if got else 'failed'}")
    ctx.event("passed" if ok else "failed")
    ctx.state(which, kind, ok, x.shape, str(x.dtype))


@scenario("C40", quick=300, thorough=3000, needs=["dtype:passed", "dtype:failed", "shape:passed", "shape:failed", "objects"])
def types(ctx):
    names = ["float32", "float64", "float16", "int64", "int32", "uint8", "bool"]
    a, d = ctx.choice(names), ctx.choice(names)
    if ctx.flip():
        d = a
    forms = [d, np.dtype(d), getattr(torch, d)] + {"float64": [float], "int64": [int], "bool": [bool]}.get(d, [])
    asked = ctx.choice(forms)
    shape = ctx.choice([(2,), (0,), (3, 1), (1, 3), (2, 0, 2)])
    x = torch.zeros(shape, dtype=getattr(torch, a)) if ctx.flip() else np.zeros(shape, dtype=a)
    ok = a == d
    if ctx.flip(0.2):
        x, ok = ObjectArray(3), False
        shape = (3,)
        if ctx.flip():
            asked, ok = ctx.choice([object, "object", "O", Any, "Any", np.dtype(object)]), True
        ctx.event("objects")
    elif ctx.flip(0.1):
        asked, ok = ctx.choice([object, "O", Any, "Any"]), False
    got = outcome(ctx, lambda: assert_dtype_matches(x, asked), "assert_dtype_matches")
    ctx.check(got == ok, "dtype", f"assert_dtype_matches of dtype {x.dtype} with {asked!r}: {'passed' if got else 'failed'}")
    ctx.event(f"dtype:{'passed' if ok else 'failed'}")
    if not isinstance(x, ObjectArray):
        other = ctx.choice([shape, shape, shape[:-1], (*shape, 1), tuple(s + 1 for s in shape), tuple(reversed(shape))])
        given = ctx.choice([other, torch.Size(other)] + ([other[0], np.int64(other[0])] if len(other) == 1 else []))
        y = x.tolist() if ctx.flip(0.2) and x.ndim == 1 and len(x) else x
        got = outcome(ctx, lambda: assert_shape_matches(y, given), "assert_shape_matches")
        ctx.check(got == (other == shape), "shape", f"assert_shape_matches of shape {shape} with {given!r}: {'passed' if got else 'failed'}")
        ctx.event(f"shape:{'passed' if other == shape else 'failed'}")
    ctx.state(a, str(asked), shape, ok)
