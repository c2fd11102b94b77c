"""C35: bounded updates, clipping and spread initialisation."""

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms import CEM, PGPE, SNES
from evotorch.algorithms.functional import cem, pgpe
from evotorch.tools import clip_tensor, ensure_tensor_length_and_dtype, modify_tensor, modify_vector, stdev_from_radius, to_stdev_init

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C35", "A case is one combination of original, target and limits (scalar, vector or absent) with consistent limits, or one way of giving the initial spread.")
ASSUMPTIONS = ["the limits of one element never contradict each other (the intersection of all given intervals is not empty)"]


def _limits(ctx, orig, n):
    """random limits as float64 arrays that leave a non-empty interval around the original"""
    lb = ub = mc = None
    if ctx.flip(0.7):
        lb = orig - ctx.np.uniform(0, 2, size=n) * ctx.choice([1, 0.1, 0])
    if ctx.flip(0.7):
        ub = orig + ctx.np.uniform(0, 2, size=n) * ctx.choice([1, 0.1, 0])
    if ctx.flip(0.6):
        mc = ctx.np.uniform(0, 1.2, size=n)
    if ctx.flip(0.4):
        # scalars
        lb = None if lb is None else np.full(n, lb.min())
        ub = None if ub is None else np.full(n, ub.max())
        mc = None if mc is None else np.full(n, mc[0])
        return lb, ub, mc, True
    return lb, ub, mc, False


def _expected(orig, target, lb, ub, mc):
    lo = np.full(orig.shape, -np.inf)
    hi = np.full(orig.shape, np.inf)
    if lb is not None:
        lo = np.maximum(lo, lb)
    if ub is not None:
        hi = np.minimum(hi, ub)
    if mc is not None:
        lo = np.maximum(lo, orig - np.abs(orig) * mc)
        hi = np.minimum(hi, orig + np.abs(orig) * mc)
    return np.minimum(np.maximum(target, lo), hi)


@scenario("C35", quick=2500, thorough=60000, needs=["in_place", "copying", "max_change", "scalar_limits", "batched_vectors"])
def bounded_update(ctx):
    n = ctx.randint(1, 6)
    dtype = ctx.choice([torch.float32, torch.float64])
    npd = np.float32 if dtype is torch.float32 else np.float64
    orig = (ctx.np.normal(size=n) * ctx.choice([0.01, 1, 100])).astype(npd).astype(np.float64)
    if ctx.flip(0.2):
        orig[ctx.randint(0, n - 1)] = 0.0
    target = orig + ctx.np.normal(size=n) * ctx.choice([0.1, 1, 10]) * (np.abs(orig) + 0.1)
    target = target.astype(npd).astype(np.float64)
    lb, ub, mc, scalar = _limits(ctx, orig, n)

    def arg(x):
        if x is None:
            return None
        if scalar:
            ctx.event("scalar_limits")
            return float(npd(x[0])) if ctx.flip() else torch.tensor(x[0], dtype=dtype)
        return torch.tensor(x, dtype=dtype) if ctx.flip(0.8) else [float(v) for v in x]

    a_lb, a_ub, a_mc = arg(lb), arg(ub), arg(mc)
    exp = _expected(orig, target, lb, ub, mc)
    o, t = torch.tensor(orig, dtype=dtype), torch.tensor(target, dtype=dtype)
    in_place = ctx.flip()
    ctx.state(n, str(dtype), lb is None, ub is None, mc is None, scalar, in_place)
    ctx.note("orig", orig, "target", target, "lb", lb, "ub", ub, "max_change", mc, "in_place", in_place)
    shape = (n,)
    if n in (4, 6) and ctx.flip(0.3):
        shape = (2, n // 2)
        o, t = o.reshape(shape), t.reshape(shape)
        a_lb, a_ub, a_mc = [
            (torch.as_tensor(x, dtype=dtype).reshape(shape) if x is not None and not scalar else x) for x in (a_lb, a_ub, a_mc)
        ]
        exp = exp.reshape(shape)
    if mc is not None:
        ctx.event("max_change")
    tol = dict(rtol=1e-5, atol=1e-6 * (np.abs(orig).max() + 1e-6))
    if in_place:
        ctx.event("in_place")
        with Frozen(ctx, "target-modified", target=t, lb=a_lb, ub=a_ub, mc=a_mc):
            r = modify_tensor(o, t, a_lb, a_ub, a_mc, in_place=True)
        ctx.check(r is o or r.data_ptr() == o.data_ptr(), "in-place-result", "the result is not the original tensor")
        ctx.close(o, exp, "value:in-place", "in-place result", **tol)
    else:
        ctx.event("copying")
        with Frozen(ctx, "argument-modified", original=o, target=t, lb=a_lb, ub=a_ub, mc=a_mc):
            r = modify_tensor(o, t, lb=a_lb, ub=a_ub, max_change=a_mc)
        ctx.close(r, exp, "value:copy", "result", **tol)
        ctx.check(r.data_ptr() != o.data_ptr(), "aliases-original", "the copying form returned the memory of the original")
    ctx.check(r.dtype == dtype, "dtype", str(r.dtype))

    # the vector form, batched
    if (lb is None) == (ub is None):
        nb = ctx.randint(1, 4)
        O = ctx.np.normal(size=(nb, n)).astype(npd).astype(np.float64)
        T = (O + ctx.np.normal(size=(nb, n))).astype(npd).astype(np.float64)
        plain = lb is not None and ctx.flip(0.3)
        if plain:
            # one number for all elements
            lbv, ubv = np.full(n, npd(O.min() - 0.3), dtype=float), np.full(n, npd(O.max() + 0.3), dtype=float)
            ctx.event("scalar_bounds")
        elif lb is not None:
            lbv, ubv = O.min(0) - 0.3, O.max(0) + 0.3
        else:
            lbv = ubv = None
        mcv = None if mc is None else (np.full(n, mc[0]))
        exps = np.stack([_expected(O[i], T[i], lbv, ubv, mcv) for i in range(nb)])
        to = torch.tensor(O, dtype=dtype)
        tt = torch.tensor(T, dtype=dtype)
        kw = {}
        if lbv is not None:
            kw["lb"] = torch.tensor(lbv, dtype=dtype)
            kw["ub"] = torch.tensor(ubv, dtype=dtype)
            if plain:
                kw["lb"], kw["ub"] = ctx.choice([(kw["lb"][0], kw["ub"][0]), (float(lbv[0]), float(ubv[0])), (kw["lb"], float(ubv[0])), (kw["lb"][0], kw["ub"])])
            elif ctx.flip(0.3):
                kw["lb"], kw["ub"] = kw["lb"].expand(nb, n), kw["ub"].expand(nb, n)
            else:
                for one in ("lb", "ub"):
                    ctx.raises(ValueError, lambda: modify_vector(to, tt, **{one: kw[one]}), "one-sided", f"only {one} was given")
        if mcv is not None:
            c = torch.tensor(mcv, dtype=dtype)
            kw["max_change"] = ctx.choice([c, c[0], float(npd(mcv[0])), c.expand(nb, n)])
        ctx.event("batched_vectors")
        with Frozen(ctx, "argument-modified:modify_vector", o=to, t=tt):
            r = modify_vector(to, tt, **kw)
            r1 = modify_vector(to[0], tt[0], **{k: (v[0] if isinstance(v, torch.Tensor) and v.ndim == 2 else v) for k, v in kw.items()})
        ctx.close(r, exps, "value:vector", f"modify_vector batch of {nb}", rtol=1e-5, atol=1e-6)
        ctx.close(r1, exps[0], "value:vector1", "modify_vector single", rtol=1e-5, atol=1e-6)
        # item by item equal to the plain form
        for i in range(nb):
            p = modify_tensor(to[i], tt[i], lb=None if lbv is None else torch.tensor(lbv, dtype=dtype), ub=None if ubv is None else torch.tensor(ubv, dtype=dtype), max_change=None if mcv is None else torch.tensor(mcv, dtype=dtype))
            ctx.close(r[i], p, "vector-vs-tensor", f"item {i}", rtol=1e-5, atol=1e-6)
    ctx.sample(n=n, lb=lb is not None, ub=ub is not None, max_change=mc is not None, scalar=scalar, in_place=in_place)


@scenario("C35", quick=400, thorough=8000)
def clipping(ctx):
    shape = ctx.choice([(5,), (3, 4), (1,)])
    dtype = ctx.choice([torch.float32, torch.float64, torch.int64])
    x = torch.tensor(ctx.np.integers(-20, 20, size=shape), dtype=dtype)
    lb = ctx.choice([None, -3, [float(v) for v in ctx.np.integers(-9, 0, size=shape[-1])]])
    ub = ctx.choice([None, 4, [float(v) for v in ctx.np.integers(0, 9, size=shape[-1])]])
    ec = ctx.flip()
    exp = to_np(x).astype(np.float64)
    if lb is not None:
        exp = np.maximum(exp, np.asarray(lb, dtype=np.float64))
    if ub is not None:
        exp = np.minimum(exp, np.asarray(ub, dtype=np.float64))
    ctx.state(shape, str(dtype), lb is None, isinstance(lb, list), ub is None, isinstance(ub, list), ec)
    with Frozen(ctx, "clip-modified-input", x=x):
        r = clip_tensor(x, lb, ub, ensure_copy=ec) if ctx.flip() else clip_tensor(x, lb=lb, ub=ub, ensure_copy=ec)
        ctx.close(r, exp, "clip-value", f"lb={lb} ub={ub}", rtol=0, atol=1e-6)
        ctx.check(r.dtype == dtype, "clip-dtype", str(r.dtype))
    if ec:
        r += 1
        ctx.close(x.to(torch.float64), to_np(x), "clip-alias", "input")
        ctx.check(r.data_ptr() != x.data_ptr(), "clip-alias", "ensure_copy=True returned the input")
    # vectors of a given length
    n = ctx.randint(1, 5)
    s = float(ctx.randint(-5, 5))
    v = ensure_tensor_length_and_dtype(s, n, "float32")
    ctx.same(v, np.full(n, s, dtype=np.float32), "length-scalar", "scalar expanded")
    ctx.same(ensure_tensor_length_and_dtype(s, n, "float32", allow_scalar=True), np.float32(s), "length-allow-scalar", "")
    vec = [float(i) for i in range(n)]
    ctx.same(ensure_tensor_length_and_dtype(vec, n, "float64"), np.array(vec), "length-vector", "")
    ctx.raises(ValueError, lambda: ensure_tensor_length_and_dtype(vec + [1.0], n, "float32", about="x"), "length-mismatch-accepted", "")


def _problem(n):
    return Problem("min", lambda x: torch.sum(x**2, dim=-1), solution_length=n, initial_bounds=(-1, 1), vectorized=True, seed=1)


@scenario("C35", quick=200, thorough=3000, needs=["spread_radius", "spread_scalar", "spread_vector", "functional_spread"])
def spread_initialisation(ctx):
    n = ctx.randint(1, 8)
    how = ctx.choice(["radius", "scalar", "vector"])
    val = ctx.choice([0.5, 2, 3.0, 0.01])
    ctx.event("spread_" + how)
    ctx.state(n, how, val)
    if how == "radius":
        kw = dict(radius_init=val)
        exp = np.full(n, val / np.sqrt(n))
        ctx.close(stdev_from_radius(val, n), exp[0], "radius", "", rtol=1e-6)
        ctx.close(to_stdev_init(solution_length=n, radius_init=val), exp[0], "radius", "", rtol=1e-6)
    elif how == "scalar":
        kw = dict(stdev_init=val)
        exp = np.full(n, val)
    else:
        exp = ctx.np.uniform(0.1, 3, size=n)
        kw = dict(stdev_init=torch.tensor(exp, dtype=torch.float32) if ctx.flip() else exp.tolist())
    kind = ctx.choice(["SNES", "PGPE", "CEM", "pgpe", "cem"])
    ctx.state(kind, how)
    center = ctx.np.normal(size=n)
    if kind in ("SNES", "PGPE", "CEM"):
        p = _problem(n)
        c = torch.tensor(center, dtype=torch.float32)
        if kind == "SNES":
            s = SNES(p, center_init=c, **kw)
        elif kind == "PGPE":
            s = PGPE(p, popsize=4, center_learning_rate=0.1, stdev_learning_rate=0.1, center_init=c, **kw)
        else:
            s = CEM(p, popsize=4, parenthood_ratio=0.5, center_init=c, **kw)
        got, gc = s.status["stdev"], s.status["center"]
        cls = {"SNES": SNES, "PGPE": PGPE, "CEM": CEM}[kind]
    else:
        ctx.event("functional_spread")
        dtype = ctx.choice([torch.float32, torch.float64])
        nb = ctx.choice([None, 3])
        c = torch.tensor(center, dtype=dtype)
        if nb is not None:
            c = c.expand(nb, n)
            exp = np.broadcast_to(exp, (nb, n))
            center = np.broadcast_to(center, (nb, n))
            if how == "radius" and ctx.flip():
                rr = np.array([0.5, 1.0, 2.0])
                kw = dict(radius_init=torch.tensor(rr, dtype=dtype))
                exp = np.repeat((rr / np.sqrt(n))[:, None], n, axis=1)
        if kind == "pgpe":
            st = pgpe(center_init=c, center_learning_rate=0.1, stdev_learning_rate=0.1, objective_sense="min", **kw)
        else:
            st = cem(center_init=c, parenthood_ratio=0.5, objective_sense="min", **kw)
        got, gc = st.stdev, (st.center if kind == "cem" else st.optimizer_state.center)
        got = torch.as_tensor(got)
        ctx.check(got.dtype == dtype, "stdev-dtype", f"{got.dtype} for a center of {dtype}")
        got = got.expand(exp.shape)
    ctx.close(got, exp, f"stdev-init:{how}", kind, rtol=1e-5)
    ctx.close(gc, center, "center-init", kind, rtol=1e-5)
    ctx.raises(ValueError, lambda: to_stdev_init(solution_length=n), "neither-accepted", "neither stdev nor radius")
    ctx.raises(ValueError, lambda: to_stdev_init(solution_length=n, stdev_init=1, radius_init=1), "both-accepted", "both stdev and radius")
    ctx.sample(kind=kind, how=how, n=n)
