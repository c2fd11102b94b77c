"""C33: constraint penalties."""

import numpy as np
import torch
from evotorch.tools import log_barrier, penalty, violation

from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C33", "A case is one pair of (possibly batched) constraint sides and one configuration of the penalty functions.")
ASSUMPTIONS = ["the exponent of the exponential penalty is positive"]


def _viol(l, c, r):
    return np.maximum(r - l, 0) if c == ">=" else np.maximum(l - r, 0) if c == "<=" else np.abs(l - r)


@scenario("C33", quick=3000, thorough=60000, needs=["violated", "satisfied", "boundary", "batched", "log_barrier", "exp_clipped", "smallest_violation"])
def constraint_functions(ctx):
    dtype = ctx.choice([torch.float32, torch.float64])
    npd = np.float32 if dtype is torch.float32 else np.float64
    batch = ctx.choice([(), (), (4,), (2, 3)])
    if batch:
        ctx.event("batched")

    def draw(sh, lo=-3, hi=3, grid=True):
        return (ctx.np.integers(lo * 2, hi * 2 + 1, size=sh) / 2.0 if grid else ctx.np.uniform(lo, hi, size=sh)).astype(npd)

    def side():
        sh = batch if ctx.flip(0.7) else (batch[1:] if len(batch) == 2 and ctx.flip() else ())
        return draw(sh, grid=ctx.flip(0.6))

    l, r = side(), side()
    if ctx.flip(0.15):
        # just beside each other
        r = np.nextafter(l, npd(ctx.choice([np.inf, -np.inf])), dtype=npd)
        ctx.event("smallest_violation")
    comp = ctx.choice([">=", "<=", "=="])
    lt = torch.tensor(l)
    rt = torch.tensor(r)
    ra = float(r) if r.shape == () and ctx.flip() else rt
    la = lt
    if not isinstance(ra, float) and l.shape == () and ctx.flip():
        la = float(l)
    if ctx.flip(0.1) and not isinstance(ra, float):
        la = l.copy() if l.shape else la
    ld, rd = l.astype(np.float64), r.astype(np.float64)
    v = _viol(ld, comp, rd)
    ctx.event("violated", int(np.sum(v > 0)))
    ctx.event("satisfied", int(np.sum(v == 0)))
    ctx.event("boundary", int(np.sum(ld == rd)))
    out_shape = np.broadcast_shapes(l.shape, r.shape)
    ctx.state(comp, l.shape, r.shape, str(dtype), type(la).__name__, type(ra).__name__)
    with Frozen(ctx, "argument-modified", l=lt, r=rt):
        got = violation(la, comp, ra)
    ctx.close(got, v, f"violation:{comp}", "violation", rtol=1e-5)
    ctx.check(tuple(got.shape) == out_shape, "violation-shape", str(got.shape))

    # penalty
    kw, lin, step, ex, exinf = {}, 0.0, 0.0, None, np.inf

    def hyper(vals):
        x = ctx.choice(vals)
        if ctx.flip(0.3):
            # a batch of hyperparameters matching the output shape
            a = np.array([ctx.choice(vals) for _ in range(int(np.prod(out_shape)) if out_shape else 1)]).reshape(out_shape)
            return torch.tensor(a, dtype=dtype), a.astype(npd).astype(np.float64)
        return (x if ctx.flip() else torch.tensor(x, dtype=dtype)), np.float64(npd(x))

    if ctx.flip(0.6):
        kw["linear"], lin = hyper([0.0, 1.0, 2.5, 10.0])
    if ctx.flip(0.6):
        kw["step"], step = hyper([0.0, 1.0, 100.0])
    if ctx.flip(0.6):
        kw["exp"], ex = hyper([1.0, 2.0, 3.0, 0.5])
        if ctx.flip(0.6):
            kw["exp_inf"], exinf = hyper([1.0, 4.0, 1000.0])
    sign = ctx.choice(["+", "-"])
    e = lin * v + np.where(v > 0, step, 0.0)
    if ex is not None:
        p = v**ex
        if np.any(p > exinf):
            ctx.event("exp_clipped")
        e = e + np.minimum(p, exinf)
    e = e if sign == "+" else -e
    ctx.note("penalty", l, comp, r, kw, sign)
    ctx.state(comp, tuple(sorted(kw)), sign, out_shape)
    got = penalty(la, comp, ra, penalty_sign=sign, **kw)
    ctx.close(got, np.broadcast_to(e, np.broadcast_shapes(out_shape, np.shape(e))), f"penalty:{comp}:{sign}:{'+'.join(sorted(kw))}", "penalty", rtol=1e-4)
    g = got.to(torch.float64)
    ctx.check(bool(torch.all(g >= 0)) if sign == "+" else bool(torch.all(g <= 0)), "penalty-sign", f"{sign}: {got}")
    sat = torch.tensor(v == 0)
    if bool(torch.any(sat)):
        ctx.check(bool(torch.all(g[sat.expand(g.shape)] == 0)), "penalty-satisfied", "a satisfied constraint is penalised")

    # log barrier
    if comp != "==":
        ctx.event("log_barrier")
        kw = {}
        sh, inf = np.float64(1.0), np.inf
        if ctx.flip(0.6):
            kw["sharpness"], sh = hyper([1.0, 2.0, 10.0])
        if ctx.flip(0.6):
            kw["inf"], inf = hyper([10.0, 1.0, 1000.0])
        slack = np.maximum(ld - rd if comp == ">=" else rd - ld, 0.0)
        with np.errstate(divide="ignore"):
            e = np.log(slack) / sh
        e = np.maximum(e, -inf)
        e = e if sign == "-" else -e
        got = log_barrier(la, comp, ra, penalty_sign=sign, **kw)
        ctx.close(got, np.broadcast_to(e, np.broadcast_shapes(out_shape, np.shape(e))), f"log-barrier:{comp}:{sign}", f"sharpness {sh} inf {inf}", rtol=1e-3, atol=1e-5)
    else:
        ctx.raises(ValueError, lambda: log_barrier(la, "==", ra, penalty_sign=sign), "log-barrier-equality", "")
    ctx.raises(ValueError, lambda: violation(lt, "<", rt), "bad-comparison", "'<'")
    ctx.raises(ValueError, lambda: penalty(lt, comp, rt, penalty_sign="x", linear=1.0), "bad-sign", "")
    # item independence: the batched value equals the value for the item alone
    if l.shape == r.shape == batch and batch:
        full = penalty(lt, comp, rt, penalty_sign=sign, linear=1.5, step=2.0)
        idx = tuple(ctx.randint(0, s - 1) for s in batch)
        one = penalty(lt[idx], comp, rt[idx], penalty_sign=sign, linear=1.5, step=2.0)
        ctx.close(full[idx], one, "item-independence", f"item {idx}", rtol=1e-6)
    ctx.sample(lhs=l.tolist(), comparison=comp, rhs=r.tolist(), sign=sign)
