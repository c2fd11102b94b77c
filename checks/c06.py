"""C06: sorting and selecting solutions always follows the objective direction."""

import numpy as np
import torch
from evotorch import Problem

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen
from checks.c09 import _weights

rule("C06", "A case is one set of fitnesses (ties, infinities, duplicates, several objectives and directions) and every ordering operation on it.")
ASSUMPTIONS = ["fitnesses are known (free of NaN) when they are ordered"]


def _fits(ctx, n, nobj, double):
    kind = ctx.choice(["distinct", "distinct", "ties", "constant", "inf", "huge", "close"])
    if kind == "distinct":
        v = np.stack([ctx.np.permutation(n).astype(float) * 2 - n for _ in range(nobj)], axis=1)
    elif kind == "ties":
        v = ctx.np.integers(-2, 3, size=(n, nobj)).astype(float)
    elif kind == "constant":
        v = np.full((n, nobj), 3.5)
    elif kind == "inf":
        v = ctx.np.normal(size=(n, nobj))
        v[ctx.np.random((n, nobj)) < 0.3] = np.inf
        v[ctx.np.random((n, nobj)) < 0.3] = -np.inf
    elif kind == "huge":
        v = ctx.np.normal(size=(n, nobj)) * 10.0 ** ctx.np.integers(-20, 20, size=(n, nobj))
    else:
        v = 1000.0 + ctx.np.permutation(n * nobj).reshape(n, nobj) * 1e-3
    if double and kind == "huge":
        v = v * 10.0 ** ctx.np.integers(-10, 200, size=(n, nobj))
    if double and kind == "close":
        v = 1000.0 + ctx.np.permutation(n * nobj).reshape(n, nobj) * 1e-11
    return kind, v


@scenario("C06", quick=1500, thorough=40000, needs=["min", "max", "ties", "take_best", "utility", "compare", "multi_objective", "extra_columns", "view"])
def orderings(ctx):
    n = ctx.choice([1, 2, 3, 5, 8, 20, 33])
    nobj = ctx.choice([1, 1, 2, 3])
    ndata = ctx.choice([0, 0, 2])
    edt = ctx.choice([torch.float32, torch.float64])
    kind, v = _fits(ctx, n, nobj, edt == torch.float64)
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    vdt = ctx.choice([torch.float32, torch.float64])
    p = Problem(senses if nobj > 1 or ctx.flip() else senses[0], lambda x: x, solution_length=2, initial_bounds=(-1, 1), dtype=vdt, eval_dtype=edt, eval_data_length=ndata)
    big = p.generate_batch(2 * n)
    big.set_values(torch.arange(4 * n, dtype=vdt).reshape(2 * n, 2))
    b = ctx.choice([lambda: big[:n], lambda: big[n:], lambda: big[::2]])() if ctx.flip() else p.generate_batch(n)
    if b.values.shape != (2 * n, 2):
        ctx.event("view")
    b.set_values(torch.arange(2 * n, dtype=vdt).reshape(n, 2))
    b.set_evals(torch.tensor(np.hstack([v, ctx.np.normal(size=(n, ndata))]), dtype=edt))
    f = to_np(b.evals).astype(np.float64)[:, :nobj]
    if ndata:
        ctx.event("extra_columns")
    if nobj > 1:
        ctx.event("multi_objective")
    if kind == "ties":
        ctx.event("ties")
    ctx.state(kind, n, tuple(senses), ndata)
    for k in range(nobj):
        ctx.event(senses[k])
        up = senses[k] == "max"
        good = f[:, k] if up else -f[:, k]  # higher is better
        karg = None if nobj == 1 and ctx.flip() else ctx.choice([k, k - nobj])
        with Frozen(ctx, "modified-by-ordering", values=b.values, evals=b.evals):
            order = to_np(b.argsort(karg))
            ctx.check(sorted(order.tolist()) == list(range(n)), "argsort-permutation", f"{order}")
            ctx.check(np.all(np.diff(good[order]) <= 0) if n > 1 and np.isfinite(good).all() else np.array_equal(good[order], np.sort(good)[::-1]), f"argsort-order:{senses[k]}", lambda: f"objective {k}: best-first fitnesses {f[order, k]}")
            ib, iw = int(b.argbest(karg)), int(b.argworst(karg))
            ctx.check(good[ib] == good.max(), f"argbest:{senses[k]}", f"objective {k}: {f[ib, k]} from {f[:, k]}")
            ctx.check(good[iw] == good.min(), f"argworst:{senses[k]}", f"objective {k}: {f[iw, k]} from {f[:, k]}")
            ctx.check(good[order[0]] == good[ib] and good[order[-1]] == good[iw], "order-disagrees", "first and last of the sorting against best and worst")
            # selecting n best
            m = ctx.randint(0, n)
            top = b.take_best(m, obj_index=karg) if nobj > 1 or karg is not None else b.take_best(m)
            ctx.event("take_best")
            ids = (to_np(top.values)[:, 0] / 2).astype(int)
            ctx.check(len(top) == m and len(set(ids.tolist())) == m, "take-best-count", f"{len(top)} rows {ids}, requested {m}")
            rest = [i for i in range(n) if i not in set(ids.tolist())]
            if m and rest:
                ctx.check(good[ids].min() >= good[rest].max(), f"take-best:{senses[k]}", lambda: f"objective {k}: kept {f[ids, k]}, left out {f[rest, k]}")
            ctx.same(to_np(top.evals)[:, :nobj].astype(np.float64), f[ids], "take-best-rows", "values and fitnesses stay together")
            # pairwise
            i, j = ctx.randint(0, n - 1), ctx.randint(0, n - 1)
            a, c = b[i], b[j]
            ctx.event("compare")
            if np.isfinite(good[i]) and np.isfinite(good[j]):
                ctx.check(bool(p.is_better(a, c, karg)) == bool(good[i] > good[j]), f"is-better:{senses[k]}", f"{f[i, k]} against {f[j, k]}")
                ctx.check(bool(p.is_worse(a, c, karg)) == bool(good[i] < good[j]), f"is-worse:{senses[k]}", f"{f[i, k]} against {f[j, k]}")
                s = float(p.compare_solutions(a, c, karg))
                ctx.check(np.sign(s) == np.sign(good[i] - good[j]), f"compare:{senses[k]}", f"{s} for {f[i, k]} against {f[j, k]}")
            # utilities
            ctx.event("utility")
            u = b.utility(karg)
            ctx.check(u.dtype == edt and tuple(u.shape) == (n,), "utility-shape", f"{u.dtype} {u.shape}")
            ctx.same(to_np(u).astype(np.float64), good, f"utility:{senses[k]}", "plain utilities")
            uv = b.utility(karg, using_values_dtype=True)
            ctx.check(uv.dtype == vdt, "utility-dtype", f"{uv.dtype}, values are {vdt}")
            if kind != "huge":
                ctx.close(uv, good, "utility-values-dtype", "plain utilities in the dtype of the values", rtol=1e-5)
            method = ctx.choice(["centered", "linear", "nes", "raw", "normalized"])
            if n >= 2 and not (method == "normalized" and (kind in ("constant", "inf", "huge", "close") or np.ptp(good) == 0)) and not (kind == "inf" and method in ("raw",)):
                u = to_np(b.utility(karg, ranking_method=method)).astype(np.float64)
                o2 = np.argsort(-good, kind="stable")
                if method in ("centered", "linear", "nes"):
                    ctx.close(np.sort(u), np.sort(_weights(method, n)), f"utility-scale:{method}", "")
                elif method == "raw":
                    ctx.same(u, good, f"utility-scale:{method}", "")
                else:
                    ctx.close(u.mean(), 0.0, "utility-scale:normalized", "mean", atol=1e-4)
                    ctx.close(u.std(ddof=1), 1.0, "utility-scale:normalized", "deviation", rtol=1e-3)
                for x, y in zip(o2[:-1], o2[1:]):
                    if good[x] > good[y]:
                        ctx.check(u[x] >= u[y], f"utility-order:{method}:{senses[k]}", f"fitness {f[x, k]} has utility {u[x]}, worse fitness {f[y, k]} has {u[y]}")
                uv = b.utility(karg, ranking_method=method, using_values_dtype=True)
                ctx.check(uv.dtype == vdt, "utility-dtype", f"{uv.dtype}, values are {vdt}")
                if not (method == "raw" and kind == "huge"):
                    ctx.close(uv, u, "utility-values-dtype", "", rtol=1e-5)
    us = b.utils()
    ctx.same(to_np(us).astype(np.float64), np.stack([f[:, k] if senses[k] == "max" else -f[:, k] for k in range(nobj)], axis=1), "utils", "table of utilities")
    us = b.utils(using_values_dtype=True)
    ctx.check(us.dtype == vdt, "utility-dtype", f"table of {us.dtype}, values are {vdt}")
    if kind != "huge":
        ctx.close(us, np.stack([f[:, k] if senses[k] == "max" else -f[:, k] for k in range(nobj)], axis=1), "utils", "table of utilities in the dtype of the values", rtol=1e-5)
    if n >= 2:
        us = b.utils(ranking_method="linear")
        for k in range(nobj):
            ctx.close(us[:, k], b.utility(k, ranking_method="linear"), "utils-ranked", f"objective {k}")
    if nobj == 1:
        ctx.same(b.utility(), b.utility(0), "utility-default", "")
    else:
        ctx.same(b.utility(), b.utils(), "utility-default-multi", "")
        for fn in (b.argsort, b.argbest, b.argworst):
            ctx.raises(ValueError, lambda: fn(), "objective-needed", fn.__name__)
        ctx.raises(ValueError, lambda: p.is_better(b[0], b[0]), "objective-needed", "is_better")
    ctx.sample(kind=kind, n=n, senses=senses)


@scenario("C06", quick=100, thorough=1000, needs=["sense_rejected", "unevaluated_rejected"])
def declared_senses(ctx):
    for bad in ["minimize", "MAX", "", 1, None, True]:
        ctx.raises(Exception, lambda: Problem(bad, lambda x: x, solution_length=1, initial_bounds=(0, 1)), "sense-accepted", repr(bad))
        ctx.raises(Exception, lambda: Problem(["min", bad], lambda x: x, solution_length=1, initial_bounds=(0, 1)), "sense-accepted", f"['min', {bad!r}]")
        ctx.event("sense_rejected", 2)
    ctx.raises(ValueError, lambda: Problem([], lambda x: x, solution_length=1, initial_bounds=(0, 1)), "sense-accepted", "[]")
    senses = [ctx.choice(["min", "max"]) for _ in range(ctx.randint(1, 4))]
    p = Problem(senses, lambda x: x, solution_length=1, initial_bounds=(0, 1))
    ctx.check(list(p.senses) == senses and p.is_multi_objective == (len(senses) > 1), "senses", f"{p.senses}")
    ctx.check(p.objective_sense == (senses[0] if len(senses) == 1 else senses), "objective-sense", f"{p.objective_sense}")
    ctx.check(list(p.get_obj_order_descending()) == [s == "max" for s in senses], "descending", "")
    for k in range(-len(senses), len(senses)):
        ctx.check(p.normalize_obj_index(k) == k % len(senses), "normalize-index", f"{k}")
    for k in (len(senses), -len(senses) - 1):
        ctx.raises(IndexError, lambda: p.normalize_obj_index(k), "normalize-index-accepted", f"{k}")
    b = p.generate_batch(3)
    ctx.raises(ValueError, lambda: b.utility(0), "utility-of-unevaluated", "")
    ctx.event("unevaluated_rejected")
    b.set_evals(torch.zeros(3, len(senses)))
    b[1].set_values([0.5])
    ctx.raises(ValueError, lambda: b.utility(0), "utility-of-unevaluated", "one of three")
    ctx.state(tuple(senses))
    ctx.sample(senses=senses)
