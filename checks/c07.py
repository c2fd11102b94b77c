"""C07: pareto fronts and crowding selection match their definition."""

import numpy as np
import torch
from evotorch import Problem

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C07", "A case is one table of fitnesses for several objectives with a mix of directions.")
ASSUMPTIONS = [
    "fitnesses are known and finite",
    "the crowding distance of a solution is the NSGA-II one, normalised within its front; orders are only compared where distances differ clearly",
]


def _layers(u):
    """reference: peel off non-dominated layers, comparing all pairs"""
    beaten = np.array([[bool(np.all(b >= a) and np.any(b > a)) for b in u] for a in u]) if len(u) < 40 else (u[None] >= u[:, None]).all(-1) & (u[None] > u[:, None]).any(-1)
    left = np.arange(len(u))
    fronts = []
    while len(left):
        free = ~beaten[np.ix_(left, left)].any(axis=1)
        fronts.append(left[free].tolist())
        left = left[~free]
    return fronts


def _crowding(u):
    n, m = u.shape
    d = np.zeros(n)
    for k in range(m):
        o = np.argsort(u[:, k], kind="stable")
        rng = max(u[o[-1], k] - u[o[0], k], 1e-8)
        d[o[0]] = d[o[-1]] = np.inf
        for a in range(1, n - 1):
            d[o[a]] += (u[o[a + 1], k] - u[o[a - 1], k]) / rng
    return d


def _table(ctx):
    n = ctx.choice([1, 2, 3, 4, 6, 10, 20, 30])
    m = ctx.choice([2, 2, 2, 3, 4])
    kind = "crowd" if ctx.flip(0.04) else ctx.choice(["random", "front", "ties", "duplicates", "chain", "grid", "correlated", "scaled"])
    if kind == "random":
        u = ctx.np.normal(size=(n, m))
    elif kind == "front":
        a = np.sort(ctx.np.random(n))
        u = np.stack([a] + [1 - a if k % 2 == 0 else np.sqrt(np.maximum(0, 1 - a**2)) for k in range(m - 1)], axis=1)
        u = u[ctx.np.permutation(n)]
    elif kind == "ties":
        u = ctx.np.integers(0, 3, size=(n, m)).astype(float)
    elif kind == "duplicates":
        u = ctx.np.normal(size=(max(1, n // 2), m))
        u = u[ctx.np.integers(0, len(u), size=n)]
    elif kind == "chain":
        u = np.repeat(ctx.np.permutation(n).astype(float)[:, None], m, axis=1)
    elif kind == "grid":
        u = np.stack([ctx.np.permutation(n).astype(float) for _ in range(m)], axis=1)
    elif kind == "correlated":
        z = ctx.np.normal(size=(n, 1))
        u = z + 0.3 * ctx.np.normal(size=(n, m))
    elif kind == "crowd":
        # a large front, and solutions which all of it dominates
        n, k = ctx.randint(60, 300), ctx.randint(1, 6)
        a = ctx.np.permutation(n).astype(float)
        u = np.stack([a if j % 2 == 0 else -a for j in range(m)], axis=1)
        u = np.vstack([u, -float(2 * n) - ctx.np.integers(1, 5, size=(k, m))])[ctx.np.permutation(n + k)]
    else:
        u = ctx.np.normal(size=(n, m)) * np.array([1e-3, 1e3, 1.0, 10.0])[:m]
    return kind, u


@scenario("C07", quick=1200, thorough=30000, needs=["min", "max", "several_fronts", "single_front", "partial_front", "crowding_compared", "ties", "chain", "three_objectives", "large_front"])
def fronts_and_selection(ctx):
    kind, u = _table(ctx)
    n, m = u.shape
    edt = ctx.choice([torch.float32, torch.float64])
    senses = [ctx.choice(["min", "max"]) for _ in range(m)]
    sign = np.array([1.0 if s == "max" else -1.0 for s in senses])
    p = Problem(senses, lambda x: x, solution_length=2, initial_bounds=(-1, 1), eval_dtype=edt, eval_data_length=ctx.choice([None, 1]))
    b = p.generate_batch(n)
    b.set_values(torch.arange(2 * n, dtype=torch.float32).reshape(n, 2))
    b.set_evals(torch.tensor(u * sign, dtype=edt))
    u = to_np(b.evals).astype(np.float64)[:, :m] * sign
    fronts = _layers(u)
    rank = np.zeros(n, dtype=int)
    for r, fr in enumerate(fronts):
        rank[fr] = r
    for s in senses:
        ctx.event(s)
    ctx.event("several_fronts" if len(fronts) > 1 else "single_front")
    if kind in ("ties", "chain"):
        ctx.event(kind)
    if max(map(len, fronts)) >= 60:
        ctx.event("large_front")
    if m >= 3:
        ctx.event("three_objectives")
    ctx.state(kind, n, tuple(senses), len(fronts))
    dist = np.zeros(n)
    generic = kind != "crowd" and all(len(set(u[:, k].tolist())) == n for k in range(m)) or kind == "chain"
    for fr in fronts:
        dist[fr] = _crowding(u[fr])

    def clearly_more(x, y):
        """is distance x clearly larger than y?"""
        if np.isinf(x) and np.isinf(y):
            return False
        return x > y + 1e-3 * (1 + (abs(y) if np.isfinite(y) else 0))

    with Frozen(ctx, "modified-by-sorting", values=b.values, evals=b.evals):
        ranks, crowd = b.compute_pareto_ranks(crowdsort=True)
        ctx.same(ranks, rank, f"ranks:{kind}", "pareto ranks")
        r2, c2 = b.compute_pareto_ranks(crowdsort=False)
        ctx.same(r2, rank, f"ranks:{kind}", "pareto ranks without crowding")
        ctx.check(c2 is None, "crowd-ranks-unrequested", "")
        crowd = to_np(crowd)
        for fr in fronts:
            ctx.check(sorted(crowd[fr].tolist()) == list(range(len(fr))), "crowd-ranks-range", f"front {fr}: crowding ranks {crowd[fr]}")
            if generic:
                ctx.event("crowding_compared")
                for x in fr:
                    for y in fr:
                        if clearly_more(dist[x], dist[y]):
                            ctx.check(crowd[x] < crowd[y], "crowd-ranks-order", f"solution {x} (distance {dist[x]}) has rank {crowd[x]}, solution {y} (distance {dist[y]}) has {crowd[y]}")
        for cs in (True, False):
            info = b.arg_pareto_sort(crowdsort=cs)
            ctx.same(info.ranks, rank, f"ranks:{kind}", "arg_pareto_sort")
            got = [[int(i) for i in fr] for fr in info.fronts]
            ctx.check(len(got) == len(fronts) and all(sorted(a) == sorted(e) for a, e in zip(got, fronts)), f"fronts:{kind}", f"{got}, expected {fronts}")
            if cs and generic:
                for fr in got:
                    for x, y in zip(fr[:-1], fr[1:]):
                        ctx.check(not clearly_more(dist[y], dist[x]), "front-crowd-order", f"front {fr}: distances {dist[fr]}")
        for q in {1, n, ctx.randint(0, n), ctx.randint(0, n)}:
            if q > n:
                continue
            top = b.take_best(q)
            ids = (to_np(top.values)[:, 0] / 2).astype(int).tolist()
            ctx.check(len(ids) == q and len(set(ids)) == q, "take-best-count", f"{ids}, requested {q}")
            ctx.same(to_np(top.evals)[:, :m].astype(np.float64) * sign, u[ids], "take-best-rows", "")
            rest = [i for i in range(n) if i not in set(ids)]
            if ids and rest:
                ctx.check(rank[ids].max() <= rank[rest].min(), "take-best-fronts", f"kept ranks {rank[ids]}, left out {rank[rest]}")
                last = rank[ids].max()
                kept = [i for i in ids if rank[i] == last]
                out = [i for i in rest if rank[i] == last]
                if out:
                    ctx.event("partial_front")
                    if generic:
                        for x in kept:
                            for y in out:
                                ctx.check(not clearly_more(dist[y], dist[x]), "take-best-crowding", f"kept solution {x} with distance {dist[x]}, left out solution {y} with distance {dist[y]}")
            # along one objective instead
            k = ctx.randint(0, m - 1)
            one = b.take_best(q, obj_index=k)
            ctx.same(np.sort(to_np(one.evals)[:, k].astype(np.float64) * sign[k])[::-1], np.sort(u[:, k])[::-1][:q], "take-best-one-objective", f"objective {k}")
    ctx.sample(kind=kind, n=n, senses=senses, fronts=len(fronts))


@scenario("C07", quick=2, thorough=24, needs=["many_fronts"])
def many_fronts(ctx):
    """selection within a late front of a large population"""
    F = ctx.randint(700, 1100)
    x = np.array([0.0, 2.0, 3.0, 10.0])  # the third solution of each front is less crowded than the second
    base = 100.0 * np.arange(F)[::-1]
    u = np.stack([base[:, None] + x, base[:, None] - 2 * x], axis=-1).reshape(-1, 2)
    order = ctx.np.permutation(len(u))
    senses = [ctx.choice(["min", "max"]) for _ in range(2)]
    sign = np.array([1.0 if s == "max" else -1.0 for s in senses])
    p = Problem(senses, lambda v: v, solution_length=1, initial_bounds=(-1, 1), dtype="float64")
    b = p.generate_batch(len(u), empty=True)
    b.set_values(torch.tensor(order[:, None].astype(float)))
    b.set_evals(torch.tensor(u[order] * sign))
    ranks, crowd = b.compute_pareto_ranks()
    ctx.same(ranks, order // 4, "ranks:many", "pareto ranks")
    for _ in range(3):
        r = ctx.choice([ctx.randint(0, F - 1), ctx.randint(F - 100, F - 1)])
        q = 4 * r + 3
        ids = sorted(int(i) for i in to_np(b.take_best(q).values)[:, 0])
        ctx.check(ids[: 4 * r] == list(range(4 * r)), "take-best-fronts", f"the first {r} fronts are not complete among {q} solutions")
        ctx.check(ids[4 * r :] == [4 * r, 4 * r + 2, 4 * r + 3], "take-best-crowding:many", f"of front {r}, {[i - 4 * r for i in ids[4 * r:]]} were kept: the most crowded is number 1")
        ctx.event("many_fronts")
    ctx.state(F, tuple(senses))
