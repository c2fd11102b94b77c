"""C15: variation operators respect bounds and conserve the parents' genes."""

import numpy as np
import torch
from evotorch import Problem, SolutionBatch
from evotorch.operators import CosynePermutation, CutAndSplice, GaussianMutation, MultiPointCrossOver, OnePointCrossOver, PolynomialMutation, SimulatedBinaryCrossOver, TwoPointCrossOver

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import fingerprint

rule("C15", "A case is one population (random size, length, type, bounds, senses, ties) put through one operator; children are traced back to the parents gene by gene.")
ASSUMPTIONS = ["the given population lies within the bounds of the problem", "tournament outcomes with a probability below 1e-8 are treated as impossible"]


def mk(ctx, dtype=None, bounded=None, n=None, nobj=None):
    n = ctx.randint(1, 6) if n is None else n
    nobj = ctx.choice([1, 1, 2]) if nobj is None else nobj
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    dtype = ctx.choice([torch.float32, torch.float64]) if dtype is None else dtype
    bounded = ctx.flip() if bounded is None else bounded
    kw = {}
    lb = ub = None
    if bounded:
        lb = ctx.np.integers(-5, 1, size=n).astype(float)
        ub = lb + ctx.np.integers(0, 6, size=n)
        if ctx.flip(0.3):
            lb, ub = np.full(n, -2.0), np.full(n, 3.0)
            kw["bounds"] = (-2, 3)
        else:
            kw["bounds"] = (lb.tolist(), ub.tolist()) if "float" in str(dtype) else ([int(i) for i in lb], [int(i) for i in ub])
    else:
        kw["initial_bounds"] = (-10, 10)
    p = Problem(senses if nobj > 1 else senses[0], lambda x: x.sum(), solution_length=n, dtype=dtype, eval_dtype=ctx.choice([torch.float32, torch.float64]), seed=ctx.randint(1, 10**6) if ctx.flip() else None, eval_data_length=ctx.choice([0, 0, 1]), **kw)
    return p, n, senses, lb, ub


def population(ctx, p, N, distinct=True):
    b = p.generate_batch(N)
    nev = len(p.senses) + (p.eval_data_length or 0)
    ev = np.stack([ctx.np.permutation(N) if distinct else ctx.np.integers(0, 3, size=N) for _ in range(nev)], axis=-1).astype(float)
    b.set_evals(torch.tensor(ev, dtype=p.eval_dtype))
    return b, ev


def use(ctx, op, b, key):
    """call the operator under monitors: untouched input, fresh unevaluated output of the right type"""
    before = fingerprint(b.values), fingerprint(b.evals)
    c = op(b)
    ctx.event("operator_calls")
    ctx.check((fingerprint(b.values), fingerprint(b.evals)) == before, f"input-changed:{key}", "the input population was modified")
    ctx.check(isinstance(c, SolutionBatch) and c is not b, f"result-type:{key}", f"{type(c)}")
    ctx.check(c.values.dtype == b.values.dtype and c.values.shape[1:] == b.values.shape[1:], f"result-dtype:{key}", f"{c.values.dtype} {tuple(c.values.shape)}")
    ctx.check(tuple(c.evals.shape) == (len(c), b.evals.shape[1]) and bool(torch.isnan(c.evals).all()) and c.evals.dtype == b.evals.dtype, f"evaluated:{key}", f"children carry evaluations {c.evals}")
    vals = to_np(c.values).copy()
    ctx.check(np.isfinite(vals.astype(float)).all(), f"nonfinite:{key}", lambda: f"children contain {vals}")
    c.access_values().zero_()
    ctx.check((fingerprint(b.values), fingerprint(b.evals)) == before, f"aliases-input:{key}", "writing to the children changed the parents")
    return vals


def in_bounds(ctx, vals, lb, ub, key):
    if lb is not None:
        ctx.event("bounded")
        ctx.check(bool(((vals >= lb) & (vals <= ub)).all()), f"bounds:{key}", lambda: f"{vals} outside {lb} .. {ub}")


def expected_children(ctx, N):
    """random num_children / cross_over_rate options and the allowed child counts"""
    k = ctx.choice(["none", "num", "rate"])
    if k == "none":
        return {}, {N + N % 2}
    if k == "num":
        m = 2 * ctx.randint(1, 6)
        return {"num_children": m}, {m}
    r = ctx.choice([1.0, 2.0, 0.75, 1.3, 0.5])
    f = N * r
    ok = {m for m in range(0, 60, 2) if abs(m - f) <= 1}
    if min(ok) < 2:
        return {}, {N + N % 2}
    return {"cross_over_rate": r}, ok


def pairs_ok(vals, src, cols, explain):
    """every pair (child i, child i + half) must be explained by some two rows of the population"""
    h = len(vals) // 2
    for i in range(h):
        if not any(explain(vals[i], vals[h + i], src[a], src[b]) for a in range(len(src)) for b in range(len(src))):
            return i
    return None


def swapped(points):
    def f(c1, c2, a, b):
        n = len(a)
        fromb = c1 == b
        froma = c1 == a
        if not np.all(fromb | froma):
            return False
        # complementary: what c1 took from one parent c2 took from the other
        if not np.all(((c1 == a) & (c2 == b)) | ((c1 == b) & (c2 == a))):
            return False
        # number of switches cannot exceed the number of cut points
        both = a == b
        seq = [bool(x) for x, t in zip(froma, both) if not t]
        return sum(1 for x, y in zip(seq, seq[1:]) if x != y) <= points
    return f


@scenario("C15", quick=500, thorough=12000, needs=["operator_calls", "bounded", "children_traced", "count:none", "count:num", "count:rate", "length_one", "odd_population", "views", "both_parents"])
def point_crossovers(ctx):
    p, n, senses, lb, ub = mk(ctx, dtype=ctx.choice([torch.float32, torch.float64, torch.int64]))
    N = ctx.randint(2, 7)
    b, _ = population(ctx, p, N, distinct=ctx.flip())
    if ctx.flip(0.3) and N > 3:
        b = b[1:] if ctx.flip() else b[::2]
        N = len(b)
        ctx.event("views")
    opts, counts = expected_children(ctx, N)
    ctx.event("count:" + ("num" if "num_children" in opts else "rate" if opts else "none"))
    if n == 1:
        ctx.event("length_one")
    if N % 2:
        ctx.event("odd_population")
    kind = ctx.choice(["one", "two", "multi"])
    oi = ctx.choice([None] + list(range(len(senses))))
    ts = ctx.randint(1, 4)
    pts = {"one": 1, "two": 2, "multi": ctx.randint(1, 5)}[kind]
    op = {"one": lambda: OnePointCrossOver(p, tournament_size=ts, obj_index=oi, **opts), "two": lambda: TwoPointCrossOver(p, tournament_size=ts, obj_index=oi, **opts), "multi": lambda: MultiPointCrossOver(p, tournament_size=ts, obj_index=oi, num_points=pts, **opts)}[kind]()
    src = to_np(b.values).copy()
    vals = use(ctx, op, b, kind)
    ctx.check(len(vals) in counts, f"count:{kind}", f"{len(vals)} children for {N} solutions and {opts}, expected {counts}")
    in_bounds(ctx, vals, lb, ub, kind)
    bad = pairs_ok(vals, src, n, swapped(pts))
    ctx.event("children_traced", len(vals))
    ctx.check(bad is None, f"genes:{kind}", lambda: f"children {vals[bad]} and {vals[len(vals) // 2 + bad]} do not descend from any two of {src.tolist()} with {pts} cut points")
    if kind == "one" and n > 1:
        # one-point crossover always cuts strictly inside: with parents differing in the first and last gene both ends must come from different parents
        h = len(vals) // 2
        for i in range(h):
            full = [(a, c) for a in range(len(src)) for c in range(len(src)) if swapped(1)(vals[i], vals[h + i], src[a], src[c])]
            if full and all(src[a][0] != src[c][0] and src[a][-1] != src[c][-1] for a, c in full):
                ctx.event("both_parents")
                ctx.check(any((vals[i][0] == src[a][0]) != (vals[i][-1] == src[a][-1]) for a, c in full), "one-point-cut", lambda: f"child {vals[i]} of {src[list(full)[0][0]]} and {src[list(full)[0][1]]} was not cut")
    ctx.raises(ValueError, lambda: OnePointCrossOver(p, tournament_size=2, num_children=2, cross_over_rate=1.0), "both-counts", "num_children together with cross_over_rate")
    ctx.raises(ValueError, lambda: OnePointCrossOver(p, tournament_size=2, num_children=3)(b), "odd-children", "odd num_children")
    ctx.raises(ValueError, lambda: MultiPointCrossOver(p, tournament_size=2, num_points=0), "zero-points", "num_points=0")
    ctx.state(kind, n, N, ts, str(p.dtype), tuple(opts), lb is None)
    ctx.sample(kind=kind, parents=src.tolist(), children=vals.tolist(), options=opts)


@scenario("C15", quick=300, thorough=6000, needs=["strong_tournament", "front_tournament", "uniform_tournament"])
def tournament_preference(ctx):
    mode = ctx.choice(["single", "indexed", "pareto", "uniform"])
    p, n, senses, lb, ub = mk(ctx, bounded=False, n=ctx.randint(2, 4), nobj=1 if mode == "single" else 2 if mode != "uniform" else None)
    N = ctx.randint(2, 5)
    b, ev = population(ctx, p, N)
    src = to_np(b.values)
    C = ctx.choice([OnePointCrossOver, TwoPointCrossOver])
    rows = lambda vals: {tuple(r) for r in vals.tolist()}
    if mode == "uniform":
        ctx.event("uniform_tournament")
        v = use(ctx, C(p, tournament_size=1, num_children=120, obj_index=0), b, "uniform")
        for j in range(n):
            ctx.check(set(v[:, j].tolist()) == set(src[:, j].tolist()), "uniform-selection", lambda: f"with tournaments of one, some solution was never chosen: {set(v[:, j].tolist())} of {set(src[:, j].tolist())}")
        big, _ = population(ctx, p, ctx.randint(20, 40))
        s2 = to_np(big.values)[:, 0].tolist()
        v = use(ctx, C(p, tournament_size=1, num_children=1200, obj_index=0), big, "uniform-many")[:, 0].tolist()
        ctx.check(set(v) == set(s2), "uniform-selection", lambda: f"with 1200 tournaments of one, solutions {[i for i, x in enumerate(s2) if x not in set(v)]} of {len(s2)} were never chosen")
    elif mode == "pareto":
        key = ev[:, :2] * np.array([1 if s == "max" else -1 for s in senses])
        front = [i for i in range(N) if not any(np.all(key[j] >= key[i]) and np.any(key[j] > key[i]) for j in range(N))]
        v = use(ctx, C(p, tournament_size=110, num_children=10), b, "pareto")
        ctx.event("front_tournament")
        for j in range(n):
            ctx.check(set(v[:, j].tolist()) <= {src[i, j].item() for i in front}, "pareto-tournament", lambda: f"a gene {v[:, j]} comes from outside of the first front {src[front, j]}")
    else:
        oi = ctx.choice([0, 1]) if mode == "indexed" else ctx.choice([None, 0])
        k = oi or 0
        best = int(np.argmax(ev[:, k])) if senses[k] == "max" else int(np.argmin(ev[:, k]))
        v = use(ctx, C(p, tournament_size=110, num_children=10, obj_index=oi), b, "strong")
        ctx.event("strong_tournament")
        ctx.check(rows(v) == rows(src[best : best + 1]), "tournament-best", lambda: f"large tournaments must pick {src[best]}, children are {v}")
        # a middle size: the mean rank of the parents must be clearly above uniform
        big, bev = population(ctx, p, 40)
        s2 = to_np(big.values)
        key = bev[:, k] if senses[k] == "max" else -bev[:, k]
        order = {tuple(s2[i].tolist()): r for r, i in enumerate(np.argsort(key))}
        pos = {s2[i, 0].item(): r for r, i in enumerate(np.argsort(key))}
        v = use(ctx, C(p, tournament_size=3, num_children=400, obj_index=oi), big, "medium")
        mean = np.mean([pos[x] for x in v[:, 0].tolist()])
        # expectation of the maximum of three uniform ranks of 40 is about 29.6, standard error about 0.4
        ctx.check(26.5 < mean < 32.5, "tournament-mean", f"mean parent rank {mean} of 0..39 with tournaments of three")
    ctx.state(mode, n, N, tuple(senses))
    ctx.sample(mode=mode, senses=senses)


@scenario("C15", quick=250, thorough=6000, needs=["bounded", "sbx_pairs", "sbx_spread"])
def simulated_binary(ctx):
    p, n, senses, lb, ub = mk(ctx, dtype=ctx.choice([torch.float32, torch.float64]))
    N = ctx.randint(2, 6)
    b, _ = population(ctx, p, N)
    opts, counts = expected_children(ctx, N)
    eta = ctx.choice([0.5, 2.0, 8.0, 20.0])
    src = to_np(b.values).astype(float).copy()
    vals = use(ctx, SimulatedBinaryCrossOver(p, tournament_size=ctx.randint(1, 3), eta=eta, obj_index=ctx.choice([None, 0]), **opts), b, "sbx").astype(float)
    ctx.check(len(vals) in counts, "count:sbx", f"{len(vals)} children for {N} and {opts}")
    in_bounds(ctx, vals, lb, ub, "sbx")
    if lb is None:
        ctx.event("sbx_pairs")
        tol = 1e-4 if p.dtype == torch.float32 else 1e-9
        sums_ok = lambda c1, c2, x, y: bool(np.all(np.abs((c1 + c2) - (x + y)) <= tol * (1 + np.abs(x) + np.abs(y) + np.abs(c1) + np.abs(c2))))
        bad = pairs_ok(vals, src, n, sums_ok)
        ctx.check(bad is None, "sbx-mean", lambda: f"children {vals[bad]}, {vals[len(vals) // 2 + bad]} are not placed symmetrically around the mean of two of {src}")
        # spread follows the published distribution
        q = Problem("min", lambda x: x.sum(), solution_length=2000, dtype=torch.float64, initial_bounds=(0, 1), seed=ctx.randint(1, 10**6))
        z = q.generate_batch(2)
        z.set_values(torch.stack([torch.zeros(2000), torch.ones(2000)]).to(torch.float64))
        z.set_evals(torch.tensor([1.0, 2.0]))
        v = to_np(SimulatedBinaryCrossOver(q, tournament_size=1, eta=eta, num_children=8)(z).values)
        h = len(v) // 2
        us = []
        for i in range(h):
            d = np.abs(v[i] - v[h + i])
            if np.all(d < 1e-12):
                continue
            us.append(np.where(d <= 1, 0.5 * d ** (eta + 1), 1 - 0.5 * np.maximum(d, 1e-300) ** -(eta + 1)))
        if us:
            u = np.concatenate(us)
            ctx.event("sbx_spread")
            ctx.check(abs(u.mean() - 0.5) < 0.05 and abs(u.var() - 1 / 12) < 0.012, "sbx-spread", f"spread factors do not follow the distribution for eta={eta}: mean {u.mean()}, variance {u.var()}")
    ctx.state(n, N, eta, str(p.dtype), lb is None)
    ctx.sample(eta=eta, parents=src.tolist(), children=vals.tolist())


@scenario("C15", quick=300, thorough=6000, needs=["bounded", "equal_bounds", "gaussian_moments", "polynomial_distribution", "partial_mutation", "own_ranges"])
def mutations(ctx):
    kind = ctx.choice(["gaussian", "polynomial"])
    p, n, senses, lb, ub = mk(ctx, bounded=True if kind == "polynomial" else None)
    N = ctx.randint(1, 6)
    b, _ = population(ctx, p, N)
    prob = ctx.choice([None, 0.0, 0.4, 1.0])
    kw = {} if prob is None else {"mutation_probability": prob}
    if kind == "gaussian":
        op = GaussianMutation(p, stdev=ctx.choice([0.01, 1.0, 100.0]), **kw)
    else:
        op = PolynomialMutation(p, **({"eta": ctx.choice([1.0, 5.0, 20.0])} if ctx.flip() else {}), **kw)
        if bool(np.any(lb == ub)):
            ctx.event("equal_bounds")
    src = to_np(b.values).copy()
    vals = use(ctx, op, b, kind)
    ctx.check(vals.shape == src.shape, f"count:{kind}", f"{vals.shape}")
    in_bounds(ctx, vals, lb, ub, kind)
    if prob == 0.0:
        ctx.same(vals, src, f"probability-zero:{kind}", "")
    # statistics on a large population
    L = 3000
    # twice: a unit interval, then a wide one
    if kind == "gaussian":
        rows = ctx.choice([2, 60])
        q = Problem("min", lambda x: x.sum(), solution_length=2 * L // rows, dtype=torch.float64, initial_bounds=(0, 1), seed=ctx.randint(1, 10**6))
        z = q.generate_batch(rows)
        sd = ctx.choice([0.1, 2.0])
        pr = ctx.choice([None, 0.3])
        d = to_np(GaussianMutation(q, stdev=sd, mutation_probability=pr)(z).values) - to_np(z.values)
        ch = d != 0
        if pr:
            ctx.event("partial_mutation")
            ctx.check(abs(ch.mean() - pr) < 0.045, "mutation-rate", f"{ch.mean()} of the variables changed, expected {pr}")
        else:
            ctx.check(ch.mean() > 0.99, "mutation-rate-all", f"{ch.mean()}")
        x = d[ch] / sd
        ctx.check(len(np.unique(np.round(x, 9))) > 0.99 * len(x), "gaussian-repeated", f"{len(x)} mutations moved by only {len(np.unique(np.round(x, 9)))} different amounts")
        ctx.event("gaussian_moments")
        ctx.check(abs(x.mean()) < 0.17 and abs(x.std() - 1) < 0.12, "gaussian-moments", f"normalised mutation has mean {x.mean()}, deviation {x.std()}")
        ctx.check(abs(np.mean(np.abs(x) < 0.6745) - 0.5) < 0.085, "gaussian-quartiles", "")
    else:
        eta = ctx.choice([1.0, 6.0, 20.0])
        lo, hi = ctx.choice([(0.0, 1.0), (-4.0, 6.0)])
        rows = ctx.choice([2, 60])
        if ctx.flip():
            # every column has its own range
            width = ctx.np.choice([0.01, 1.0, 300.0], size=2 * L // rows)
            lo = ctx.np.uniform(-5, 5, size=len(width))
            hi = lo + width
            ctx.event("own_ranges")
        q = Problem("min", lambda x: x.sum(), solution_length=2 * L // rows, dtype=torch.float64, bounds=(lo, hi), seed=ctx.randint(1, 10**6))
        z = q.generate_batch(rows)
        pr = ctx.choice([None, 0.3])
        x0 = to_np(z.values).copy()
        x1 = to_np(PolynomialMutation(q, eta=eta, mutation_probability=pr)(z).values)
        ch = x1 != x0
        if pr:
            ctx.event("partial_mutation")
            ctx.check(abs(ch.mean() - pr) < 0.045, "mutation-rate", f"{ch.mean()} of the variables changed, expected {pr}")
        else:
            ctx.check(ch.mean() > 0.99, "mutation-rate-all", f"{ch.mean()}")
        dq = ((x1 - x0) / (hi - lo))[ch]
        d1, d2 = ((x0 - lo) / (hi - lo))[ch], ((hi - x0) / (hi - lo))[ch]
        ql, qh = (1 - d1) ** (eta + 1), (1 - d2) ** (eta + 1)
        with np.errstate(all="ignore"):
            rl = ((1 + dq) ** (eta + 1) - ql) / (2 * (1 - ql))
            rh = 1 - ((1 - dq) ** (eta + 1) - qh) / (2 * (1 - qh))
        r = np.where(dq < 0, rl, rh)
        r = r[np.isfinite(r)]
        ctx.event("polynomial_distribution")
        ctx.check(len(np.unique(np.round(r, 12))) > 0.95 * len(r), "polynomial-repeated", f"{len(r)} mutations with only {len(np.unique(np.round(r, 12)))} different variates")
        ctx.check(len(r) > 0.98 * len(dq) and abs(r.mean() - 0.5) < 0.06 and abs(r.var() - 1 / 12) < 0.015, "polynomial-distribution", f"the mutation steps do not follow the polynomial distribution: uniform variate mean {r.mean()}, variance {r.var()}")
    ctx.raises(ValueError, lambda: PolynomialMutation(Problem("min", lambda x: x.sum(), solution_length=2, initial_bounds=(0, 1))), "polynomial-unbounded", "")
    ctx.state(kind, n, N, prob, str(p.dtype), lb is None)
    ctx.sample(kind=kind, parents=src.tolist(), children=vals.tolist(), probability=prob)


@scenario("C15", quick=250, thorough=6000, needs=["columns", "selective", "all_permuted", "really_permuted", "permutation_rate"])
def cosyne_permutation(ctx):
    p, n, senses, lb, ub = mk(ctx, dtype=ctx.choice([torch.float32, torch.float64, torch.int64]))
    N = ctx.randint(2, 9)
    b, ev = population(ctx, p, N)
    pall = ctx.flip()
    oi = None if pall else ctx.choice([0] if len(senses) == 1 else range(len(senses)))
    if not pall and len(senses) == 1 and ctx.flip():
        oi = None
    src = to_np(b.values).copy()
    vals = use(ctx, CosynePermutation(p, oi, permute_all=pall), b, "cosyne")
    ctx.check(vals.shape == src.shape, "count:cosyne", "")
    in_bounds(ctx, vals, lb, ub, "cosyne")
    for j in range(n):
        ctx.event("columns")
        ctx.check(sorted(vals[:, j].tolist()) == sorted(src[:, j].tolist()), "column-multiset", lambda: f"column {j}: {vals[:, j]} is not a permutation of {src[:, j]}")
    ctx.event("all_permuted" if pall else "selective")
    # over a large population: the best keeps its genes in the selective mode, everything moves otherwise
    length, many = ctx.choice([1, 2, 4, 8]), ctx.choice([60, 400])
    q = Problem(senses if len(senses) > 1 else senses[0], lambda x: x.sum(), solution_length=length, initial_bounds=(0, 1), dtype=torch.float64, seed=ctx.randint(1, 10**6))
    z, zev = population(ctx, q, many)
    d = to_np(CosynePermutation(q, oi, permute_all=pall)(z).values) != to_np(z.values)
    k = oi or 0
    order = np.argsort(zev[:, k] if senses[k] == "max" else -zev[:, k])
    moved = d.mean(axis=1)[order]
    ctx.event("really_permuted")
    if pall:
        ctx.check(moved.mean() > 0.85, "permute-all", f"fraction of moved genes per solution, worst first: {moved}")
    else:
        # nothing is ever taken from or given to a solution whose permutation probability is zero
        ctx.check(moved[-1] == 0, "best-permuted", f"fraction of moved genes per solution, worst first: {moved}")
        ctx.check(moved[:20].mean() > 0.1 and moved[:20].mean() > moved[-20:].mean(), "nothing-permuted", f"{moved}")
        # a gene of the i-th worst solution is chosen with probability 1 - (i / (N - 1)) ** (1 / length); shuffling leaves one chosen gene of a column in place on average
        pm = 1 - (np.arange(many) / (many - 1)) ** (1 / length)
        want, sd = length * (pm.sum() - 1), np.sqrt(length * ((pm * (1 - pm)).sum() + 1))
        ctx.check(abs(d.sum() - want) < 6 * sd + 2, "permutation-rate", f"{d.sum()} genes moved in {many} solutions of length {length}, expected about {want}")
        ctx.event("permutation_rate")
    ctx.raises(ValueError, lambda: CosynePermutation(p, 0, permute_all=True), "obj-with-all", "")
    ctx.state(n, N, pall, oi, str(p.dtype))
    ctx.sample(parents=src.tolist(), children=vals.tolist(), permute_all=pall)


class SeqProblem(Problem):
    def __init__(self, ctx, senses, **kw):
        self._ctx = ctx
        super().__init__(senses, dtype=object, **kw)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [i * 100 + j for j in range(self._ctx.randint(1, 5))]

    def _get_cloned_state(self, *, memo):
        raise RuntimeError("not needed here")


@scenario("C15", quick=40, thorough=800, needs=["cuts", "longer_parents"])
def cut_positions(ctx):
    """every cut position inside of either parent occurs"""
    lengths = [ctx.randint(3, 24) for _ in range(2)]

    class Fixed(Problem):
        def _fill(self, values):
            for i in range(len(values)):
                values[i] = [i * 100 + j for j in range(lengths[i])]

    p = Fixed("min", dtype=object, seed=ctx.randint(1, 10**5))
    b = p.generate_batch(2)
    b.set_evals(torch.tensor([0.0, 1.0]))
    kids = [list(x) for x in CutAndSplice(p, tournament_size=1, num_children=2400)(b).values]
    if max(lengths) > 10:
        ctx.event("longer_parents")
    seen = {}
    for x, y in zip(kids[:1200], kids[1200:]):
        for a in (0, 1):
            d = 1 - a
            A, D = [100 * a + j for j in range(lengths[a])], [100 * d + j for j in range(lengths[d])]
            i1 = sum(g in A for g in x)
            i2 = sum(g in D for g in y)
            if x == A[:i1] + D[i2:] and y == D[:i2] + A[i1:]:
                seen.setdefault(("first", a), set()).add(i1)
                seen.setdefault(("second", d), set()).add(i2)
                ctx.event("cuts")
                break
    for role in ("first", "second"):
        for i in (0, 1):
            missing = set(range(1, lengths[i])) - seen.get((role, i), set())
            # about 300 pairs for each combination: a position is missed with a probability below 4e-6
            ctx.check(len(missing) <= 1, f"cut-positions:{role}", f"a parent of length {lengths[i]} is never cut at {sorted(missing)}")
    ctx.state(tuple(lengths))
    ctx.sample(lengths=lengths)


@scenario("C15", quick=250, thorough=6000, needs=["splices"])
def cut_and_splice(ctx):
    senses = ctx.choice(["min", "max"])
    p = SeqProblem(ctx, senses, seed=ctx.randint(1, 10**5) if ctx.flip() else None)
    N = ctx.randint(2, 6)
    b = p.generate_batch(N)
    ev = ctx.np.permutation(N).astype(float)
    b.set_evals(torch.tensor(ev, dtype=torch.float32))
    opts, counts = expected_children(ctx, N)
    strong = ctx.flip(0.3)
    op = CutAndSplice(p, tournament_size=130 if strong else ctx.randint(1, 3), **opts)
    src = [list(x) for x in b.values]
    eb = fingerprint(b.evals)
    c = op(b)
    ctx.check([list(x) for x in b.values] == src and fingerprint(b.evals) == eb, "input-changed:splice", "")
    ctx.check(len(c) in counts, "count:splice", f"{len(c)} for {N} and {opts}")
    ctx.check(bool(torch.isnan(c.evals).all()), "evaluated:splice", "")
    kids = [list(x) for x in c.values]
    h = len(kids) // 2
    best = int(np.argmax(ev) if senses == "max" else np.argmin(ev))
    for i in range(h):
        ctx.event("splices")
        x, y = kids[i], kids[h + i]
        ok = False
        for a in ([src[best]] if strong else src):
            for d in ([src[best]] if strong else src):
                for i1 in range(len(a) + 1):
                    for i2 in range(len(d) + 1):
                        if x == a[:i1] + d[i2:] and y == d[:i2] + a[i1:]:
                            ok = True
        ctx.check(ok, "splice", lambda: f"children {x} and {y} are not a splice of two of {src}")
    ctx.state(N, tuple(len(s) for s in src), tuple(opts), strong)
    ctx.sample(parents=src, children=kids)
