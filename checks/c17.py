"""C17: each MAP-Elites cell keeps the best solution that ever fit it."""

import math
import random
from collections import Counter

import numpy as np
import torch
from evotorch.algorithms import MAPElites
from evotorch.operators import CrossOver

from checks.c16 import Log, Numeric, rows
from vmon import zoo
from vmon.compare import to_np
from vmon.engine import rule, scenario

rule("C17", "A case is one MAP-Elites search on a problem that logs every evaluation; after each generation every cell is compared with the best logged solution whose features fit it.")
ASSUMPTIONS = ["fitnesses and features are not NaN", "a solution exactly on the border between cells may be put into either"]


class Feats:
    """fitness and features; features may be rounded (to hit borders), fitness may be infinitely bad"""

    def __init__(self, ctx, n, k, bad, rounded):
        self.f = zoo.columns(ctx, n, 1 + k)
        self.bad, self.rounded = bad, rounded

    def __call__(self, x):
        y = self.f(x)
        z = y[:, 1:]
        if self.rounded:
            z = torch.round(z)
        fit = y[:, :1]
        if self.bad is not None:
            fit = torch.where(x[:, :1] > 0.3, torch.full_like(fit, self.bad), fit)
        return torch.cat([fit, z], dim=1)


def make_grid(ctx, k):
    """a grid as a list of cells, each a list of (lower, upper) per feature"""
    kind = ctx.choice(["made", "made", "loose"])
    if kind == "made":
        lb = [ctx.uniform(-4, 0) for _ in range(k)]
        ub = [v + ctx.uniform(1, 8) for v in lb]
        bins = [ctx.randint(3, 5) for _ in range(k)]
        g = MAPElites.make_feature_grid(lb, ub, bins if ctx.flip() else torch.tensor(bins), dtype=torch.float64)
        return kind, g
    cells = []
    for _ in range(ctx.randint(2, 9)):
        c = []
        for _ in range(k):
            a = ctx.choice([-math.inf, float(ctx.randint(-5, 5))])
            b = ctx.choice([math.inf, (a if a > -math.inf else 0.0) + ctx.randint(0, 6)])
            c.append((a, b))
        cells.append(c)
    return kind, torch.tensor(cells, dtype=torch.float64)


@scenario("C17", quick=420, thorough=9000, needs=["generations", "filled_cells", "empty_cells", "improved", "kept_elite", "noisy", "moving_features", "kept_fitness", "loose", "made", "on_border", "infinitely_bad", "several_features", "min", "max"])
def archive(ctx):
    n, k = ctx.randint(2, 4), ctx.randint(1, 3)
    noisy = ctx.flip(0.4)
    moving = noisy and ctx.flip()
    log = Log(False)
    sense = ctx.choice(["min", "max"])
    sign = 1.0 if sense == "max" else -1.0
    bad = -sign * math.inf if ctx.flip(0.15) else None
    rounded = ctx.flip(0.3)
    bounded = ctx.flip(0.4)
    dtype = ctx.choice([torch.float32, torch.float64])
    f = Feats(ctx, n, k, bad, rounded)
    r = random.Random(ctx.case_seed)

    def g(x):
        y = f(x)
        if noisy:
            # the fitness changes from call to call, and the features if they are to
            y = torch.cat([y[:, :1] + r.uniform(-5, 5), y[:, 1:] + (r.choice([-2.0, 0.0, 3.0]) if moving else 0.0)], dim=1)
        return y

    p = Numeric([sense], g, n, dtype, log, k, seed=ctx.randint(1, 10**6), **({"bounds": (-2.0, 3.0)} if bounded else {"initial_bounds": (-2.0, 3.0)}))
    kind, grid = make_grid(ctx, k)
    ctx.event(kind)
    ctx.event(sense)
    if k > 1:
        ctx.event("several_features")
    if noisy:
        ctx.event("noisy")
    if moving:
        ctx.event("moving_features")
    ops, names = zoo.operators(ctx, p, bounded, 1)
    kw = {}
    re_evaluate = ctx.flip(0.6)
    if not re_evaluate or ctx.flip():
        kw["re_evaluate"] = re_evaluate
    if re_evaluate and ctx.flip(0.3):
        kw["re_evaluate_parents_first"] = True if any(isinstance(o, CrossOver) for o in ops) else ctx.flip()
    given = grid if ctx.flip() else grid.tolist()
    s = MAPElites(p, operators=ops, feature_grid=given, **kw)
    G = to_np(grid)
    ctx.check(len(s.population) == len(G), "cells", f"{len(s.population)} members for {len(G)} cells")
    ctx.check(not bool(to_np(s.filled).any()), "filled-at-start", "cells are filled before anything was evaluated")
    ctx.note(names, kw, sense, kind, noisy, rounded, bad)
    ctx.state(tuple(names), sense, kind, len(G), k, noisy, re_evaluate)
    best_ever = [None] * len(G)
    for gen in range(ctx.randint(2, 6)):
        before = rows(s.population)
        log.take()
        s.step()
        logged = log.take()
        ctx.event("generations")
        offered = list(logged)
        if re_evaluate or gen == 0:
            missing = Counter(x for x, _ in before) - Counter(x for x, _ in logged)
            ctx.check(not missing, "parents-not-evaluated", f"{sum(missing.values())} members of the archive were not evaluated")
        else:
            offered += before
            ctx.event("kept_fitness")
        new = rows(s.population)
        filled = to_np(s.filled).tolist()
        ctx.check(len(new) == len(filled) == len(G), "cells", "")
        table = np.array([e for _, e in offered], dtype=float)
        pool = Counter(offered)
        for i, cell in enumerate(G):
            feats = table[:, 1:]
            inside = ((feats > cell[:, 0]) & (feats < cell[:, 1])).all(1)
            touching = ((feats >= cell[:, 0]) & (feats <= cell[:, 1])).all(1)
            if (touching & ~inside).any():
                ctx.event("on_border")
            x, e = new[i]
            ctx.check(pool[new[i]] > 0, "foreign", f"cell {i} holds a solution with evaluation {e} which was not evaluated like that")
            if inside.any():
                ctx.check(filled[i], "not-filled", lambda: f"cell {i} {cell.tolist()} is reported empty; evaluations that fit: {table[inside].tolist()}")
            elif not touching.any():
                ctx.check(not filled[i], "filled", lambda: f"cell {i} {cell.tolist()} is reported filled; nothing fits, it holds {e}")
            if not filled[i]:
                ctx.event("empty_cells")
                continue
            ctx.event("filled_cells")
            ff = np.array(e[1:])
            ctx.check(bool(((ff >= cell[:, 0]) & (ff <= cell[:, 1])).all()), "outside", lambda: f"cell {i} {cell.tolist()} holds a solution with features {ff}")
            if inside.any():
                top = (table[inside, 0] * sign).max()
                ctx.check(e[0] * sign >= top, "not-best", lambda: f"cell {i} holds fitness {e[0]} ({sense}), offered were {table[inside, 0].tolist()}")
                if top == -math.inf:
                    ctx.event("infinitely_bad")
            if not noisy:
                if best_ever[i] is not None:
                    ctx.check(e[0] * sign >= best_ever[i], "lost-elite", f"cell {i} held a solution of fitness {best_ever[i] * sign} before, now {e[0]} ({sense})")
                    ctx.event("kept_elite" if e[0] * sign == best_ever[i] else "improved")
                best_ever[i] = e[0] * sign
        if not noisy:
            for i in range(len(G)):
                ctx.check(best_ever[i] is None or filled[i], "emptied", f"cell {i} was filled before and is empty now")
    ctx.sample(cells=len(G), features=k, sense=sense, operators=names, options={a: str(b) for a, b in kw.items()}, filled=int(sum(filled)))


@scenario("C17", quick=300, thorough=6000, needs=["grids", "covered_points", "one_number", "many_numbers", "one_bin", "tensor_bounds", "float32", "float64", "rejected"])
def grids(ctx):
    """the helper that makes grids"""
    k = ctx.randint(1, 3)
    lb = ctx.np.uniform(-5, 5, size=k)
    ub = lb + ctx.np.uniform(0.5, 9, size=k)
    dtype = ctx.choice([torch.float32, torch.float64])
    ctx.event(str(dtype).split(".")[1])
    same = ctx.flip()
    bins = [ctx.randint(1, 6)] * k if same else [ctx.randint(1, 6) for _ in range(k)]
    if 1 in bins:
        ctx.event("one_bin")
    nb = bins[0] if same and ctx.flip() else ctx.choice([bins, torch.tensor(bins)])
    ctx.event("one_number" if isinstance(nb, int) else "many_numbers")
    tl, tu = torch.tensor(lb, dtype=dtype), torch.tensor(ub, dtype=dtype)
    if ctx.flip():
        g = MAPElites.make_feature_grid(tl, tu, nb)
        ctx.event("tensor_bounds")
    else:
        g = MAPElites.make_feature_grid(lb.tolist(), ub.tolist(), nb, dtype=dtype if ctx.flip() else str(dtype).split(".")[1])
    lb, ub = to_np(tl).astype(np.float64), to_np(tu).astype(np.float64)
    ctx.check(g.dtype == dtype, "dtype", f"{g.dtype}, requested {dtype}")
    ctx.check(tuple(g.shape) == (int(np.prod(bins)), k, 2), "shape", f"{tuple(g.shape)} for bins {bins}")
    G = to_np(g)
    eps = 1e-12 if dtype == torch.float64 else 1e-5
    for j in range(k):
        edges = np.unique(np.concatenate([G[:, j, 0], G[:, j, 1]]).astype(np.float64))
        ctx.check(edges[0] == -np.inf and edges[-1] == np.inf, "unbounded", f"feature {j}: borders {edges}")
        inner = edges[1:-1]
        ctx.check(len(inner) == bins[j] - 1, "bins", f"feature {j}: borders {edges}, {bins[j]} bins requested")
        # the borders are evenly spaced from the lower to the upper bound
        if bins[j] >= 3:
            want = np.linspace(lb[j], ub[j], bins[j] - 1)
            ctx.check(bool(np.all(np.abs(inner - want) <= eps * (1 + np.abs(want)))), "borders", lambda: f"feature {j}: borders {inner.tolist()}, expected {want.tolist()}")
    # every point of the feature space is in exactly one cell (not counting borders)
    for _ in range(8):
        x = ctx.np.uniform(-12, 16, size=k)
        fits = ((G[:, :, 0] <= x) & (x <= G[:, :, 1])).all(1)
        ctx.check(fits.sum() == 1, "cover", lambda: f"the point {x} is in {int(fits.sum())} cells")
        ctx.event("covered_points")
    # and so are points on the borders, in at least one
    b = np.array([ctx.choice(np.unique(G[:, j, 0][np.isfinite(G[:, j, 0])]).tolist() or [0.0]) for j in range(k)])
    ctx.check(((G[:, :, 0] <= b) & (b <= G[:, :, 1])).all(1).any(), "cover", f"the border point {b} is in no cell")
    ctx.event("grids")
    if ctx.flip(0.1):
        ctx.raises(TypeError, lambda: MAPElites.make_feature_grid([0.0], [1.0], 3), "untyped", "bounds which are not tensors, without a dtype")
        ctx.raises(ValueError, lambda: MAPElites.make_feature_grid(torch.zeros(1), torch.ones(2), 3), "shapes", "bounds of different lengths")
        ctx.raises(ValueError, lambda: MAPElites.make_feature_grid(torch.zeros(1), torch.ones(1, dtype=torch.float64), 3), "dtypes", "bounds of different types")
        ctx.event("rejected")
    ctx.state(k, tuple(bins), str(dtype), type(nb).__name__)
    ctx.sample(bins=bins, lower=lb.tolist(), upper=ub.tolist())
