"""C11: PGPE, SNES, CEM and XNES advance by their update rule."""

import math

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms import CEM, PGPE, SNES, XNES
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian
from evotorch.optimizers import SGD, Adam, ClipUp

from checks.c10 import mat_exp, ref_grad, shape_fitness
from checks.c13 import RefAdam, RefClipUp, RefSGD
from checks.c35 import _expected
from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C11", "A case is one search of several generations; at each generation the observed population and fitnesses are fed to a float64 model of the update rule, whose centre and spread must match the reported ones.")
ASSUMPTIONS = ["the reference follows the observed populations, so it does not depend on the order of random draws", "objectives are continuous, so ranks are defined"]


def objectives(ctx, nobj):
    kinds = [ctx.choice(["sphere", "linear", "cubic", "waves"]) for _ in range(nobj)]

    def f(x):
        cols = []
        for k in kinds:
            if k == "sphere":
                cols.append((x**2).sum(-1))
            elif k == "linear":
                cols.append((x * torch.arange(1, x.shape[-1] + 1, dtype=x.dtype)).sum(-1))
            elif k == "cubic":
                cols.append((x**3 - x).sum(-1))
            else:
                cols.append(torch.sin(3 * x).sum(-1) + 0.1 * (x**2).sum(-1))
        return cols[0] if nobj == 1 else torch.stack(cols, dim=-1)

    return f, kinds


def optimizer(ctx, n, lr, dtype):
    """returns optimizer argument, config, reference"""
    k = ctx.choice(["none", "clipup", "clipup_config", "adam", "adam_config", "sgd", "clipsgd", "object"])
    if k == "none":
        return None, None, None, k
    if k == "clipup":
        return "clipup", None, RefClipUp(n, lr, 0.9, 2 * lr), k
    if k == "clipup_config":
        m, v = ctx.choice([0.0, 0.5, 0.95]), ctx.choice([0.5, 3.0]) * lr
        return "clipup", {"momentum": m, "max_speed": v}, RefClipUp(n, lr, m, v), k
    if k == "adam":
        return "adam", None, RefAdam(n, lr, 0.9, 0.999, 1e-8), k
    if k == "adam_config":
        return "adam", {"beta1": 0.7, "beta2": 0.9, "epsilon": 1e-3}, RefAdam(n, lr, 0.7, 0.9, 1e-3), k
    if k == "sgd":
        return "sgd", {"momentum": 0.6}, RefSGD(n, lr, 0.6), k
    if k == "clipsgd":
        return "sgd", None, RefSGD(n, lr), k
    # the learning rate of a ready-made optimizer is its own
    o = ctx.choice(["adam", "clipup", "sgd"])
    if o == "adam":
        return Adam(solution_length=n, dtype=dtype, stepsize=0.3), None, RefAdam(n, 0.3, 0.9, 0.999, 1e-8), k
    if o == "clipup":
        return ClipUp(solution_length=n, dtype=dtype, stepsize=0.3), None, RefClipUp(n, 0.3, 0.9, 0.6), k
    return SGD(solution_length=n, dtype=dtype, stepsize=0.3), None, RefSGD(n, 0.3), k


def limit_arg(ctx, v, n):
    v = np.broadcast_to(v, (n,))
    if np.ptp(v) == 0 and ctx.flip():
        return float(v[0])
    return ctx.choice([list(map(float, v)), torch.tensor(v.copy()), np.array(v)])


def setup(ctx, algo=None, n=None, dtype=None, problem=None, popsize=None, more=None):
    """a search algorithm and the constants of its reference"""
    algo = algo or ctx.choice([PGPE, SNES, CEM, XNES])
    n = n or ctx.randint(1, 5)
    dtype = dtype or ctx.choice([torch.float64, torch.float64, torch.float32])
    nobj = ctx.choice([1, 1, 1, 2])
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    f, kinds = objectives(ctx, nobj)
    prob = problem(senses, f, n, dtype) if problem else Problem(senses if nobj > 1 or ctx.flip() else senses[0], f, solution_length=n, initial_bounds=(-2, 3), dtype=dtype, eval_dtype=dtype, vectorized=True, seed=ctx.randint(1, 10**6))
    obj = ctx.randint(0, nobj - 1)
    kw = {}
    ref = {"n": n, "dtype": dtype, "sense": senses[obj], "obj": obj, "algo": algo, "f": f}
    if nobj > 1:
        kw["obj_index"] = obj
    elif ctx.flip():
        kw["obj_index"] = ctx.choice([0, -1])
    if ctx.flip():
        c = ctx.np.normal(size=n) * 2
        kw["center_init"] = limit_arg(ctx, c, n) if n > 1 else [float(c[0])]
        ref["center"] = c
    s = ctx.np.uniform(0.3, 2, size=n) if ctx.flip() else np.full(n, ctx.uniform(0.3, 2))
    if ctx.flip(0.25):
        r = ctx.uniform(0.5, 4)
        kw["radius_init"] = r
        s = np.full(n, r / math.sqrt(n))
    else:
        kw["stdev_init"] = limit_arg(ctx, s, n)
    ref["stdev"] = np.array(s)
    pop = ctx.randint(4, 20) if popsize is None else popsize
    lr = ctx.choice([0.1, 0.5, 1.3])
    ref["opt"] = None
    ref["limits"] = (None, None, None)
    ref["extra"] = {}
    okind = "none"
    if algo is PGPE:
        sym = ctx.flip(0.6)
        if sym:
            pop = 2 * (pop // 2)
            if not ctx.flip():
                kw["symmetric"] = True
        else:
            kw["symmetric"] = False
        by = "num_directions" if sym else "num_solutions"
        ref["extra"] = {"divide_mu_grad_by": by, "divide_sigma_grad_by": by}
        ref["dist"] = SymmetricSeparableGaussian if sym else SeparableGaussian
        slr = ctx.choice([0.1, 0.3, 0.05])
        kw.update(center_learning_rate=lr, stdev_learning_rate=slr)
        ref.update(mu_lr=lr, sigma_lr=slr)
        ref["method"] = "centered"
        ref["opt"] = RefClipUp(n, lr, 0.9, 2 * lr)
        okind = "clipup"
    elif algo in (SNES, XNES):
        ref["dist"] = ExpSeparableGaussian if algo is SNES else ExpGaussian
        ref["method"] = "nes"
        d = 0.2 * (3 + math.log(n)) / math.sqrt(n) if algo is SNES else 0.6 * (3 + math.log(n)) / (n * math.sqrt(n))
        ref.update(mu_lr=1.0, sigma_lr=d)
        if ctx.flip():
            kw["center_learning_rate"] = lr
            ref["mu_lr"] = lr
        if ctx.flip():
            sl = ctx.choice([0.1, 0.5, 1.0])
            kw["stdev_learning_rate"] = sl
            ref["sigma_lr"] = sl * d
            if ctx.flip():
                kw["scale_learning_rate"] = False
                ref["sigma_lr"] = sl
        if popsize is None and ctx.flip(0.3):
            pop = None
            ref["pop"] = int(4 + math.floor(3 * math.log(n)))
    else:
        ref["dist"] = SeparableGaussian
        ratio = ctx.choice([0.5, 0.25, 0.3, 1.0])
        while math.floor(pop * ratio) < 2:
            pop += 1
        kw["parenthood_ratio"] = ratio
        ref["extra"] = {"parenthood_ratio": ratio}
        ref["method"] = None
        ref.update(mu_lr=1.0, sigma_lr=1.0)
    if pop is not None:
        kw["popsize"] = pop
        ref["pop"] = pop
    if algo is not CEM and ctx.flip(0.6):
        o, cfg, r, okind = optimizer(ctx, n, ref["mu_lr"], dtype)
        kw["optimizer"] = o
        if cfg is not None:
            kw["optimizer_config"] = cfg
        ref["opt"] = r
    if algo is not CEM and ctx.flip(0.5):
        ref["method"] = ctx.choice(["centered", "linear", "nes", "raw", "normalized", None])
        if ref["method"] in ("raw", None):
            ref["sigma_lr"] *= 1e-3
            for k in ("stdev_learning_rate",):
                kw[k] = ref["sigma_lr"]
            if algo in (SNES, XNES):
                kw["scale_learning_rate"] = False
            if ref["opt"] is None:
                ref["mu_lr"] *= 1e-3
                kw["center_learning_rate"] = ref["mu_lr"]
        kw["ranking_method"] = ref["method"]
    if algo is not XNES:
        lo = hi = mc = None
        if ctx.flip(0.4):
            lo = s * ctx.uniform(0.3, 1.2)
            kw["stdev_min"] = limit_arg(ctx, lo, n)
        if ctx.flip(0.4):
            hi = s * ctx.uniform(1.3, 2.0)
            kw["stdev_max"] = limit_arg(ctx, hi, n)
        if algo is PGPE:
            mc = np.full(n, 0.2)
        if ctx.flip(0.4):
            mc = np.full(n, ctx.choice([0.01, 0.1, 0.5])) if ctx.flip() else ctx.np.uniform(0.01, 0.5, size=n)
            kw["stdev_max_change"] = limit_arg(ctx, mc, n)
        elif algo is PGPE and ctx.flip(0.3):
            mc = None
            kw["stdev_max_change"] = None
        ref["limits"] = (lo, hi, mc)
    kw.update(more or {})
    given = {k: v for k, v in kw.items() if isinstance(v, (torch.Tensor, np.ndarray, list))}
    with Frozen(ctx, "arguments-changed", arguments=given):
        searcher = algo(prob, **kw)
    return searcher, prob, ref, given, okind, kw


def advance(ctx, ref, mu, A, x, fit, grads=None):
    """the next centre and spread, from the previous ones and the evaluated population"""
    C = ref["dist"]
    if grads is None:
        w = shape_fitness(ctx, fit, ref["sense"], ref["method"])
        grads = ref_grad(C, x, w, ref["method"], mu, A, ref["extra"], fit)
    g = grads["d" if C is ExpGaussian else "mu"]
    step = ref["mu_lr"] * g if ref["opt"] is None else ref["opt"].step(g)
    if C is ExpGaussian:
        return mu + A @ step, A @ mat_exp(0.5 * ref["sigma_lr"] * grads["M"])
    s = np.diag(A)
    if C is ExpSeparableGaussian:
        t = s * np.exp(0.5 * ref["sigma_lr"] * grads["sigma"])
    else:
        t = s + ref["sigma_lr"] * grads["sigma"]
    lo, hi, mc = ref["limits"]
    if any(v is not None for v in (lo, hi, mc)):
        t = _expected(s, t, lo, hi, mc)
    return mu + step, np.diag(t)


def as_matrix(s):
    s = to_np(s).astype(float)
    return np.diag(s) if s.ndim == 1 else s


@scenario("C11", quick=420, thorough=9000, needs=["generations", "PGPE", "SNES", "CEM", "XNES", "limited_spread", "optimizers", "mirrored_generations", "second_objective"])
def updates(ctx):
    searcher, prob, ref, given, okind, kw = setup(ctx)
    n, dtype, name = ref["n"], ref["dtype"], ref["algo"].__name__
    ctx.event(name)
    if ref["opt"] is not None:
        ctx.event("optimizers")
    if ref["obj"] > 0:
        ctx.event("second_objective")
    f32 = dtype == torch.float32
    tol = dict(rtol=2e-3, atol=2e-3) if f32 else dict(rtol=1e-6, atol=1e-7)
    mu = A = None
    steps = ctx.randint(3, 8)
    with Frozen(ctx, "arguments-changed", arguments=given):
        for t in range(steps):
            if t > 0:
                mu, A = to_np(searcher.status["center"]).astype(float), as_matrix(searcher.status["stdev"])
                mu_kept, A_kept = searcher.status["center"], searcher.status["stdev"]
                x = to_np(searcher.population.values).astype(float)
                fit = to_np(searcher.population.evals).astype(float)[:, ref["obj"]]
            searcher.step()
            c, s = searcher.status["center"], searcher.status["stdev"]
            ctx.check(c.dtype == dtype and s.dtype == dtype and tuple(c.shape) == (n,), "status-type", f"{c.dtype} {tuple(c.shape)}")
            c, s = to_np(c).astype(float), as_matrix(s)
            if t == 0:
                if "center" in ref:
                    ctx.close(c, ref["center"], f"initial-center:{name}", "", rtol=1e-5)
                else:
                    ctx.check(bool(((c >= -2) & (c <= 3)).all()), f"initial-center-bounds:{name}", f"{c}")
                ctx.close(s, np.diag(ref["stdev"]), f"initial-stdev:{name}", f"{kw}", rtol=1e-5)
            else:
                ctx.event("generations")
                if not (np.linalg.cond(A) < 1e6 and np.abs(np.linalg.eigvals(A)).min() > 1e-4 and np.abs(A).max() < 1e4):
                    return  # degenerate spreads: rounding decides
                if f32 and not (np.linalg.cond(A) < 1e3 and np.abs(x).max() < 1e3):
                    return
                m2, A2 = advance(ctx, ref, mu, A, x, fit)
                if not (np.isfinite(m2).all() and np.isfinite(A2).all() and np.abs(m2).max() < 1e6 and np.abs(A2).max() < 1e6 and (f32 is False or (np.abs(np.diag(A2)).min() > 1e-3))):
                    return
                if f32 and not (np.abs(m2 - mu).max() < 1e2 and np.abs(fit).max() < 1e3):
                    return
                sc = 1 + np.abs(x - mu).max() ** 2 / np.abs(np.diag(A)).min()
                ctx.close(c, m2, f"center:{name}", f"generation {t}, optimizer {okind}, ranking {ref['method']}, {kw}", rtol=tol["rtol"], atol=tol["atol"] * sc)
                ctx.close(s, A2, f"stdev:{name}", f"generation {t}, ranking {ref['method']}, limits {ref['limits']}, {kw}", rtol=tol["rtol"], atol=tol["atol"] * sc)
                ctx.same(mu_kept, torch.tensor(mu, dtype=dtype), "center-overwritten", "a centre obtained earlier changed")
                lo, hi, mc = ref["limits"]
                s1 = np.diag(s)
                if lo is not None or hi is not None or mc is not None:
                    ctx.event("limited_spread")
                    if lo is not None and bool((ref["stdev"] >= lo).all()):
                        ctx.check(bool((s1 >= lo * (1 - 1e-5)).all()), f"stdev-below-min:{name}", f"{s1} < {lo}")
                    if hi is not None and bool((ref["stdev"] <= hi).all()):
                        ctx.check(bool((s1 <= hi * (1 + 1e-5)).all()), f"stdev-above-max:{name}", f"{s1} > {hi}")
            pop = searcher.population
            ctx.check(len(pop) == ref["pop"], f"popsize:{name}", f"{len(pop)}, expected {ref['pop']}")
            v = pop.values
            e = pop.evals
            ctx.check(bool(torch.isfinite(e).all()), "not-evaluated", "")
            want = ref["f"](torch.as_tensor(to_np(v), dtype=dtype)).reshape(len(pop), -1)
            ctx.close(e, want, f"evals:{name}", "fitnesses of the population", rtol=1e-4 if f32 else 1e-9, atol=1e-3 if f32 else 1e-9)
            ctx.close(searcher.status["mean_eval"], float(to_np(e).astype(float)[:, ref["obj"]].mean()), f"mean-eval:{name}", "", rtol=1e-4, atol=1e-3 if f32 else 1e-6)
            # the population surrounds the reported centre
            z = np.linalg.solve(s, (to_np(v).astype(float) - c).T).T if np.abs(np.diag(s)).min() > 1e-6 else None
            if z is not None and np.abs(c).max() < 1e3:
                ctx.check(float(np.abs(z).max()) < 8.5, f"population-off-centre:{name}", f"samples {np.abs(z).max()} deviations away from the centre")
                q = float((z**2).sum())
                k = z.size if ref["dist"] is not SymmetricSeparableGaussian else z.size // 2
                if ref["dist"] is SymmetricSeparableGaussian:
                    q /= 2
                    ctx.event("mirrored_generations")
                    ctx.close(z[0::2], -z[1::2], "population-not-mirrored", "", rtol=1e-3, atol=1e-3 * (1 + np.abs(c).max() / np.abs(np.diag(s)).min()) if f32 else 1e-6)
                # Laurent-Massart bounds of the chi-square distribution at exp(-40)
                ctx.check(k + 2 * math.sqrt(40 * k) + 80 > q > k - 2 * math.sqrt(40 * k), f"population-spread:{name}", f"{q} for {k} degrees of freedom")
    ctx.state(name, n, ref["pop"], okind, ref["method"], ref["sense"], str(dtype), tuple(l is not None for l in ref["limits"]))
    ctx.sample(algorithm=name, optimizer=okind, ranking=ref["method"], center=np.round(c, 4).tolist())


@scenario("C11", quick=60, thorough=1500, needs=["spread_measured"])
def sampled_spread(ctx):
    """large populations: sampled around the current centre with the current spread"""
    algo = ctx.choice([PGPE, SNES, CEM, XNES])
    n = ctx.randint(1, 4)
    f, _ = objectives(ctx, 1)
    prob = Problem(ctx.choice(["min", "max"]), f, solution_length=n, initial_bounds=(-2, 3), dtype=torch.float64, eval_dtype=torch.float64, vectorized=True)
    N = 2000
    kw = {PGPE: dict(center_learning_rate=0.5, stdev_learning_rate=0.1), SNES: {}, CEM: dict(parenthood_ratio=0.5), XNES: {}}[algo]
    s = algo(prob, popsize=N, stdev_init=ctx.uniform(0.2, 3), **kw)
    for t in range(3):
        s.step()
        c, A = to_np(s.status["center"]), as_matrix(s.status["stdev"])
        z = np.linalg.solve(A, (to_np(s.population.values) - c).T).T
        eff = N / 2 if algo is PGPE else N
        ctx.event("spread_measured")
        ctx.check(bool((np.abs(z.mean(0)) < 8 / math.sqrt(eff)).all()), f"sample-mean:{algo.__name__}", f"{z.mean(0)}")
        cov = z.T @ z / N
        ctx.check(bool((np.abs(cov - np.eye(n)) < 8 * math.sqrt(2 / eff)).all()), f"sample-spread:{algo.__name__}", f"{cov.tolist()}")
    ctx.state(algo.__name__, n)
    ctx.sample(algorithm=algo.__name__, spread=np.round(np.diag(cov), 3).tolist())
