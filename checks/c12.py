"""C12: CMA-ES keeps a valid covariance and follows its update equations."""

import math

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms import CMAES

from checks.c11 import objectives
from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C12", "A case is one CMA-ES search; at each generation the observed population and fitnesses are fed to a float64 model of the published equations, whose mean, step size, paths and covariance must match.")
ASSUMPTIONS = [
    "strategy constants follow the CMA-ES tutorial (full) and its separable variant as documented by the library",
    "in separable mode both published forms of the rank-one term are accepted for stalled generations",
    "generations in which the stall indicator is within rounding of its threshold end the case",
]


class Model:
    def __init__(self, d, lam, sep, active, squared, opts, limits, decomp):
        self.d, self.lam, self.sep, self.active, self.squared, self.limits = d, lam, sep, active, squared, limits
        raw = np.log((lam + 1) / 2) - np.log(np.arange(1, lam + 1))
        mu = lam // 2
        self.mu = mu
        pos, neg = raw[:mu], raw[mu:]
        me = self.mueff = pos.sum() ** 2 / (pos**2).sum()
        g = opts.get

        def val(name, default):
            v = g(name)
            return g(name + "_ratio", 1.0) * (default() if v is None else v)

        self.cs = val("c_sigma", lambda: (me + 2) / (d + me + 3))
        self.ds = val("damp_sigma", lambda: 1 + 2 * max(0, math.sqrt(max(0, (me - 1) / (d + 1))) - 1) + self.cs)
        if sep:
            self.cc = val("c_c", lambda: (1 + 1 / d + me / d) / (math.sqrt(d) + 1 / d + 2 * me / d))
            self.c1 = val("c_1", lambda: 1 / (d + 2 * math.sqrt(d) + me / d))
            self.cmu = val("c_mu", lambda: (0.25 + me + 1 / me - 2) / (d + 4 * math.sqrt(d) + me / 2))
        else:
            self.cc = val("c_c", lambda: (4 + me / d) / (d + 4 + 2 * me / d))
            self.c1 = val("c_1", lambda: min(1, lam / 6) * 2 / ((d + 1.3) ** 2 + me))
            self.cmu = val("c_mu", lambda: min(1 - self.c1, 2 * (0.25 + me - 2 + 1 / me) / ((d + 2) ** 2 + me)))
        self.cm = g("c_m", 1.0)
        pos = pos / pos.sum()
        if active:
            men = neg.sum() ** 2 / (neg**2).sum()
            a = min(1 + self.c1 / self.cmu, 1 + 2 * men / (me + 2), (1 - self.cmu - self.c1) / (d * self.cmu))
            neg = a * neg / np.abs(neg).sum()
        else:
            neg = np.zeros_like(neg)
        self.w = np.concatenate([pos, neg])
        self.freq = max(1, int(math.floor(1 / (10 * d * (self.c1 + self.cmu))))) if decomp else 1
        self.freq_sure = not decomp or abs(1 / (10 * d * (self.c1 + self.cmu)) - round(1 / (10 * d * (self.c1 + self.cmu)))) > 1e-3
        self.chi = math.sqrt(d) * (1 - 1 / (4 * d) + 1 / (21 * d**2))
        self.ps, self.pc = np.zeros(d), np.zeros(d)
        self.C = np.eye(d)
        self.A = np.eye(d)
        self.t = 0

    def step(self, m, sigma, x, order):
        """order: indices of the solutions from best to worst; returns possible (m, sigma, ps, pc, [C...]), stall margin"""
        d = self.d
        y = (x - m) / sigma
        z = np.linalg.solve(self.A, y.T).T
        w = np.zeros(self.lam)
        w[order] = self.w
        top = order[: self.mu]
        dz, dy = (w[top, None] * z[top]).sum(0), (w[top, None] * y[top]).sum(0)
        m2 = m + self.cm * sigma * dy
        self.ps = (1 - self.cs) * self.ps + math.sqrt(self.cs * (2 - self.cs) * self.mueff) * dz
        n2 = float((self.ps**2).sum())
        e = (n2 / d - 1) / 2 if self.squared else math.sqrt(n2) / self.chi - 1
        s2 = sigma * math.exp(self.cs / self.ds * e)
        q, lim = n2 / (1 - (1 - self.cs) ** (2 * (self.t + 1))) / d, 2 + 4 / (d + 1)
        h = 1.0 if q < lim else 0.0
        self.pc = (1 - self.cc) * self.pc + h * math.sqrt(self.cc * (2 - self.cc) * self.mueff) * dy
        wt = np.where(w > 0, w, d * w / (z**2).sum(1)) if self.active else w
        c1a = self.c1 * (1 - (1 - h) * self.cc * (2 - self.cc))
        out = []
        if self.sep:
            c = np.diag(self.C)
            for one in {c1a, self.c1}:
                out.append(np.diag(c + one * self.pc**2 - c1a * c + self.cmu * (wt[:, None] * (y**2 - c)).sum(0)))
        else:
            out.append(self.C * (1 - c1a - self.cmu * self.w.sum()) + self.c1 * np.outer(self.pc, self.pc) + self.cmu * np.einsum("i,ij,ik->jk", wt, y, y))
        lo, hi = self.limits
        if lo is not None or hi is not None:
            lim_out = []
            for C in out:
                sd = s2 * np.sqrt(np.diag(C))
                k = np.clip(sd, lo, hi) / sd
                lim_out.append(C * np.outer(k, k))
            out = lim_out
        self.t += 1
        return m2, s2, out, abs(q - lim), h


def full(v, d):
    v = to_np(v).astype(float)
    return np.diag(v) if v.ndim == 1 else v


@scenario("C12", quick=260, thorough=6000, needs=["generations", "separable", "full", "active", "limited", "stalled", "refresh", "kept_factor", "one_variable", "given_rates", "covariances_compared"])
def equations(ctx):
    d = ctx.choice([1, 2, 3, 4, 5, 8, 12])
    dtype = ctx.choice([torch.float64, torch.float64, torch.float32])
    f32 = dtype == torch.float32
    nobj = ctx.choice([1, 1, 2])
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    f, kinds = objectives(ctx, nobj)
    prob = Problem(senses if nobj > 1 else senses[0], f, solution_length=d, initial_bounds=(-2, 3), dtype=dtype, eval_dtype=dtype, vectorized=True, seed=ctx.randint(1, 10**6))
    obj = ctx.randint(0, nobj - 1)
    kw = {"obj_index": obj} if nobj > 1 else {}
    sep, active, squared = ctx.flip(), ctx.flip(0.7), ctx.flip(0.3)
    opts = {}
    for k, vals in (("c_sigma", [0.1, 0.5]), ("damp_sigma", [1.0, 3.0]), ("c_c", [0.2, 0.5]), ("c_1", [0.01, 0.1]), ("c_mu", [0.02, 0.2])):
        if ctx.flip(0.15):
            opts[k] = ctx.choice(vals)
            ctx.event("given_rates")
        if ctx.flip(0.15):
            opts[k + "_ratio"] = ctx.choice([0.5, 0.8, 1.2])
    if ctx.flip(0.2):
        opts.pop("c_1", None), opts.pop("c_mu", None)
        opts["c_1_ratio"] = opts["c_mu_ratio"] = 0.03
    if ctx.flip(0.2):
        opts["c_m"] = ctx.choice([0.5, 0.8])
    lo = hi = None
    s0 = ctx.choice([0.3, 1.0, 2.0])
    if ctx.flip(0.3):
        lo = s0 * ctx.choice([0.3, 0.8])
    if ctx.flip(0.3):
        hi = s0 * ctx.choice([1.1, 1.5])
    lam = ctx.randint(3, 16)
    if ctx.flip(0.4):
        lam = 4 + int(math.floor(3 * math.log(d)))
    else:
        kw["popsize"] = lam
    decomp = ctx.flip()
    model = Model(d, lam, sep, active, squared, opts, (lo, hi), decomp)
    if model.c1 + model.cmu > 0.95 or not model.freq_sure:
        opts = {}
        model = Model(d, lam, sep, active, squared, opts, (lo, hi), decomp)
    c0 = None
    form = ctx.choice(["none", "list", "tensor", "solution"])
    if form != "none":
        v = ctx.np.normal(size=d)
        if form == "solution":
            b = prob.generate_batch(2)
            b.set_values(torch.tensor(np.stack([v, v + 1]), dtype=dtype))
            kw["center_init"] = b[0]
        else:
            kw["center_init"] = list(map(float, v)) if form == "list" else torch.tensor(v, dtype=dtype)
        c0 = v
    if c0 is not None and torch.is_tensor(kw["center_init"]):
        with Frozen(ctx, "center-init-changed", c=kw["center_init"]):
            s = CMAES(prob, stdev_init=s0, separable=sep, active=active, csa_squared=squared, stdev_min=lo, stdev_max=hi, limit_C_decomposition=decomp, **opts, **kw)
    else:
        s = CMAES(prob, stdev_init=s0, separable=sep, active=active, csa_squared=squared, stdev_min=lo, stdev_max=hi, limit_C_decomposition=decomp, **opts, **kw)
    if ctx.flip(0.5) and form in ("tensor", "solution"):
        # what was given may be changed afterwards
        if form == "tensor":
            kw["center_init"].mul_(-3.0).add_(50.0)
        else:
            b.set_values(torch.full((2, d), 70.0, dtype=dtype))
        ctx.event("given_center_changed")
    ctx.event("separable" if sep else "full")
    if active:
        ctx.event("active")
    if d == 1:
        ctx.event("one_variable")
    m = to_np(s.status["center"]).astype(float)
    if c0 is not None:
        ctx.close(m, c0, "initial-center", "", rtol=1e-5)
    ctx.close(s.status["stepsize"], s0, "initial-stepsize", "", rtol=1e-5)
    ctx.check(m.shape == (d,), "center-shape", f"{m.shape}")
    rt, at = (3e-3, 1e-3) if f32 else (1e-5, 1e-6)
    has = all(hasattr(s, k) for k in ("C", "A", "p_sigma", "p_c"))
    label = f"{'separable' if sep else 'full'}, d={d}, popsize={lam}, active={active}, options {opts}, limits {(lo, hi)}"
    sizes = []
    for t in range(ctx.choice([4, 10, 20])):
        m, sigma = to_np(s.status["center"]).astype(float), float(s.status["stepsize"])
        if has:
            # follow the reported state, so that rounding does not accumulate
            model.C, model.A = full(s.C, d), full(s.A, d)
            model.ps, model.pc = np.broadcast_to(to_np(s.p_sigma), (d,)).astype(float), np.broadcast_to(to_np(s.p_c), (d,)).astype(float)
        oldA = model.A
        s.step()
        ctx.event("generations")
        pop = s.population
        ctx.check(len(pop) == lam, "popsize", f"{len(pop)}, expected {lam}")
        x = to_np(pop.values).astype(float)
        fit = to_np(pop.evals).astype(float)[:, obj]
        want = to_np(f(torch.as_tensor(to_np(pop.values), dtype=dtype)).reshape(lam, -1))
        ctx.close(pop.evals, want, "evals", "", rtol=1e-4 if f32 else 1e-9, atol=1e-3 if f32 else 1e-9)
        if len(set(fit)) < lam:
            return
        if not (sigma * np.abs(model.C).max() < 1e3 and np.linalg.cond(model.C) < (1e3 if f32 else 1e8) and 1e-3 < sigma < 1e3):
            return
        order = np.argsort(fit if senses[obj] == "min" else -fit)
        m2, s2, Cs, margin, h = model.step(m, sigma, x, order)
        if h == 0.0:
            ctx.event("stalled")
        if margin < 1e-2 * (5 if f32 else 0.01):
            return
        sc = 1 + np.abs(x).max()
        ctx.close(s.status["center"], m2, "mean", f"generation {t + 1}, {label}", rtol=rt, atol=at * sc)
        ctx.close(s.status["stepsize"], s2, "step-size", f"generation {t + 1}, {label}", rtol=rt, atol=at)
        ctx.check(s.status["stepsize"] > 0, "step-size-sign", f"{s.status['stepsize']}")
        z = np.linalg.solve(oldA, ((x - m) / sigma).T).T
        ctx.check(float(np.abs(z).max()) < 8.5, "population-off-centre", f"{np.abs(z).max()} deviations")
        sizes.append(float((z**2).sum()))
        if has:
            ctx.close(np.broadcast_to(to_np(s.p_sigma), (d,)), model.ps, "path-sigma", f"generation {t + 1}, {label}", rtol=rt, atol=at * 10)
            ctx.close(np.broadcast_to(to_np(s.p_c), (d,)), model.pc, "path-c", f"generation {t + 1}, {label}", rtol=rt, atol=at * 10)
            C = full(s.C, d)
            ctx.event("covariances_compared")
            ok = any(np.allclose(C, c, rtol=rt, atol=at * (1 + np.abs(c).max()) * 10) for c in Cs)
            ctx.check(ok, "covariance", f"generation {t + 1}, {label}: {C.tolist()}, expected {Cs[-1].tolist()}")
            ctx.close(C, C.T, "covariance-asymmetric", "", rtol=1e-5 if f32 else 1e-10, atol=1e-5 if f32 else 1e-10)
            ctx.check(float(np.linalg.eigvalsh((C + C.T) / 2).min()) > 0, "covariance-not-positive", f"{C.tolist()}")
            A = full(s.A, d)
            clamped = lo is not None or hi is not None
            if (t + 1) % model.freq == 0 or clamped and not np.allclose(A, oldA, rtol=1e-12, atol=1e-12):
                ctx.event("refresh")
                ctx.close(A @ A.T, C, "factor", f"refresh in generation {t + 1}", rtol=1e-3 if f32 else 1e-8, atol=1e-4 if f32 else 1e-8)
            elif not clamped:
                ctx.event("kept_factor")
                ctx.close(A, oldA, "factor-changed", f"no refresh in generation {t + 1} with interval {model.freq}", rtol=1e-12, atol=1e-12)
            if lo is not None or hi is not None:
                ctx.event("limited")
                sd = s.status["stepsize"] * np.sqrt(np.diag(C))
                ctx.check(bool((sd >= (lo or 0) * (1 - 1e-3)).all() and (sd <= (hi or 1e30) * (1 + 1e-3)).all()), "limits", f"deviations {sd}, limits {(lo, hi)}")
                if (t + 1) % model.freq == 0 or bool((np.minimum(np.abs(sd - (lo or 0)), np.abs(sd - (hi or 1e30))) < 1e-9).any()):
                    sd = s.status["stepsize"] * np.sqrt(np.diag(A @ A.T))
                    ctx.check(bool((sd >= (lo or 0) * (1 - 1e-3)).all() and (sd <= (hi or 1e30) * (1 + 1e-3)).all()), "limits-sampling", f"deviations {sd} used for sampling, limits {(lo, hi)}")
        else:
            model.C = Cs[-1]
            if (t + 1) % model.freq == 0:
                model.A = np.linalg.cholesky(model.C) if not sep else np.sqrt(model.C)
    q, k = sum(sizes), d * lam * len(sizes)
    ctx.check(k + 2 * math.sqrt(40 * k) + 80 > q > k - 2 * math.sqrt(40 * k), "population-spread", f"{q} for {k} degrees of freedom")
    ctx.state(d, lam, sep, active, squared, tuple(sorted(opts)), lo is None, hi is None, decomp, f32)
    ctx.sample(d=d, popsize=lam, separable=sep, stepsize=s.status["stepsize"], center=np.round(to_np(s.status["center"]), 4).tolist())


@scenario("C12", quick=48, thorough=900, needs=["long_runs", "bounded_long_runs"])
def long_histories(ctx):
    """hundreds of generations on badly conditioned objectives: the covariance stays usable and the search converges"""
    d = ctx.choice([2, 3, 5, 10])
    q = np.linalg.qr(ctx.np.normal(size=(d, d)))[0]
    ev = np.logspace(0, ctx.choice([0, 3, 5]), d)
    H = torch.tensor(q @ np.diag(ev) @ q.T)
    target = torch.tensor(ctx.np.normal(size=d))
    sense = ctx.choice(["min", "max"])
    sign = 1.0 if sense == "min" else -1.0

    def f(x):
        z = x - target
        return sign * torch.einsum("ij,jk,ik->i", z, H, z)

    prob = Problem(sense, f, solution_length=d, initial_bounds=(-2, 2), dtype=torch.float64, eval_dtype=torch.float64, vectorized=True, seed=ctx.randint(1, 10**6))
    sep = ctx.flip(0.3)
    hi = ctx.choice([None, 0.7])
    lo = ctx.choice([None, None, 1e-6])
    s = CMAES(prob, stdev_init=1.0, separable=sep, active=ctx.flip(), stdev_max=hi, stdev_min=lo, limit_C_decomposition=ctx.flip())
    first = None
    for t in range(ctx.choice([150, 300])):
        s.step()
        if t == 0:
            first = abs(float(s.status["pop_best_eval"]))
        if t % 10 == 0:
            C = full(s.C, d)
            ctx.check(np.isfinite(C).all() and float(s.status["stepsize"]) > 0, "nonfinite", f"generation {t}")
            ctx.check(float(np.linalg.eigvalsh((C + C.T) / 2).min()) > 0, "covariance-not-positive", f"generation {t}: {C.tolist()} d={d} sep={sep} hi={hi} lo={lo} first={first} sigma={s.status['stepsize']} best={s.status['best_eval']}")
            if hi is not None or lo is not None:
                ctx.event("bounded_long_runs")
                sd = s.status["stepsize"] * np.sqrt(np.diag(C))
                ctx.check(bool((sd <= (hi or 1e30) * (1 + 1e-6)).all() and (sd >= (lo or 0) * (1 - 1e-6)).all()), "limits", f"{sd}")
    ctx.event("long_runs")
    best = abs(float(s.status["best_eval"]))
    # an order of magnitude is far below what CMA-ES reaches in 150 generations
    if not sep and lo is None:
        ctx.check(best < 0.2 * first + 1e-6, "no-progress", f"best {best} after {s.step_count} generations, {first} in the first")
    ctx.state(d, sep, sense, hi, lo, float(ev[-1]))
    ctx.sample(d=d, condition=float(ev[-1]), first=first, best=best)
