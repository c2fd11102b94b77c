"""C10: search distributions sample, estimate and update as defined."""

import numpy as np
import torch
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian, make_functional_grad_estimator, make_functional_sampler
from evotorch.optimizers import Adam, ClipUp

from checks.c09 import _weights
from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen, fingerprint

rule("C10", "A case is one distribution with random parameters whose samples, gradient estimates and updates are compared with float64 references.")
ASSUMPTIONS = ["moment tests use 8 standard errors", "fitnesses are separated or exactly tied, so that ranks are defined"]

SEP = [SeparableGaussian, SymmetricSeparableGaussian, ExpSeparableGaussian]


def mat_exp(m):
    w = np.zeros_like(m)
    k = 0
    while np.abs(m).sum() / 2**k > 0.5:
        k += 1
    a = m / 2**k
    t = np.eye(len(m))
    w = np.eye(len(m))
    for i in range(1, 25):
        t = t @ a / i
        w = w + t
    for _ in range(k):
        w = w @ w
    return w


def mk(ctx, C, n=None, extra=None, dtype=None):
    n = ctx.randint(1, 5) if n is None else n
    dtype = ctx.choice([torch.float32, torch.float64]) if dtype is None else dtype
    mu = ctx.np.normal(size=n) * ctx.choice([0.0, 1.0, 10.0])
    if C is ExpGaussian:
        k = ctx.choice(["diag", "spd", "general"])
        if k == "diag":
            sg = ctx.np.uniform(0.2, 3, size=n)
        elif k == "spd":
            a = ctx.np.normal(size=(n, n))
            sg = a @ a.T / n + np.eye(n)
        else:
            sg = ctx.np.normal(size=(n, n)) * 0.4 + 2 * np.eye(n)
    else:
        sg = ctx.np.uniform(0.05, 4, size=n)
    pars = {"mu": torch.tensor(mu, dtype=dtype), "sigma": torch.tensor(sg, dtype=dtype)}
    pars.update(extra or {})
    given = dict(pars)
    with Frozen(ctx, "parameters-changed", parameters=pars):
        d = C(pars, **({"dtype": dtype} if ctx.flip() else {}))
    ctx.check(set(pars) == set(given) and all(pars[k] is given[k] for k in given), "parameters-dict-changed", f"{set(pars)} vs {set(given)}")
    ctx.check(d.solution_length == n and d.dtype == dtype, "meta", f"{d.solution_length} {d.dtype}")
    A = np.diag(to_np(pars["sigma"]).astype(float)) if sg.ndim == 1 else to_np(pars["sigma"]).astype(float)
    return d, n, to_np(pars["mu"]).astype(float), A, dtype, pars


def shape_fitness(ctx, f, sense, method):
    """float64 reference of the fitness shaping (f has no ties)"""
    n = len(f)
    x = f if sense == "max" else -f
    if method in (None, "raw"):
        return x
    if method == "normalized":
        return (x - x.mean()) / x.std(ddof=1)
    w = np.zeros(n)
    w[np.argsort(x)] = _weights(method, n)
    return w


def ref_grad(C, x, w, method, mu, A, pars, f_used):
    """published estimators, in float64"""
    method = method or "raw"
    sg = np.diag(A)
    N = len(w)
    if C in (SeparableGaussian, SymmetricSeparableGaussian):
        if "parenthood_ratio" in pars:
            k = int(np.floor(N * pars["parenthood_ratio"]))
            e = x[np.argsort(-w, kind="stable")[:k]]
            return {"mu": e.mean(axis=0) - mu, "sigma": e.std(axis=0, ddof=1) - sg}
        if method not in ("centered", "normalized"):
            w = w - w.mean()
        if C is SeparableGaussian:
            z = x - mu
            g = {"mu": (w[:, None] * z).sum(0), "sigma": (w[:, None] * (z**2 - sg**2) / sg).sum(0)}
        else:
            z = x[0::2] - mu
            p, m = w[0::2], w[1::2]
            g = {"mu": (((p - m) / 2)[:, None] * z).sum(0), "sigma": (((p + m) / 2)[:, None] * (z**2 - sg**2) / sg).sum(0)}
        for k in g:
            by = pars.get(f"divide_{k}_grad_by")
            if by == "num_solutions":
                g[k] = g[k] / N
            elif by == "num_directions":
                g[k] = g[k] / (N // 2)
            elif by == "total_weight":
                g[k] = g[k] / np.abs(w).sum()
            elif by == "weight_stdev":
                g[k] = g[k] / w.std(ddof=1)
        return g
    if C is ExpSeparableGaussian:
        if method != "nes":
            w = w / np.abs(w).sum()
        z = x - mu
        return {"mu": (w[:, None] * z).sum(0), "sigma": (w[:, None] * ((z / sg) ** 2 - 1)).sum(0)}
    if method not in ("centered", "normalized"):
        w = w - w.mean()
    s = np.linalg.solve(A, (x - mu).T).T
    n = len(mu)
    return {"d": (w[:, None] * s).sum(0), "M": sum(w[i] * (np.outer(s[i], s[i]) - np.eye(n)) for i in range(N))}


def options(ctx, C):
    if C in (SeparableGaussian, SymmetricSeparableGaussian):
        if ctx.flip(0.2):
            return {"parenthood_ratio": ctx.choice([0.5, 0.25, 1.0, 0.75])}
        o = {}
        for k in ("divide_mu_grad_by", "divide_sigma_grad_by"):
            if ctx.flip(0.7):
                o[k] = ctx.choice(["num_solutions", "num_directions", "total_weight", "weight_stdev"])
        return o
    return {}


@scenario("C10", quick=600, thorough=15000, needs=["SeparableGaussian", "SymmetricSeparableGaussian", "ExpSeparableGaussian", "ExpGaussian", "gradients", "ranked", "raw", "divided", "elites", "functional_estimator", "called_swapped", "called_declared_swapped", "called_overridden", "updates", "optimizer_updates", "immutability_checks"])
def gradients_and_updates(ctx):
    C = ctx.choice(SEP + [ExpGaussian])
    ctx.event(C.__name__)
    extra = options(ctx, C)
    d, n, mu, A, dtype, pars = mk(ctx, C, extra=extra)
    N = 2 * ctx.randint(4, 10)
    if C is SymmetricSeparableGaussian:
        z = ctx.np.normal(size=(N // 2, n)) * np.diag(A)
        x = np.empty((N, n))
        x[0::2], x[1::2] = mu + z, mu - z
    else:
        if C is not SymmetricSeparableGaussian and ctx.flip():
            N += 1
        x = mu + (A @ ctx.np.normal(size=(n, N))).T
    f = ctx.np.permutation(N).astype(float) * ctx.choice([0.5, 3.0]) - ctx.choice([0, 7])
    xs = torch.tensor(x, dtype=dtype)
    fs = torch.tensor(f, dtype=ctx.choice([torch.float32, torch.float64]))
    if ctx.flip(0.3):
        big = torch.zeros((2 * N, n), dtype=dtype)
        big[::2] = xs
        xs = big[::2]
    x = to_np(xs).astype(float)
    sense = ctx.choice(["min", "max"])
    method = ctx.choice([None, "raw", "centered", "linear", "nes", "normalized"])
    if "parenthood_ratio" in extra:
        cut = int(np.floor(N * extra["parenthood_ratio"]))
        utilities = -np.sort(-shape_fitness(ctx, f, sense, method))
        if cut < N and utilities[cut - 1] - utilities[cut] < 1e-9:
            # samples of equal utility on both sides of the cut: which of them are elites is not defined
            method = "centered"
    before = {k: fingerprint(v) for k, v in d.parameters.items()}
    with Frozen(ctx, "gradient-inputs-changed", samples=xs, fitnesses=fs):
        g = d.compute_gradients(xs, fs, objective_sense=sense, ranking_method=method)
    ctx.event("gradients")
    ctx.event("raw" if method in (None, "raw") else "ranked")
    w = shape_fitness(ctx, f, sense, method)
    ref = ref_grad(C, x, w, method, mu, A, pars, f)
    tol = dict(rtol=2e-3, atol=2e-3) if dtype == torch.float32 else dict(rtol=1e-7, atol=1e-8)
    scale = max(1.0, float(np.abs(w).sum()) * max(1.0, float(np.abs(x - mu).max()) ** 2 / max(1e-3, float(np.diag(A).min()))))
    tol["atol"] *= scale if dtype == torch.float32 else scale
    ctx.check(set(g) == set(ref), "gradient-keys", f"{set(g)}")
    for k in ref:
        ctx.close(g[k], ref[k], f"gradient:{C.__name__}:{k}", f"{k} gradient with ranking {method}, sense {sense}, options {extra}", **tol)
    if "parenthood_ratio" in extra:
        ctx.event("elites")
    elif extra:
        ctx.event("divided")
    ctx.check({k: fingerprint(v) for k, v in d.parameters.items()} == before, "distribution-changed:gradients", "")
    # the functional estimator gives the same
    if "d" not in ref:
        fixed = dict(extra)
        est = make_functional_grad_estimator(C, required_parameters=["mu", "sigma"], objective_sense=sense, ranking_method=method, fixed_parameters=fixed)
        call = ctx.choice(["positional", "keywords", "swapped", "declared_swapped", "overridden"])
        ctx.event(f"called_{call}")
        P = {k: d.parameters[k] for k in ("mu", "sigma")}
        if call == "positional":
            gf = est(xs, fs.to(dtype), P["mu"], P["sigma"])
        elif call == "keywords":
            gf = est(xs, fs.to(dtype), mu=P["mu"], sigma=P["sigma"])
        elif call == "swapped":
            gf = est(xs, fs.to(dtype), sigma=P["sigma"], mu=P["mu"])
        elif call == "declared_swapped":
            e3 = make_functional_grad_estimator(C, required_parameters=["sigma", "mu"], objective_sense=sense, ranking_method=method, fixed_parameters=fixed)
            gf = e3(xs, fs.to(dtype), P["sigma"], P["mu"])
        else:  # what is given at the call counts
            e3 = make_functional_grad_estimator(C, required_parameters=["mu", "sigma"], objective_sense="max" if sense == "min" else "min", ranking_method="nes" if method != "nes" else "centered", fixed_parameters=fixed)
            gf = e3(xs, fs.to(dtype), objective_sense=sense, ranking_method=method, **P)
        ctx.event("functional_estimator")
        for k in ref:
            ctx.close(gf[k], ref[k], f"functional-gradient:{C.__name__}:{k}", "", **tol)
        gf2 = est(torch.stack([xs, xs.flip(0)]), torch.stack([fs, fs.flip(0)]).to(dtype), mu=d.parameters["mu"], sigma=torch.stack([d.parameters["sigma"]] * 2))
        if C is not SymmetricSeparableGaussian:
            for i in range(2):
                for k in ref:
                    ctx.close(gf2[k][i], ref[k], f"functional-batched-gradient:{C.__name__}:{k}", f"batch item {i}; the estimate does not depend on the order of the samples", **tol)
    # update
    lr_mu, lr_s = ctx.uniform(0.01, 1.5), ctx.uniform(0.001, 0.05) / scale
    use_opt = ctx.flip(0.3)
    ascent = None
    lrs = {"mu": lr_mu, "sigma": lr_s}
    opts = None
    gg = {k: torch.as_tensor(v) for k, v in g.items()}
    gref = {k: to_np(v).astype(float) for k, v in gg.items()}
    first = "d" if "d" in gref else "mu"
    step = lr_mu * gref[first]
    if use_opt:
        O = ctx.choice([Adam, ClipUp])
        seen = []

        class Spy(O):
            def ascent(self, g, cloned_result=True):
                r = O.ascent(self, g, cloned_result=cloned_result)
                seen.append((to_np(g).copy(), to_np(r).copy()))
                return r

        opts = {"mu": Spy(solution_length=n, dtype=dtype, stepsize=0.1)}
        del lrs["mu"]
        ctx.event("optimizer_updates")
    with Frozen(ctx, "update-inputs-changed", gradients=gg, rates=lrs):
        e = d.update_parameters(gg, learning_rates=lrs, **({"optimizers": opts} if opts or ctx.flip() else {}))
    if use_opt:
        ctx.check(len(seen) == 1, "optimizer-calls", f"{len(seen)}")
        ctx.close(seen[0][0], gref[first], "optimizer-gradient", "", rtol=1e-6)
        step = seen[0][1].astype(float)
    ctx.event("updates")
    ctx.check(type(e) is C and e is not d, "update-type", f"{type(e)}")
    ctx.check({k: fingerprint(v) for k, v in d.parameters.items()} == before, "distribution-changed:update", "update_parameters changed the original distribution")
    if C is ExpGaussian:
        m = lr_s * gref["M"]
        want = {"mu": mu + A @ step, "sigma": A @ mat_exp(0.5 * m)}
        inv = np.linalg.inv(want["sigma"])
        ctx.close(e.A_inv, inv, "update:A_inv", "", rtol=5e-3 if dtype == torch.float32 else 1e-6, atol=1e-4)
    elif C is ExpSeparableGaussian:
        want = {"mu": mu + step, "sigma": np.diag(A) * np.exp(0.5 * lr_s * gref["sigma"])}
        ctx.check(bool((to_np(e.sigma) > 0).all()), "sigma-not-positive", f"{e.sigma}")
    else:
        want = {"mu": mu + step, "sigma": np.diag(A) + lr_s * gref["sigma"]}
    for k in want:
        ctx.close(e.parameters[k], want[k], f"update:{C.__name__}:{k}", f"step {step}, sigma rate {lr_s}", rtol=1e-4 if dtype == torch.float32 else 1e-8, atol=1e-4 if dtype == torch.float32 else 1e-8)
    ctx.check(e.dtype == dtype, "update-dtype", f"{e.dtype}")
    for k, v in extra.items():
        ctx.check(e.parameters[k] == v, "update-lost-option", f"{k}")
    for v in e.parameters.values():
        if isinstance(v, torch.Tensor):
            v.zero_()
    ctx.check({k: fingerprint(v) for k, v in d.parameters.items()} == before, "update-aliases", "the updated distribution shares memory with the original")
    # refused input
    ctx.raises(ValueError, lambda: d.compute_gradients(xs, fs, objective_sense="up"), "sense-accepted", "")
    ctx.raises(ValueError, lambda: d.compute_gradients(xs, fs[1:], objective_sense=sense), "length-accepted", "")
    ctx.state(C.__name__, n, N, str(dtype), method, sense, tuple(sorted(extra.items())), use_opt)
    ctx.sample(distribution=C.__name__, mu=mu.tolist(), ranking=method, gradient={k: np.round(v, 4).tolist() for k, v in ref.items()})


@scenario("C10", quick=150, thorough=4000, needs=["moments", "mirrored", "out_argument", "correlated", "functional_sampler", "batched_sampler"])
def sampling(ctx):
    C = ctx.choice(SEP + [ExpGaussian])
    d, n, mu, A, dtype, pars = mk(ctx, C)
    N = 4000
    gen = ctx.choice([None, torch.Generator().manual_seed(ctx.randint(1, 10**6))])
    before = {k: fingerprint(v) for k, v in d.parameters.items()}
    form = ctx.choice(["num", "out", "view"])
    if form == "num":
        x = d.sample(N, generator=gen)
    elif form == "out":
        x = torch.empty((N, n), dtype=dtype)
        r = d.sample(out=x, generator=gen)
        ctx.check(r is x, "out-result", "")
        ctx.event("out_argument")
    else:
        big = torch.full((N + 10, n + 2), 7.0, dtype=dtype)
        x = big[5:-5, 1:-1]
        d.sample(out=x, generator=gen)
        ctx.check(bool((big[:5] == 7).all() and (big[-5:] == 7).all() and (big[:, 0] == 7).all() and (big[:, -1] == 7).all()), "out-overflow", "memory outside of `out` was written")
        ctx.event("out_argument")
    ctx.check({k: fingerprint(v) for k, v in d.parameters.items()} == before, "distribution-changed:sample", "")
    ctx.check(tuple(x.shape) == (N, n) and x.dtype == dtype, "sample-shape", f"{tuple(x.shape)} {x.dtype}")

    def moments(x, mu, A, eff, what, symmetric=False):
        y = to_np(x).astype(float)
        cov = A @ A.T
        sd = np.sqrt(np.diag(cov))
        ctx.event("moments")
        ctx.check(np.isfinite(y).all(), f"nonfinite:{what}", "")
        if symmetric:
            ctx.event("mirrored")
            ctx.close(y[0::2] + y[1::2], np.broadcast_to(2 * mu, (N // 2, n)), f"mirror:{what}", "pairs around the centre", rtol=1e-5, atol=1e-5 * (1 + sd.max() * 5))
        m = y.mean(0)
        ctx.check(bool(np.all(np.abs(m - mu) <= 8 * sd / np.sqrt(eff) + 1e-4)), f"mean:{what}", f"mean {m}, expected {mu} (deviation {sd}, {eff} draws)")
        c = (y - mu).T @ (y - mu) / len(y)
        err = 8 * np.sqrt(2 / eff) * np.outer(sd, sd) + 1e-6
        ctx.check(bool(np.all(np.abs(c - cov) <= err)), f"covariance:{what}", f"covariance {c.tolist()}, expected {cov.tolist()}")
        z = np.abs((y - mu) / sd)
        q = (z < 0.6745).mean(0)
        ctx.check(bool(np.all(np.abs(q - 0.5) < 8 * 0.5 / np.sqrt(eff))), f"quartile:{what}", f"{q}")

    sym = C is SymmetricSeparableGaussian
    moments(x, mu, A, N / 2 if sym else N, C.__name__, sym)
    if C is ExpGaussian:
        ctx.event("correlated")
        ctx.close(d.cov, A @ A.T, "cov", "reported covariance is that of the samples", rtol=1e-4, atol=1e-4)
        back = d.to_local_coordinates(x[:50])
        ctx.close(d.to_global_coordinates(back), x[:50], "coordinates", "", rtol=1e-3, atol=1e-3)
        moments(d.to_local_coordinates(x), np.zeros(n), np.eye(n), N, "local coordinates")
        new = torch.tensor(A * 2.0 + np.eye(n), dtype=dtype)
        d.sigma = new
        ctx.close(d.A_inv, np.linalg.inv(A * 2.0 + np.eye(n)), "stale-inverse", "inverse after setting sigma", rtol=1e-3, atol=1e-4)
    else:
        fsamp = make_functional_sampler(C, required_parameters=["mu", "sigma"])
        y = fsamp(N, d.parameters["mu"], d.parameters["sigma"])
        ctx.event("functional_sampler")
        ctx.check(tuple(y.shape) == (N, n) and y.dtype == dtype, "functional-shape", f"{tuple(y.shape)}")
        moments(y, mu, A, N / 2 if sym else N, "functional " + C.__name__, sym)
        mus = torch.stack([d.parameters["mu"], d.parameters["mu"] + 100])
        y = fsamp(N, mu=mus, sigma=d.parameters["sigma"]) if ctx.flip() else fsamp(N, sigma=d.parameters["sigma"], mu=mus)
        ctx.event("batched_sampler")
        ctx.check(tuple(y.shape) == (2, N, n), "batched-shape", f"{tuple(y.shape)}")
        for i in range(2):
            moments(y[i], mu + 100 * i, A, N / 2 if sym else N, "batched " + C.__name__, sym)
        ctx.check(not torch.equal(y[0], y[1] - 100), "batched-same-noise", "batch items share their random draws")
        f1 = make_functional_sampler(C, required_parameters=["mu"], fixed_parameters={"sigma": d.parameters["sigma"]})
        moments(f1(N, d.parameters["mu"]), mu, A, N / 2 if sym else N, "fixed-sigma " + C.__name__, sym)
        k = ctx.randint(2, 3)
        d2 = d.modified_copy(sigma=d.parameters["sigma"] * k)
        moments(d2.sample(N), mu, A * k, N / 2 if sym else N, "modified " + C.__name__, sym)
        ctx.check({k: fingerprint(v) for k, v in d.parameters.items()} == before, "distribution-changed:modified_copy", "")
    # moved to another device: everything goes along, the original stays
    ctx.check(d.to("cpu") is d, "to", "the device it is on already")
    far = d.to("meta")
    ctx.check(type(far) is C and far.device == torch.device("meta") and far.dtype == dtype and far.solution_length == n, "to", f"{far.device} {far.dtype} {far.solution_length}")
    ctx.check(all(v.device == torch.device("meta") for v in far.parameters.values() if isinstance(v, torch.Tensor)) and set(far.parameters) == set(d.parameters), "to", f"{far.parameters}")
    ctx.check(all(v.device == torch.device("cpu") for v in d.parameters.values() if isinstance(v, torch.Tensor)), "to", "the original moved")
    ctx.check(tuple(far.sample(6).shape) == (6, n), "to", "samples")
    ctx.raises(ValueError, lambda: C({**d.parameters}, solution_length=n + 1), "length-accepted", "solution_length other than the length of mu")
    # setting the center
    new = mu + ctx.np.integers(-3, 4, size=n)
    d.mu = ctx.choice([list(map(float, new)), new.copy(), torch.tensor(new)])
    ctx.check(isinstance(d.mu, torch.Tensor) and d.mu.dtype == dtype and d.parameters["mu"] is d.mu, "set-mu", f"{d.mu}")
    if C is not ExpGaussian:
        moments(d.sample(N, generator=gen), new, A, N / 2 if sym else N, "moved " + C.__name__, sym)
        s2 = np.diag(A) * 2
        d.sigma = ctx.choice([list(map(float, s2)), s2.copy(), torch.tensor(s2)])
        ctx.check(d.sigma.dtype == dtype, "set-sigma", f"{d.sigma}")
        moments(d.sample(N, generator=gen), new, A * 2, N / 2 if sym else N, "widened " + C.__name__, sym)
    ctx.event("setters")
    if sym:
        ctx.raises(ValueError, lambda: d.sample(5), "odd-accepted", "odd number of mirrored samples")
    ctx.raises(ValueError, lambda: d.sample(), "nothing-accepted", "")
    ctx.raises(ValueError, lambda: d.sample(4, out=torch.empty(4, n)), "both-accepted", "")
    ctx.raises(ValueError, lambda: d.sample(out=torch.empty(4, n + 1, dtype=dtype)), "width-accepted", "")
    ctx.raises(ValueError, lambda: C({"mu": pars["mu"]}) if False else C({**pars, "nonsense": 1}), "unknown-parameter", "")
    ctx.state(C.__name__, n, form, gen is None, str(dtype))
    ctx.sample(distribution=C.__name__, mu=mu.tolist(), form=form)


@scenario("C10", quick=100, thorough=2500, needs=["divergence", "divergence_many", "bound_estimator"])
def divergence_and_bound_estimators(ctx):
    d, n, mu, A, dtype, _ = mk(ctx, SeparableGaussian, dtype=torch.float64)
    e, _, mu2, A2, _, _ = mk(ctx, SeparableGaussian, n=n, dtype=torch.float64)
    s, t = np.diag(A), np.diag(A2)
    kl = float(sum(np.log(t[i] / s[i]) + (s[i] ** 2 + (mu[i] - mu2[i]) ** 2) / (2 * t[i] ** 2) - 0.5 for i in range(n)))
    ctx.event("divergence")
    ctx.close(float(d.relative_entropy(e)), kl, "relative-entropy", "", rtol=1e-8, atol=1e-8)
    # many variables, narrow or wide
    if ctx.flip(0.3):
        m = ctx.randint(100, 1000)
        scale = 10.0 ** ctx.randint(-5, 5)
        s, t = scale * ctx.np.uniform(0.5, 2.0, m), scale * ctx.np.uniform(0.5, 2.0, m)
        mu1, mu2 = ctx.np.normal(size=m), scale * ctx.np.normal(size=m)
        mu2 = mu1 + mu2
        wide, other = (SeparableGaussian({"mu": torch.tensor(x), "sigma": torch.tensor(y)}) for x, y in ((mu1, s), (mu2, t)))
        ctx.close(float(wide.relative_entropy(other)), float((np.log(t / s) + (s**2 + (mu1 - mu2) ** 2) / (2 * t**2) - 0.5).sum()), "relative-entropy", f"{m} variables of scale {scale}", rtol=1e-6)
        ctx.event("divergence_many")
    # estimator bound to a function: what it returns must belong together
    C = ctx.choice(SEP)
    calls = []

    def f(x):
        return torch.sum(x**3, dim=-1)

    sense = ctx.choice(["min", "max"])
    method = ctx.choice(["centered", "nes", "raw", "linear"])
    est = make_functional_grad_estimator(C, function=f, required_parameters=["mu", "sigma"], objective_sense=sense, ranking_method=method, return_samples=True, return_fitnesses=True)
    r = est(10, d.parameters["mu"], d.parameters["sigma"])
    ctx.event("bound_estimator")
    x, fit = to_np(r.samples).astype(float), to_np(r.fitnesses).astype(float)
    ctx.check(x.shape == (10, n) and fit.shape == (10,), "bound-shapes", f"{x.shape} {fit.shape}")
    ctx.close(fit, (x**3).sum(-1), "bound-fitness", "", rtol=1e-9, atol=1e-9)
    w = shape_fitness(ctx, fit, sense, method)
    ref = ref_grad(C, x, w, method, mu, A, {}, fit)
    for k in ref:
        ctx.close(r.grads[k], ref[k], f"bound-gradient:{C.__name__}:{k}", "", rtol=1e-6, atol=1e-6 * max(1.0, float(np.abs(w).sum())))
    r2 = est(10, mu=torch.stack([d.parameters["mu"]] * 3), sigma=d.parameters["sigma"])
    for i in range(3):
        x, fit = to_np(r2.samples[i]).astype(float), to_np(r2.fitnesses[i]).astype(float)
        ctx.close(fit, (x**3).sum(-1), "bound-batched-fitness", "", rtol=1e-9, atol=1e-9)
        w = shape_fitness(ctx, fit, sense, method)
        ref = ref_grad(C, x, w, method, mu, A, {}, fit)
        for k in ref:
            ctx.close(r2.grads[k][i], ref[k], f"bound-batched-gradient:{C.__name__}:{k}", "", rtol=1e-6, atol=1e-6 * max(1.0, float(np.abs(w).sum())))
    other = "max" if sense == "min" else "min"
    for give in ({"return_samples": True}, {"return_fitnesses": True}, {}):
        r3 = make_functional_grad_estimator(C, function=f, required_parameters=["mu", "sigma"], objective_sense=sense, ranking_method=method, **give)(6, sigma=d.parameters["sigma"], mu=d.parameters["mu"])
        ctx.check(isinstance(r3, dict) if not give else getattr(r3, "_fields", None) == ("grads",) + tuple(k[7:] for k in give), "bound-result", f"{give}: {type(r3)}")
        if "return_samples" in give:
            x = to_np(r3.samples).astype(float)
            fit = (x**3).sum(-1)
            w = shape_fitness(ctx, fit, sense, method)
            ref = ref_grad(C, x, w, method, mu, A, {}, fit)
            for k in ref:
                ctx.close(r3.grads[k], ref[k], f"bound-samples-gradient:{C.__name__}:{k}", "", rtol=1e-6, atol=1e-6 * max(1.0, float(np.abs(w).sum())))
    ctx.raises(ValueError, lambda: make_functional_grad_estimator(C, function=f, required_parameters=["mu", "sigma"])(4, d.mu, d.sigma), "no-sense", "")
    e2 = make_functional_grad_estimator(C, required_parameters=["mu", "sigma"], objective_sense=sense, ranking_method=method)
    a = e2(r.samples, r.fitnesses, d.mu, d.sigma)
    b = e2(r.samples, -r.fitnesses, d.mu, d.sigma, **{}) if False else make_functional_grad_estimator(C, required_parameters=["mu", "sigma"], objective_sense=other, ranking_method=method)(r.samples, -r.fitnesses, d.mu, d.sigma)
    for k in a:
        ctx.close(a[k], b[k], "sense-symmetry", "", rtol=1e-9, atol=1e-9)
    ctx.state(C.__name__, n, sense, method)
    ctx.sample(kl=kl, distribution=C.__name__)
