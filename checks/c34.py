"""C34: distributed gradient estimation and adaptive populations add up."""

import math

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms import CEM, PGPE, SNES, XNES
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian

from checks.c10 import ref_grad, shape_fitness
from checks.c11 import advance, as_matrix, objectives, setup
from vmon.compare import to_np
from vmon.engine import rule, scenario

rule("C34", "A case is one gradient request, or one search of several generations, with its workers, splitting, interaction target and weighting.")
ASSUMPTIONS = [
    "workers run inside the checking process (ray's local mode) with a random completion order",
    "interaction counts are reported by the problem; a count that equals the target exactly may end the sampling or not",
]

TASKS = []  # gradient computations observed, in this process
BATCHES = []  # evaluated batches, in this process
FAILING = set()  # numbers of the gradient computations which are to fail


class Rec(Problem):
    """records every gradient computation and every evaluated batch; solutions cost interactions"""

    def __init__(self, senses, f, n, dtype, **kw):
        super().__init__(senses, solution_length=n, initial_bounds=(-2, 3), dtype=dtype, eval_dtype=dtype, **kw)
        self.f = f
        self.interactions = 0
        self.calls = []
        self.after_eval_hook.append(self.report)

    def report(self, batch):
        return {"total_interaction_count": self.interactions}

    def cost(self, x):
        return 2 + 2 * (torch.floor(x.abs().sum(-1) * 10).to(torch.int64) % 7)

    def _evaluate_batch(self, batch):
        x = batch.values
        y = self.f(torch.as_tensor(to_np(x), dtype=self.dtype))
        batch.set_evals(y)
        c = int(self.cost(torch.as_tensor(to_np(x))).sum())
        self.interactions += c
        BATCHES.append(dict(worker=self.actor_index, x=to_np(x).astype(float).copy(), y=to_np(y).astype(float).reshape(len(x), -1), cost=c))
        if TASKS and TASKS[-1]["open"]:
            TASKS[-1]["batches"].append(BATCHES[-1])

    def _get_local_interaction_count(self):
        return self.interactions

    def _sample_and_compute_gradients(self, distribution, popsize, **kw):
        TASKS.append(dict(open=True, worker=self.actor_index, popsize=popsize, kw=kw, batches=[]))
        try:
            if len(TASKS) - 1 in FAILING:
                raise RuntimeError("the gradient computation failed")
            r = super()._sample_and_compute_gradients(distribution, popsize, **kw)
        finally:
            TASKS[-1]["open"] = False
        TASKS[-1]["result"] = r
        return r

    def sample_and_compute_gradients(self, *args, **kw):
        r = super().sample_and_compute_gradients(*args, **kw)
        if self.is_main:
            self.calls.append(r)
        return r


def merged(task):
    x = np.concatenate([b["x"] for b in task["batches"]])
    y = np.concatenate([b["y"] for b in task["batches"]])
    return x, y


def adaptive_rule(ctx, batches, popsize, target, limit, where):
    """the sampling went on exactly until the target or the limit was reached"""
    made = size = 0
    for k, b in enumerate(batches):
        last = k == len(batches) - 1
        ctx.check(len(b["x"]) == popsize, "round_size", f"{where}: a round of {len(b['x'])} solutions, expected {popsize}")
        made += b["cost"]
        size += len(b["x"])
        reached = made > target or (limit is not None and size >= limit)
        if made == target:
            if last:
                break
            continue
        ctx.check(reached == last, "adaptive_end", f"{where}: after round {k + 1} of {len(batches)}: {made} interactions (target {target}), {size} solutions (limit {limit})")
    ctx.event("adaptive_rounds", len(batches))
    if len(batches) > 1:
        ctx.event("several_rounds")


def match(ctx, result, with_stats, tasks, obj, refs, tol, where):
    """pair each returned gradient with one recorded sub-population"""
    left = list(range(len(tasks)))
    ctx.check(len(result) == len(tasks), "task_count", f"{where}: {len(result)} gradients from {len(tasks)} sub-populations")
    for r in result:
        g = r["gradients"] if with_stats else r
        best = None
        for i in left:
            ok = set(g) == set(refs[i]) and all(np.allclose(to_np(g[k]), refs[i][k], **tol) for k in g)
            if ok and with_stats:
                x, y = merged(tasks[i])
                ok = r["num_solutions"] == len(x) and np.isclose(r["mean_eval"], y[:, obj].mean(), rtol=1e-4, atol=1e-3)
            if ok:
                best = i
                break
        ctx.check(best is not None, "gradient", lambda: f"{where}: the returned {r} fits none of the sub-populations: {[dict(n=len(merged(tasks[i])[0]), mean=merged(tasks[i])[1][:, obj].mean(), **{k: np.round(v, 4).tolist() for k, v in refs[i].items()}) for i in left]}")
        left.remove(best)
        ctx.event("gradients_matched")


def expected_sizes(popsize, workers, split, m, even):
    if split == "size":
        sizes = [m] * (popsize // m)
    else:
        k = workers if split == "default" else m
        sizes = [s for s in [popsize // k + (1 if i < popsize % k else 0) for i in range(k)] if s]
    return [s + (s % 2) for s in sizes] if even else sizes


def splitting(ctx, popsize, even):
    workers = ctx.choice([2, 2, 3, 4, 5])
    split = ctx.choice(["default", "default", "num", "size"])
    par, m = {"num_actors": workers}, None
    if split == "num":
        par["num_subbatches"] = m = ctx.randint(1, 6)
    elif split == "size":
        divisors = [d for d in range(1, popsize + 1) if popsize % d == 0 and (not even or d % 2 == 0)]
        par["subbatch_size"] = m = ctx.choice(divisors)
    return workers, split, m, par


@scenario("C34", quick=160, thorough=3500, ray="local", needs=["gradients_matched", "several_rounds", "more_tasks_than_solutions", "without_stats", "main_process", "even_sizes", "hooks"])
def requests(ctx):
    """Problem.sample_and_compute_gradients"""
    TASKS.clear()
    BATCHES.clear()
    C = ctx.choice([SeparableGaussian, SymmetricSeparableGaussian, ExpSeparableGaussian, ExpGaussian])
    even = C is SymmetricSeparableGaussian or ctx.flip(0.15)
    n = ctx.randint(1, 3)
    nobj = ctx.choice([1, 1, 2])
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    f, kinds = objectives(ctx, nobj)
    dtype = ctx.choice([torch.float64, torch.float64, torch.float32])
    method = ctx.choice(["centered", "linear", "nes", "raw", None, "normalized"])
    popsize = ctx.choice([4, 6, 8, 12, 20, 30]) if not ctx.flip(0.3) else 2 * ctx.randint(1, 9) + (0 if even else ctx.randint(0, 1))
    main = ctx.flip(0.2)
    workers, split, m, par = splitting(ctx, popsize, even)
    p = Rec(senses if nobj > 1 else senses[0], f, n, dtype, seed=ctx.choice([None, 3]), **({} if main else par))
    extra = {}
    if C in (SeparableGaussian, SymmetricSeparableGaussian):
        by = "num_directions" if C is SymmetricSeparableGaussian else "num_solutions"
        extra = {"divide_mu_grad_by": by, "divide_sigma_grad_by": by}
    mu = ctx.np.normal(size=n)
    A = np.diag(ctx.np.uniform(0.4, 2, size=n))
    if C is ExpGaussian and n > 1:
        A = A + 0.2 * ctx.np.normal(size=(n, n))
        A = A @ A.T + 0.3 * np.eye(n)
    ddt = ctx.choice([dtype, torch.float64])
    d = C(dict(mu=torch.tensor(mu), sigma=torch.tensor(A if C is ExpGaussian else np.diag(A).copy()), **extra), dtype=ddt)
    obj = ctx.randint(0, nobj - 1)
    kw = {}
    if nobj > 1:
        kw["obj_index"] = obj if ctx.flip() else obj - nobj
    elif ctx.flip():
        kw["obj_index"] = ctx.choice([0, -1])
    if method is not None or ctx.flip():
        kw["ranking_method"] = method
    stats = ctx.flip(0.7)
    if not stats or ctx.flip():
        kw["with_stats"] = stats
    if even:
        kw["ensure_even_popsize"] = True
    target = limit = None
    if ctx.flip(0.4):
        target = kw["num_interactions"] = ctx.randint(popsize, popsize * 60)
        if ctx.flip(0.4):
            limit = kw["popsize_max"] = ctx.randint(popsize, popsize * 6)
    grads = []
    p.before_grad_hook.append(lambda: grads.append("before"))
    p.after_grad_hook.append(lambda results: grads.append("after") or {"seen": 7})
    ctx.note(C.__name__, str(dtype), f"popsize={popsize} main={main} workers={workers} split={split} m={m} kinds={kinds} senses={senses}", str(kw))
    for call in range(ctx.randint(1, 2)):
        TASKS.clear()
        BATCHES.clear()
        grads.clear()
        r = p.sample_and_compute_gradients(d, popsize, **kw)
        ctx.check(grads == ["before", "after"] and p.status.get("seen") == 7, "grad_hooks", f"{grads} {p.status}")
        ctx.event("hooks")
        ctx.check(isinstance(r, dict if main else list), "result_type", f"{type(r)}")
        if main:
            r = [r]
            ctx.event("main_process")
        sizes = [popsize] if main else expected_sizes(popsize, workers, split, m, even)
        got = [t["popsize"] for t in TASKS]
        ctx.check(sorted(got) == sorted(sizes), "sizes", f"sub-populations {got}, expected {sizes}")
        if not stats:
            ctx.event("without_stats")
        if even:
            ctx.event("even_sizes")
            ctx.check(all(len(b["x"]) % 2 == 0 for b in BATCHES), "even", f"{[len(b['x']) for b in BATCHES]}")
        if not main and len(sizes) < (workers if split == "default" else m if split == "num" else 0):
            ctx.event("more_tasks_than_solutions")
        refs = []
        for t in TASKS:
            where = f"task of {t['popsize']}"
            ctx.check((t["worker"] is None) == main, "who", f"{where} by {t['worker']}")
            if target is None:
                ctx.check([len(b["x"]) for b in t["batches"]] == [t["popsize"]], "rounds", f"{where}: {[len(b['x']) for b in t['batches']]}")
            else:
                share = t["popsize"] / popsize
                adaptive_rule(ctx, t["batches"], t["popsize"], math.ceil(share * target), None if limit is None else math.ceil(share * limit), where)
            x, y = merged(t)
            w = shape_fitness(ctx, y[:, obj], senses[obj], method) if len(x) > 1 else None
            refs.append(None if w is None else ref_grad(C, x, w, method, mu, A, extra, y[:, obj]))
        if any(x is None for x in refs):
            continue
        if any(not np.isfinite(v).all() for x in refs for v in x.values()):
            continue
        tol = dict(rtol=1e-6, atol=1e-6) if dtype == torch.float64 else dict(rtol=5e-3, atol=5e-2)
        if dtype == torch.float32 and max(np.abs(merged(t)[1]).max() for t in TASKS) > 300:
            continue
        match(ctx, r, stats, TASKS, obj, refs, tol, f"{C.__name__} {method}")
        for x in r:
            g = x["gradients"] if stats else x
            ctx.check(all(v.dtype == dtype for v in g.values()), "grad_dtype", f"{ {k: v.dtype for k, v in g.items()} }")
        ctx.state(C.__name__, method, popsize, main, workers, split, m, target is None, limit is None, stats, nobj)
    ctx.same(d.parameters["mu"], torch.tensor(mu, dtype=ddt), "distribution", "centre of the given distribution")
    if not main:
        p.kill_actors()
    ctx.sample(distribution=C.__name__, sizes=sizes, target=target, limit=limit)


@scenario("C34", quick=60, thorough=1000, ray="local", needs=["failure_surfaced", "several_failed", "gradients_after_failure", "evaluation_after_failure"])
def failures(ctx):
    """workers whose gradient computation fails leave nothing behind"""
    n, popsize = ctx.randint(1, 3), 4 * ctx.randint(2, 6)
    f, kinds = objectives(ctx, 1)
    workers, split, m, par = splitting(ctx, popsize, True)
    while min(expected_sizes(popsize, workers, split, m, False)) < 2:
        workers, split, m, par = splitting(ctx, popsize, True)
    p = Rec("min", f, n, torch.float64, seed=3, **par)
    mu, A = ctx.np.normal(size=n), np.diag(ctx.np.uniform(0.4, 2, size=n))
    extra = {"divide_mu_grad_by": "num_solutions", "divide_sigma_grad_by": "num_solutions"}
    d = SeparableGaussian(dict(mu=torch.tensor(mu), sigma=torch.tensor(np.diag(A).copy()), **extra), dtype=torch.float64)
    sizes = expected_sizes(popsize, workers, split, m, False)
    ctx.note(f"popsize={popsize} workers={workers} split={split} m={m}")
    for step in range(ctx.randint(1, 3)):
        TASKS.clear()
        BATCHES.clear()
        FAILING.clear()
        FAILING.update(int(i) for i in ctx.np.choice(len(sizes), size=ctx.randint(1, min(3, len(sizes))), replace=False))
        try:
            p.sample_and_compute_gradients(d, popsize, ranking_method="centered")
        except Exception as e:
            ctx.check("gradient computation failed" in str(e), "error", lambda: f"the failure surfaced as {type(e).__name__}: {e}")
        else:
            ctx.fail("swallowed", "a gradient computation failed, but the request ended without an error")
        ctx.event("failure_surfaced")
        if len(FAILING) > 1:
            ctx.event("several_failed")
        FAILING.clear()
        for again in range(ctx.randint(1, 2)):
            TASKS.clear()
            BATCHES.clear()
            if ctx.flip(0.4):
                b = p.generate_batch(ctx.choice([1, 4, 9]))
                p.evaluate(b)
                want = to_np(f(torch.as_tensor(to_np(b.values)))).reshape(len(b), -1)
                ctx.close(b.evals, want, "after_failure", "fitnesses after a failed gradient computation", rtol=1e-9, atol=1e-9)
                ctx.event("evaluation_after_failure")
                continue
            r = p.sample_and_compute_gradients(d, popsize, ranking_method="centered")
            ctx.check(sorted(t["popsize"] for t in TASKS) == sorted(sizes), "sizes", lambda: f"sub-populations {[t['popsize'] for t in TASKS]}, expected {sizes}")
            refs = []
            for t in TASKS:
                x, y = merged(t)
                refs.append(ref_grad(SeparableGaussian, x, shape_fitness(ctx, y[:, 0], "min", "centered"), "centered", mu, A, extra, y[:, 0]))
            match(ctx, r, True, TASKS, 0, refs, dict(rtol=1e-6, atol=1e-6), "after a failure")
            ctx.event("gradients_after_failure")
    p.kill_actors()
    ctx.state(popsize, workers, split, m)


ALGOS = [PGPE, SNES, CEM, XNES]


def _close_step(ctx, name, searcher, m2, A2, where):
    c, s = to_np(searcher.status["center"]).astype(float), as_matrix(searcher.status["stdev"])
    ctx.close(c, m2, f"center:{name}", where, rtol=1e-5, atol=1e-5)
    ctx.close(s, A2, f"stdev:{name}", where, rtol=1e-5, atol=1e-5)


def _sane(mu, A, x):
    return np.linalg.cond(A) < 1e6 and np.abs(np.linalg.eigvals(A)).min() > 1e-3 and np.abs(A).max() < 1e3 and np.abs(mu).max() < 1e3


@scenario("C34", quick=150, thorough=3000, ray="local", needs=["generations", "weighted", "unweighted", "uneven_weights", "PGPE", "SNES", "CEM", "XNES", "several_rounds", "gradients_matched"])
def searches(ctx):
    """distributed=True: the search follows the average of the workers' gradients"""
    TASKS.clear()
    BATCHES.clear()
    algo = ctx.choice(ALGOS)
    name = algo.__name__
    popsize = 2 * ctx.randint(10, 20)
    workers, split, m, par = splitting(ctx, popsize, True)
    while min(expected_sizes(popsize, workers, split, m, False)) < (8 if algo is CEM else 4):
        workers, split, m, par = splitting(ctx, popsize, True)
    more = {"distributed": True}
    target = limit = None
    if algo is not XNES or True:
        if ctx.flip(0.35):
            target = more["num_interactions"] = ctx.randint(popsize * 4, popsize * 40)
            if ctx.flip(0.4):
                limit = more["popsize_max"] = ctx.randint(popsize, popsize * 4)
    weighted = target is None
    if ctx.flip(0.4):
        weighted = more["popsize_weighted_grad_avg"] = ctx.flip()
    made = {}

    def build(senses, f, n, dtype):
        made["p"] = Rec(senses if len(senses) > 1 else senses[0], f, n, dtype, seed=ctx.choice([None, 5]), **par)
        return made["p"]

    searcher, prob, ref, given, okind, kw = setup(ctx, algo=algo, dtype=torch.float64, problem=build, popsize=popsize, more=more)
    ctx.note(name, f"popsize={popsize} workers={workers} split={split} m={m} weighted={weighted}", str(kw))
    ctx.event(name)
    mu, A = ref.get("center"), np.diag(ref["stdev"])
    seen = []
    for g in range(ctx.randint(2, 4)):
        if g > 0:
            mu, A = to_np(searcher.status["center"]).astype(float), as_matrix(searcher.status["stdev"])
        elif mu is None:
            mu = to_np(searcher.status["center"]).astype(float)
        if not _sane(mu, A, None):
            break
        TASKS.clear()
        BATCHES.clear()
        searcher.step()
        tasks = list(TASKS)
        sym = ref["dist"] is SymmetricSeparableGaussian
        sizes = expected_sizes(popsize, workers, split, m, sym)
        got = [t["popsize"] for t in tasks]
        ctx.check(sorted(got) == sorted(sizes), "sizes", f"sub-populations {got}, expected {sizes}")
        refs, ns = [], []
        for t in tasks:
            if target is None:
                ctx.check([len(b["x"]) for b in t["batches"]] == [t["popsize"]], "rounds", f"{[len(b['x']) for b in t['batches']]}")
            else:
                share = t["popsize"] / popsize
                adaptive_rule(ctx, t["batches"], t["popsize"], math.ceil(share * target), None if limit is None else math.ceil(share * limit), f"task of {t['popsize']}")
            x, y = merged(t)
            fit = y[:, ref["obj"]]
            refs.append(ref_grad(ref["dist"], x, shape_fitness(ctx, fit, ref["sense"], ref["method"]), ref["method"], mu, A, ref["extra"], fit))
            ns.append(len(x))
        match(ctx, prob.calls[-1], True, tasks, ref["obj"], refs, dict(rtol=1e-5, atol=1e-5), name)
        total = sum(ns)
        ws = [k / total for k in ns] if weighted else [1 / len(ns)] * len(ns)
        avg = {k: sum(w * r[k] for w, r in zip(ws, refs)) for k in refs[0]}
        ctx.event("weighted" if weighted else "unweighted")
        if len(set(ns)) > 1:
            ctx.event("uneven_weights")
        m2, A2 = advance(ctx, ref, mu, A, None, None, grads=avg)
        if not (np.isfinite(m2).all() and np.isfinite(A2).all() and np.abs(m2).max() < 1e6 and np.abs(A2).max() < 1e6):
            break
        _close_step(ctx, name, searcher, m2, A2, f"generation {g}, sub-populations {ns}, weighted {weighted}, ranking {ref['method']}")
        fits = np.concatenate([merged(t)[1][:, ref["obj"]] for t in tasks])
        ctx.close(searcher.status["mean_eval"], fits.mean(), "mean_eval", "mean over all sampled solutions", rtol=1e-6, atol=1e-6)
        ctx.event("generations")
        ctx.state(name, popsize, workers, split, m, weighted, target is None, limit is None, tuple(sorted(ns)))
    prob.kill_actors()
    ctx.sample(algorithm=name, sizes=got, weighted=weighted, target=target)


@scenario("C34", quick=120, thorough=2500, needs=["generations", "several_rounds", "limit_reached", "PGPE", "SNES", "CEM", "XNES"])
def adaptive(ctx):
    """interaction targets in the main process"""
    TASKS.clear()
    BATCHES.clear()
    algo = ctx.choice(ALGOS)
    name = algo.__name__
    popsize = 2 * ctx.randint(4, 10)
    target = ctx.randint(popsize * 4, popsize * 40)
    more = {"num_interactions": target}
    if ctx.flip(0.2):
        more["distributed"] = True  # without workers, this has no effect
    limit = None
    if ctx.flip(0.5):
        limit = more["popsize_max"] = ctx.randint(popsize, popsize * 4)

    def build(senses, f, n, dtype):
        return Rec(senses if len(senses) > 1 else senses[0], f, n, dtype, seed=ctx.choice([None, 5]))

    searcher, prob, ref, given, okind, kw = setup(ctx, algo=algo, dtype=torch.float64, problem=build, popsize=popsize, more=more)
    ctx.event(name)
    ctx.note(name, str(kw))
    if ctx.flip(0.3):
        # interactions made before the search do not count
        prob.evaluate(prob.generate_batch(ctx.randint(1, 50)))
        ctx.event("earlier_interactions")
    for g in range(ctx.randint(2, 4)):
        if g > 0:
            mu, A = to_np(searcher.status["center"]).astype(float), as_matrix(searcher.status["stdev"])
            x = to_np(searcher.population.values).astype(float)
            fit = to_np(searcher.population.evals).astype(float)[:, ref["obj"]]
            if not _sane(mu, A, x):
                break
        BATCHES.clear()
        searcher.step()
        adaptive_rule(ctx, BATCHES, popsize, target, limit, f"generation {g}")
        if limit is not None and sum(len(b["x"]) for b in BATCHES) >= limit:
            ctx.event("limit_reached")
        pop = searcher.population
        ctx.same(pop.values, np.concatenate([b["x"] for b in BATCHES]), "population", "all sampled solutions are in the population")
        ctx.same(pop.evals, np.concatenate([b["y"] for b in BATCHES]), "population", "with their fitnesses")
        if "distributed" not in more:
            ctx.check(searcher.status["popsize"] == len(pop), "popsize", f"status says {searcher.status['popsize']}, there are {len(pop)}")
        ctx.close(searcher.status["mean_eval"], np.concatenate([b["y"] for b in BATCHES])[:, ref["obj"]].mean(), "mean_eval", "mean over all sampled solutions", rtol=1e-6, atol=1e-6)
        if g > 0:
            m2, A2 = advance(ctx, ref, mu, A, x, fit)
            if not (np.isfinite(m2).all() and np.isfinite(A2).all() and np.abs(m2).max() < 1e6 and np.abs(A2).max() < 1e6):
                break
            _close_step(ctx, name, searcher, m2, A2, f"generation {g} after {len(x)} solutions")
            ctx.event("generations")
        ctx.state(name, popsize, len(BATCHES), limit is None)
    ctx.sample(algorithm=name, popsize=popsize, rounds=len(BATCHES), target=target, limit=limit)
