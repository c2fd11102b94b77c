"""C08: maximising a function behaves like minimising its negation."""

import numpy as np
import torch
from evotorch.algorithms import functional as func

from evotorch import Problem, SolutionBatch
from evotorch.tools.ranking import rank, rankers

from vmon import zoo
from vmon.compare import to_np
from vmon.engine import rule, scenario

rule("C08", "A case is one pair of searches with the same seed and options: one on a problem, the other with some objectives negated and their direction turned around; both are compared generation by generation.")
ASSUMPTIONS = [
    "objectives are continuous, so different solutions have different fitnesses",
    "the medians of the two directions are compared for odd population sizes only, as the lower of two middle values is reported",
    "a pair in which both searches fail with the same error ends its case",
]

BEST = {"best", "worst", "pop_best"}


def attempt(fn):
    try:
        fn()
        return None
    except Exception as e:
        return type(e)


def compare_status(ctx, a, b, flips, key, popsize):
    """the status reports of the two searches"""
    sa, sb = a.search.status, b.search.status
    ka, kb = set(sa), set(sb)
    ctx.check(ka == kb, f"status-keys:{key}", lambda: f"{sorted(ka ^ kb)}")
    for k in sorted(ka):
        j, name = 0, k
        if k.startswith("obj") and k[3:4].isdigit():
            head, name = k.split("_", 1)
            j = int(head[3:])
        elif name.startswith(("pop_best", "mean_eval", "median_eval")):
            j = a.obj
        sign = -1.0 if flips[j] else 1.0
        if name in BEST:
            va, vb = sa[k], sb[k]
            if va is None or vb is None:
                ctx.check(va is vb, f"status:{name}:{key}", f"{k}: {va} {vb}")
                continue
            # with several objectives there is one best solution for each of them
            va, vb = (list(v) if isinstance(v, (list, tuple)) else [v] for v in (va, vb))
            ctx.check(len(va) == len(vb), f"status:{name}:{key}", f"{k}: {va} {vb}")
            for x, y in zip(va, vb):
                ctx.close(y.values, x.values, f"status:{name}:{key}", f"{k} values", rtol=1e-5)
                ctx.close(to_np(y.evals)[: len(flips)] * signs(flips), to_np(x.evals)[: len(flips)], f"status:{name}:{key}", f"{k} evals", rtol=1e-5)
                ctx.event("best_reports")
        elif name in ("best_eval", "worst_eval", "pop_best_eval", "mean_eval") or (name == "median_eval" and popsize % 2 == 1):
            va, vb = sa[k], sb[k]
            if va is None or vb is None:
                ctx.check(va is vb, f"status:{name}:{key}", f"{k}: {va} {vb}")
                continue
            ctx.close(float(vb) * sign, float(va), f"status:{name}:{key}", k, rtol=1e-5)
            ctx.event("fitness_reports")
        elif name in ("center", "stdev", "sigma", "C", "iter", "num_restarts") and not isinstance(sa[k], str):
            ctx.close(sb[k], sa[k], f"status:{name}:{key}", k, rtol=1e-5)
            ctx.event("state_reports")


def signs(flips):
    return np.array([-1.0 if t else 1.0 for t in flips])


@scenario("C08", quick=420, thorough=9000, needs=["generations", "best_reports", "fitness_reports", "state_reports", "several_objectives", "some_flipped", "all_flipped"] + [f"kind:{k}" for k in zoo.KINDS])
def searches(ctx):
    kind = zoo.KINDS[ctx.index % len(zoo.KINDS)]
    seed = ctx.randint(1, 10**6)
    mode = ctx.choice(["all", "all", "some"])
    mask = [ctx.flip() for _ in range(4)]
    again = zoo.Replay(ctx)

    def flips_of(n):
        if mode == "all" or n == 1:
            return [True] * n
        m = mask[:n]
        return m if any(m) else [True] + m[1:]

    a = again(zoo.make, ctx, lambda senses, f, n, dtype, **kw: zoo.make_problem(senses, f, n, dtype, seed=seed, **kw), kind)
    # the library "cma" draws from the global generator, seeded when its object is made: run that search to its end first
    gens = 3 + ctx.index % 5
    flips = flips_of(a.nobj)
    key = kind
    ctx.event(f"kind:{kind}")
    ctx.event("all_flipped" if all(flips) else "some_flipped")
    if a.nobj > 1:
        ctx.event("several_objectives")
    ctx.state(*a.about, tuple(flips))
    ctx.note(a.about, flips, seed)

    def make_b():
        return again(zoo.make, ctx, lambda senses, f, n, dtype, **kw: zoo.make_problem(senses, f, n, dtype, seed=seed, flip=flips_of(len(senses)), **kw), kind)

    def compare(g, xa, xb, ea, eb):
        ctx.check(ea == eb, f"failure:{key}", f"generation {g}: {ea} against {eb}")
        if ea is not None:
            ctx.event("both_failed")
            return False
        if xa is None or xb is None:
            ctx.check(xa is xb is None, f"population:{key}", f"{xa} {xb}")
            return True
        ctx.close(xb[0], xa[0], f"values:{key}", f"generation {g}: decision values with {flips} turned around", rtol=1e-5, atol=1e-6)
        ctx.close(xb[1][:, : len(flips)] * signs(flips), xa[1][:, : len(flips)], f"evals:{key}", f"generation {g}: fitnesses", rtol=1e-5, atol=1e-6)
        ctx.close(xb[1][:, len(flips) :], xa[1][:, len(flips) :], f"eval-data:{key}", f"generation {g}: evaluation data", rtol=1e-5, atol=1e-6)
        ctx.event("generations")
        return True

    if kind == "PyCMAES":
        runs = []
        for m in (a, None):
            if m is None:
                b = m = make_b()
            out = []
            for g in range(gens):
                e = attempt(m.search.step)
                out.append((None if e else zoo.snapshot(m), e))
            runs.append(out)
        for g, ((xa, ea), (xb, eb)) in enumerate(zip(*runs)):
            if not compare(g, xa, xb, ea, eb):
                return
        compare_status(ctx, a, b, flips, key, len(a.search.population))
        return
    b = make_b()
    for g in range(gens):
        ea, eb = attempt(a.search.step), attempt(b.search.step)
        if not compare(g, None if ea else zoo.snapshot(a), None if eb else zoo.snapshot(b), ea, eb):
            return
        if ctx.index % 3 == 0 or g == gens - 1:
            pop = zoo.population(a)
            compare_status(ctx, a, b, flips, key, 0 if pop is None else len(pop))
    ctx.sample(kind=kind, flips=flips, generations=gens, about=a.about)


@scenario("C08", quick=200, thorough=4000, needs=["functional_steps", "cem", "pgpe", "batched"])
def functional(ctx):
    n, pop = ctx.randint(1, 5), 2 * ctx.randint(3, 8)
    batch = tuple(ctx.randint(1, 3) for _ in range(ctx.choice([0, 0, 1, 2])))
    if batch:
        ctx.event("batched")
    dtype = ctx.choice([torch.float32, torch.float64])
    f = zoo.columns(ctx, n, 1)
    c = torch.tensor(ctx.np.normal(size=batch + (n,)), dtype=dtype)
    which = ctx.choice(["cem", "pgpe"])
    ctx.event(which)
    if which == "cem":
        kw = dict(center_init=c, stdev_init=1.0, parenthood_ratio=ctx.choice([0.3, 0.5]))
        if ctx.flip():
            kw["stdev_max_change"] = 0.2
        sa, sb = func.cem(objective_sense="max", **kw), func.cem(objective_sense="min", **kw)
        ask, tell = func.cem_ask, func.cem_tell
    else:
        kw = dict(center_init=c, stdev_init=1.0, center_learning_rate=0.3, stdev_learning_rate=0.1, ranking_method=ctx.choice(["centered", "linear", "nes", "normalized", "raw"]), optimizer=ctx.choice(["clipup", "adam", "sgd"]), symmetric=ctx.flip())
        if kw["ranking_method"] == "raw":
            kw["stdev_learning_rate"] = 1e-3
        sa, sb = func.pgpe(objective_sense="max", **kw), func.pgpe(objective_sense="min", **kw)
        ask, tell = func.pgpe_ask, func.pgpe_tell
    ctx.state(which, n, len(batch), kw.get("ranking_method"), kw.get("optimizer"), kw.get("symmetric"))
    for g in range(4):
        if not bool((sa.stdev > 0).all()):
            ctx.event("degenerate")
            return
        x = ask(sa, popsize=pop)
        e = f(x)[..., 0]
        sa, sb = tell(sa, x, e), tell(sb, x, -e)
        for name in ("stdev",):
            ctx.close(getattr(sb, name), getattr(sa, name), f"{which}:{name}", f"generation {g}", rtol=1e-5, atol=1e-6)
        ca = sa.center if which == "cem" else func.misc.get_functional_optimizer(kw["optimizer"])[1](sa.optimizer_state)
        cb = sb.center if which == "cem" else func.misc.get_functional_optimizer(kw["optimizer"])[1](sb.optimizer_state)
        ctx.close(cb, ca, f"{which}:center", f"generation {g}", rtol=1e-5, atol=1e-6)
        ctx.event("functional_steps")


def spread(ctx, n):
    """distinct fitnesses, of very different sizes at times"""
    kind = ctx.choice(["normal", "positive_span", "negative_span", "both_span", "close", "offset"])
    r = ctx.np
    if kind == "normal":
        x = r.permutation(n) + r.uniform(0, 0.5, size=n) - n / 2
    elif kind.endswith("span"):
        x = 10.0 ** (np.linspace(-8, 12, n) if n > 1 else np.zeros(1))
        x = -x if kind == "negative_span" else x * np.where(np.arange(n) % 2, 1, -1) if kind == "both_span" else x
        x = r.permutation(x)
    elif kind == "close":
        x = 1000.0 + r.permutation(n) * 1e-3
    else:
        x = -5e4 + r.permutation(n) * 0.25
    return kind, x


@scenario("C08", quick=400, thorough=8000, needs=["ranked", "normal", "positive_span", "negative_span", "both_span", "close", "offset", "batch"] + [f"ranker:{m}" for m in rankers])
def orders(ctx):
    """what is made of given fitnesses, whatever their sizes"""
    n = ctx.randint(2, 60)
    dtype = ctx.choice([torch.float32, torch.float64])
    kind, x = spread(ctx, n)
    ctx.event(kind)
    t = torch.tensor(x, dtype=dtype)
    n = len(t)
    for m in sorted(rankers):
        up, down = rank(t, m, higher_is_better=True), rank(-t, m, higher_is_better=False)
        ctx.close(down, up, f"rank:{m}", f"{kind} fitnesses, negated and minimised", rtol=1e-5)
        up, down = rank(-t, m, higher_is_better=True), rank(t, m, higher_is_better=False)
        ctx.close(down, up, f"rank:{m}", f"{kind} fitnesses, minimised, against negated and maximised", rtol=1e-5)
        ctx.event(f"ranker:{m}")
        ctx.event("ranked")
    pair = []
    vals = torch.tensor(ctx.np.normal(size=(n, 2)))
    for sense, sign in (("max", 1), ("min", -1)):
        p = Problem(sense, solution_length=2, initial_bounds=(-1, 1), dtype=torch.float64, eval_dtype=dtype)
        b = SolutionBatch(p, n)
        b.set_values(vals)
        b.set_evals((sign * t).reshape(n, 1))
        pair.append(b)
    a, b = pair
    for name, f in {
        "argsort": lambda q: q.argsort(),
        "argbest": lambda q: q.argbest(),
        "argworst": lambda q: q.argworst(),
        "take_best": lambda q: q.take_best(1 + n // 2).values,
        "utility": lambda q: q.utility(ranking_method=ctx_method),
        "compute_pareto_ranks": lambda q: q.compute_pareto_ranks(crowdsort=False)[0],
    }.items():
        ctx_method = ctx.choice(sorted(rankers))
        ctx.close(np.asarray(to_np(f(b)), dtype=float), np.asarray(to_np(f(a)), dtype=float), f"batch:{name}", f"{kind} fitnesses {x.tolist()}", rtol=1e-5)
        ctx.event("batch")
    ctx.state(kind, n, str(dtype))
    ctx.sample(kind=kind, n=n)
