"""C38: PyCMAES is the CMA-ES of the library cma, run on the problem."""

import cma
import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms.pycmaes import PyCMAES

from checks.c11 import objectives
from vmon.compare import to_np
from vmon.engine import rule, scenario

rule("C38", "A case is one PyCMAES search followed, generation by generation, next to a search made directly with the library cma from the same start, settings and seed.")
ASSUMPTIONS = [
    "the library cma draws from numpy's global generator, so the direct search is run after the observed one, from the same seed",
    "cma's own messages and stopping rules are not part of the property; searches are short",
]

QUIET = {"verbose": -9, "verb_log": 0, "verb_disp": 0}


class Traffic:
    """records what goes in and out of the cma objects made while it is active"""

    def __init__(self):
        self.made, self.asked, self.told = [], [], []

    def __enter__(self):
        cls = cma.CMAEvolutionStrategy
        self.old = cls.ask, cls.tell
        traffic = self

        def ask(es, *a, **k):
            r = traffic.old[0](es, *a, **k)
            traffic.asked.append(np.array(r, dtype=float))
            return r

        def tell(es, xs, fs, *a, **k):
            traffic.told.append((np.array(xs, dtype=float), np.array(fs, dtype=float).reshape(-1)))
            return traffic.old[1](es, xs, fs, *a, **k)

        cls.ask, cls.tell = ask, tell
        return self

    def __exit__(self, *a):
        cma.CMAEvolutionStrategy.ask, cma.CMAEvolutionStrategy.tell = self.old


def vec(ctx, x, kind):
    x = np.asarray(x, dtype=float)
    return {"tensor": lambda: torch.tensor(x, dtype=torch.float32), "numpy": lambda: x.copy(), "list": lambda: [float(v) for v in x]}[kind]()


def limits(ctx, d):
    """the bounds of the problem: as given, and as arrays for cma"""
    how = ctx.choice(["none", "none", "both", "lower", "upper", "scalar"])
    lo, hi = -ctx.np.uniform(0.6, 1.5, d).round(2), ctx.np.uniform(0.6, 1.5, d).round(2)
    if how == "none":
        return how, {}, None
    if how == "both":
        return how, {"bounds": (vec(ctx, lo, "list"), vec(ctx, hi, "tensor"))}, (lo, hi)
    if how == "scalar":
        a, b = -ctx.choice([0.75, 1.5, 3.0]), ctx.choice([0.6, 1.25, 2.0])
        return how, {"bounds": (a, b)}, (np.full(d, a), np.full(d, b))
    inf = np.full(d, np.inf)
    return how, None, ((lo, inf) if how == "lower" else (-inf, hi))


@scenario(
    "C38",
    quick=120,
    thorough=1200,
    needs=["matched", "matched:bounded", "matched:max", "matched:second_objective", "matched:separable", "matched:stdev_limits", "matched:rates", "matched:own_popsize", "center", "many_generations"],
)
def same_as_cma(ctx):
    d, nobj = ctx.randint(2, 6), ctx.choice([1, 1, 2, 3])
    dtype = ctx.choice([torch.float32, torch.float64])
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    obj = ctx.randint(0, nobj - 1)
    how, bounds, arrays = limits(ctx, d)
    initial = (-0.5, 0.5)
    kw = dict(bounds) if bounds is not None else {}
    if bounds is None:
        lo, hi = arrays
        kw = {"bounds": (lo if np.isfinite(lo).all() else np.full(d, -np.inf), hi if np.isfinite(hi).all() else np.full(d, np.inf))}
        kw["bounds"] = tuple(torch.tensor(x, dtype=dtype) for x in kw["bounds"])
    f, _ = objectives(ctx, nobj)
    seen = []

    def fitness(xs):
        seen.append(np.array(to_np(xs), dtype=float))
        r = f(xs)
        return r if r.ndim == 2 else r.reshape(len(xs), -1)

    p = Problem(
        senses if nobj > 1 else senses[0],
        fitness,
        solution_length=d,
        initial_bounds=initial,
        dtype=dtype,
        eval_dtype=torch.float64 if dtype is torch.float64 else ctx.choice([torch.float32, torch.float64]),
        vectorized=True,
        seed=ctx.randint(1, 999),
        **kw,
    )
    seed = ctx.randint(200, 10**6)
    options, ref = {"seed": seed, **QUIET}, {"seed": seed, "maxiter": np.inf, **QUIET}
    args, marks = {}, []

    def setting(name, key, value, plain, mark):
        """given either as an argument or among the options of cma"""
        if ctx.flip(0.75):
            args[name] = value
        else:
            options[key] = value if not isinstance(value, list) else np.array(value)
        ref[key] = plain
        marks.append(mark)

    if ctx.flip(0.6):
        n = ctx.randint(4, 12)
        setting("popsize", "popsize", n, n, "own_popsize")
    if ctx.flip(0.3):
        v = ctx.choice([0.3, 0.7])
        setting("center_learning_rate", "CMA_cmean", v, v, "rates")
    if ctx.flip(0.3):
        v = ctx.choice([0.0, 0.4, 0.8])
        setting("cov_learning_rate", "CMA_on", v, v, "rates")
    if ctx.flip(0.3):
        v = ctx.choice([0.0, 0.5])
        setting("rankmu_learning_rate", "CMA_rankmu", v, v, "rates")
    if ctx.flip(0.3):
        v = ctx.choice([0.0, 0.5])
        setting("rankone_learning_rate", "CMA_rankone", v, v, "rates")
    if ctx.flip(0.3):
        v = ctx.np.uniform(0.3, 0.5, d).round(2) if ctx.flip() else ctx.choice([0.3, 0.5])
        setting("stdev_min", "minstd", vec(ctx, v, "numpy") if np.ndim(v) else v, v, "stdev_limits")
    if ctx.flip(0.3):
        v = ctx.np.uniform(0.5, 0.6, d).round(2) if ctx.flip() else ctx.choice([0.5, 0.6])
        setting("stdev_max", "maxstd", vec(ctx, v, "numpy") if np.ndim(v) else v, v, "stdev_limits")
    if ctx.flip(0.3):
        args["separable"], ref["CMA_diagonal"] = True, True
        marks.append("separable")
    if nobj > 1 or ctx.flip():
        args["obj_index"] = obj - nobj if ctx.flip(0.3) else obj
    sigma = ctx.choice([0.2, 0.5, 1.0, 2.0])
    x0 = ctx.np.uniform(-0.5, 0.5, d).round(3)
    if arrays is not None:
        ref["bounds"] = [np.array(arrays[0]), np.array(arrays[1])]
    gens = ctx.choice([3, 6, 15]) if ctx.tier == "quick" else ctx.choice([3, 10, 40])

    given = vec(ctx, x0, ctx.choice(["tensor", "numpy", "list"]))
    exact = to_np(given).astype(float) if isinstance(given, torch.Tensor) else x0
    with Traffic() as t:
        s = PyCMAES(p, stdev_init=sigma, center_init=given, cma_options=dict(options), **args)
        ctx.close(s.status["center"], exact, "center", "the center before the first generation is the given one", rtol=1e-5, atol=1e-6)
        rows = []
        for g in range(gens):
            s.step()
            pop = s.population
            vals, evs = np.array(to_np(pop.values), dtype=float), np.array(to_np(pop.evals), dtype=float)
            rows.append((vals, evs, np.array(to_np(s.status["center"]), dtype=float)))
    ctx.check(len(t.told) == gens and len(t.asked) == gens, "traffic", f"one ask and one tell in each generation: {len(t.asked)} and {len(t.told)} in {gens}")
    sign = 1.0 if senses[obj] == "min" else -1.0
    for g, ((vals, evs, _), asked, (xs, fs)) in enumerate(zip(rows, t.asked, t.told)):
        tol = 1e-6 if dtype is torch.float32 else 1e-12
        ctx.close(vals, asked, "asked", f"generation {g}: the population is what cma asked for", rtol=tol, atol=tol)
        ctx.same(xs, asked, "told", f"generation {g}: the points told to cma are the ones asked")
        # only the order of the fitnesses matters to CMA-ES
        want = sign * evs[:, obj]
        order = np.sign(want[:, None] - want[None, :])
        got = np.sign(fs[:, None] - fs[None, :])
        ctx.same(got, order, "scores", f"generation {g}: cma is told fitnesses that rank the population as objective {obj} ({senses[obj]}) does")
        ctx.close(seen[g] if len(seen) == gens else vals, vals, "evaluated", f"generation {g}: the evaluated values", rtol=1e-9, atol=1e-12)
        if arrays is not None:
            ctx.check((vals >= arrays[0] - 1e-6).all() and (vals <= arrays[1] + 1e-6).all(), "bounds", f"generation {g}: the population stays within the bounds ({how})")

    # the same search made by hand
    es = cma.CMAEvolutionStrategy(exact, sigma, ref)
    ctx.check(es.popsize == len(rows[0][0]), "popsize", f"{len(rows[0][0])} solutions instead of {es.popsize}")
    for g, (vals, evs, center) in enumerate(rows):
        asked = es.ask()
        ctx.close(vals, np.array(asked), "population", f"generation {g}: population of the search made directly with cma", rtol=1e-4, atol=1e-5)
        # the observed fitnesses (of almost equal values) are told, so that rounding does not grow
        es.tell(asked, list(sign * evs[:, obj]))
        ctx.close(center, es.result.xfavorite, "center", f"generation {g}: center", rtol=1e-4, atol=1e-5)
        ctx.event("center")
    ctx.event("matched")
    for m in set(marks):
        ctx.event("matched:" + m)
    if arrays is not None:
        ctx.event("matched:bounded")
    if senses[obj] == "max":
        ctx.event("matched:max")
    if obj:
        ctx.event("matched:second_objective")
    if gens >= 10:
        ctx.event("many_generations")
    ctx.state(d, nobj, obj, how, tuple(sorted(set(marks))), gens)
    ctx.sample(d=d, senses=senses, obj=obj, bounds=how, settings=sorted(args), generations=gens)


@scenario("C38", quick=60, thorough=400, needs=["redundant", "drawn_start", "drawn_seed", "maxiter_free", "tensor_option", "vector_stdev"])
def settings(ctx):
    d = ctx.randint(2, 5)

    def problem(seed=5):
        return Problem("min", lambda xs: (xs**2).sum(-1), solution_length=d, initial_bounds=(2.0, 3.0), vectorized=True, seed=seed)

    which = ctx.index % 5
    if which == 0:
        name, key, value = ctx.choice(
            [
                ("popsize", "popsize", 6),
                ("center_learning_rate", "CMA_cmean", 0.5),
                ("cov_learning_rate", "CMA_on", 0.5),
                ("rankmu_learning_rate", "CMA_rankmu", 0.5),
                ("rankone_learning_rate", "CMA_rankone", 0.5),
                ("stdev_min", "minstd", 0.1),
                ("stdev_max", "maxstd", 2.0),
                ("separable", "CMA_diagonal", True),
            ]
        )
        given = {key: value, **QUIET}
        ctx.raises(ValueError, lambda: PyCMAES(problem(), stdev_init=1.0, cma_options=given, **{name: value}), "redundant", f"{name} given twice")
        ctx.check(given == {key: value, **QUIET}, "options", "the given options are left as they were")
        ctx.event("redundant")
    elif which == 1:
        # without a start, one solution is generated by the problem
        p = problem()
        s = PyCMAES(p, stdev_init=0.1, cma_options=QUIET)
        c = to_np(s.status["center"])
        ctx.check(c.shape == (d,) and (c >= 2.0).all() and (c <= 3.0).all(), "start", f"the start {c} is not within the initial bounds")
        s.run(2)
        ctx.event("drawn_start")
        first = p.generate_batch(2)[1]
        s = PyCMAES(p, stdev_init=0.1, center_init=first, cma_options=QUIET)
        ctx.close(s.status["center"], first.values, "start", "a solution as the start", rtol=1e-6)
    elif which == 2:
        # without a seed, it comes from the generator of the problem
        runs = []
        for seed in (7, 7, 8):
            s = PyCMAES(problem(seed), stdev_init=1.0, center_init=[0.0] * d, popsize=6, cma_options=QUIET)
            s.run(3)
            runs.append(to_np(s.population.values).copy())
            np.random.seed(ctx.randint(0, 1000))
        ctx.same(runs[0], runs[1], "seed", "equal seeds of the problem give equal searches")
        ctx.check(not np.array_equal(runs[0], runs[2]), "seed", "different seeds of the problem give the same search")
        ctx.event("drawn_seed")
    elif which == 3:
        # no limit on the number of generations
        s = PyCMAES(problem(), stdev_init=1.0, popsize=4, cma_options={"maxiter": 3, **QUIET} if ctx.flip(0.3) else QUIET)
        s.run(12)
        ctx.check(s.step_count == 12, "generations", f"{s.step_count} generations instead of 12")
        ctx.event("maxiter_free")
        given = {"minstd": torch.tensor([0.9] * d, dtype=torch.float64), "seed": 300, **QUIET}
        plain = {"minstd": [0.9] * d, "seed": 300, **QUIET}
        pops = []
        for o in (given, plain):
            with Traffic() as t:
                s = PyCMAES(problem(), stdev_init=0.3, center_init=torch.zeros(d), popsize=6, cma_options=o)
                s.run(4)
            pops.append(np.stack(t.asked))
        ctx.same(pops[0], pops[1], "tensor_option", "an option given as a tensor acts like one given as a list")
        ctx.check(isinstance(given["minstd"], torch.Tensor), "options", "the given options are left as they were")
        ctx.event("tensor_option")
    else:
        # a vector of standard deviations: one for each coordinate
        stds = ctx.np.uniform(0.1, 2.0, d).round(2)
        s = PyCMAES(problem(), stdev_init=vec(ctx, stds, ctx.choice(["tensor", "numpy", "list"])), center_init=[0.0] * d, popsize=200, cma_options={"seed": 400, **QUIET})
        s.step()
        got = to_np(s.population.values).std(axis=0)
        ctx.check((got > 0.75 * stds).all() and (got < 1.3 * stds).all(), "stdev", f"standard deviations {got} of 200 samples drawn with {stds}")
        ctx.event("vector_stdev")
    ctx.state(which, d, ctx.index)
