"""C20: equal seeds give equal runs, independent of the global random state."""

import random

import numpy as np
import torch
from evotorch import Problem
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian
from evotorch.neuroevolution import NEProblem
from evotorch.operators import CosynePermutation, CutAndSplice, GaussianMutation, MultiPointCrossOver, OnePointCrossOver, PolynomialMutation, SimulatedBinaryCrossOver, TwoPointCrossOver

from vmon import zoo
from vmon.compare import to_np
from vmon.engine import rule, scenario

rule("C20", "A case repeats one search or one sequence of random operations with the same seed while the global generators of torch, numpy and python are disturbed, and with another seed; runs are compared bit by bit.")
ASSUMPTIONS = [
    "fitness functions draw no random numbers",
    "PyCMAES draws from numpy's global generator through the library cma, so it is repeated without disturbances",
]


def disturb(r):
    torch.manual_seed(r.randrange(2**31))
    torch.rand(r.randrange(1, 5))
    np.random.seed(r.randrange(2**31))
    random.seed(r.randrange(2**31))


def flat(x):
    """an exactly comparable form of what an operation returned"""
    if hasattr(x, "values") and hasattr(x, "evals"):
        x = x.values
    if isinstance(x, torch.Tensor):
        return to_np(x).tobytes()
    if isinstance(x, (list, tuple)):
        return tuple(flat(i) for i in x)
    if hasattr(x, "__len__") and not isinstance(x, (str, bytes, np.ndarray)):
        return tuple(flat(i) for i in x)
    return repr(x)


def trajectory(made, gens, noise=None):
    out = []
    for _ in range(gens):
        if noise is not None:
            disturb(noise)
        try:
            made.search.step()
        except Exception as e:
            out.append(type(e).__name__)
            break
        s = zoo.snapshot(made)
        out.append(None if s is None else (s[0].tobytes(), s[1].tobytes()))
    return out


@scenario("C20", quick=360, thorough=8000, needs=["repeated_runs", "generations", "other_seed_differs", "reseeded", "unseeded_repeats"] + [f"kind:{k}" for k in zoo.KINDS])
def searches(ctx):
    kind = zoo.KINDS[ctx.index % len(zoo.KINDS)]
    seed, other = ctx.randint(0, 10**6), 10**6 + ctx.randint(1, 10**6)
    gens = ctx.randint(2, 5)
    again = zoo.Replay(ctx)
    noise = random.Random(ctx.case_seed)
    mode = ctx.index // len(zoo.KINDS) % 3

    def mk(s, shared=None):
        def problem(senses, f, n, dtype, **kw):
            if shared is not None and shared[0] is not None:
                p = shared[0]
                p.manual_seed(s)
                return p
            p = zoo.make_problem(senses, f, n, dtype, seed=s, **kw)
            if shared is not None:
                shared[0] = p
            return p

        return again(zoo.make, ctx, problem, kind)

    ctx.event(f"kind:{kind}")
    if kind == "PyCMAES":
        a = trajectory(mk(seed), gens)
        disturb(noise)
        b = trajectory(mk(seed), gens)
        c = trajectory(mk(other), gens)
        ctx.check(a == b, f"repeat:{kind}", f"two runs with seed {seed} differ")
        ctx.check(a != c, f"other-seed:{kind}", f"seeds {seed} and {other} gave the same run")
        ctx.event("repeated_runs")
        return
    if mode == 0:
        # without a seed, the global generator of torch decides
        torch.manual_seed(seed)
        a = trajectory(mk(None), gens)
        np.random.seed(1), random.seed(1)
        torch.manual_seed(seed)
        b = trajectory(mk(None), gens)
        ctx.check(a == b, f"unseeded:{kind}", f"with the global generator seeded by {seed}, two runs without a seed differ")
        torch.manual_seed(other)
        c = trajectory(mk(None), gens)
        ctx.check(a != c, f"unseeded-other:{kind}", "different global states gave the same run")
        ctx.event("unseeded_repeats")
    holder = [None]
    m = mk(seed, holder)
    a = trajectory(m, gens)
    disturb(noise)
    m2 = mk(seed)
    b = trajectory(m2, gens, noise)
    ctx.check(a == b, f"repeat:{kind}", lambda: f"two runs with seed {seed} differ from generation {next(i for i, (x, y) in enumerate(zip(a, b)) if x != y) if len(a) == len(b) else 'count'}")
    ctx.event("repeated_runs")
    ctx.event("generations", len(a))
    c = trajectory(mk(other), gens)
    ctx.check(a != c, f"other-seed:{kind}", f"seeds {seed} and {other} gave the same run")
    ctx.event("other_seed_differs")
    if mode == 1:
        disturb(noise)
        d = trajectory(mk(seed, holder), gens, noise)
        ctx.check(a == d, f"reseeded:{kind}", f"a new search on the problem re-seeded with {seed} differs from the first one")
        ctx.event("reseeded")
    ctx.state(*m.about, mode)
    ctx.sample(kind=kind, seed=seed, generations=gens, about=m.about)


def numeric_problem(ctx, seed, n, dtype, bounded, senses):
    kw = {"bounds": (-2.0, 3.0)} if bounded else {"initial_bounds": (-2.0, 3.0)}
    if "int" in str(dtype):
        kw = {k: (-50, 40) for k in kw}
    f = zoo.columns(ctx, n, len(senses))
    return Problem(senses if len(senses) > 1 else senses[0], lambda x: f(x.to(torch.float64)) if len(senses) > 1 else f(x.to(torch.float64))[:, 0], solution_length=n, dtype=dtype, eval_dtype=torch.float64, vectorized=True, seed=seed, **kw)


class Lists(Problem):
    def __init__(self, seed):
        super().__init__("min", dtype=object, seed=seed)

    def _fill(self, values):
        for i in range(len(values)):
            n = int(self.make_randint((), n=5)) + 2
            values[i] = [float(v) for v in self.make_gaussian(n, dtype=torch.float32)]

    def _evaluate(self, sln):
        sln.set_evals(sum(sln.values))


STEPS = ["generate_values", "generate_batch", "generate_center", "uniform", "gaussian", "randint", "gauss", "gaussp", "one", "two", "multi", "sbx", "poly", "perm", "permute_all", "dist", "shaped", "batch_class", "shape_like"]


def operation(ctx, p, kind, n, bounded, nobj, r):
    """one random operation on a problem; r decides its parameters"""
    k = {"obj_index": 0} if nobj > 1 and r.random() < 0.5 else {}
    t = r.randrange(1, 4)

    def parents():
        b = p.generate_batch(6)
        p.evaluate(b)
        return b

    if kind == "generate_values":
        return p.generate_values(r.randrange(1, 5))
    if kind in ("generate_batch", "batch_class"):
        return p.generate_batch(r.randrange(1, 5))
    if kind == "generate_center":
        return p.generate_batch(3, center=0.5, stdev=r.choice([0.3, 1.0]), symmetric=False) if "float" in str(p.dtype) else p.generate_values(2)
    if kind == "uniform":
        return p.make_uniform((3,), lb=-1, ub=4) if "float" in str(p.dtype) else p.make_uniform((3,), lb=-10, ub=40)
    if kind == "gaussian":
        return p.make_gaussian((3,), center=1.0, stdev=2.0, dtype=torch.float64)
    if kind == "shaped":
        return p.make_gaussian(num_solutions=4, symmetric=True, dtype=torch.float64)
    if kind == "shape_like":
        return p.make_uniform(num_solutions=2, dtype=torch.float32)
    if kind == "randint":
        return p.make_randint((4,), n=1000)
    if kind == "dist":
        cls = r.choice([SeparableGaussian, SymmetricSeparableGaussian, ExpSeparableGaussian, ExpGaussian])
        sigma = torch.eye(3) if cls is ExpGaussian else torch.ones(3)
        d = cls({"mu": torch.zeros(3), "sigma": sigma})
        return d.sample(4, generator=p if r.random() < 0.5 else p.generator)
    if "float" not in str(p.dtype):
        return p.generate_values(2)
    if kind == "gauss":
        return GaussianMutation(p, stdev=0.5)(parents())
    if kind == "gaussp":
        return GaussianMutation(p, stdev=0.5, mutation_probability=0.5)(parents())
    if kind == "one":
        return OnePointCrossOver(p, tournament_size=t, **k)(parents())
    if kind == "two":
        return TwoPointCrossOver(p, tournament_size=t, **k)(parents())
    if kind == "multi":
        return MultiPointCrossOver(p, tournament_size=t, num_points=2, **k)(parents())
    if kind == "sbx":
        return SimulatedBinaryCrossOver(p, tournament_size=t, eta=8.0, **k)(parents())
    if kind == "poly":
        return PolynomialMutation(p, eta=10.0)(parents()) if bounded else GaussianMutation(p, stdev=0.1)(parents())
    if kind == "permute_all":
        return CosynePermutation(p, permute_all=True)(parents())
    return CosynePermutation(p, **({"obj_index": 0} if nobj > 1 else {}))(parents())


@scenario("C20", quick=360, thorough=9000, needs=["operations", "repeats_equal", "other_seed_differs", "reseeded"] + [f"op:{k}" for k in STEPS])
def operations(ctx):
    """sequences of random operations of one problem"""
    n = ctx.randint(2, 6)
    dtype = ctx.choice([torch.float32, torch.float64, torch.float64, torch.int64])
    bounded = ctx.flip()
    senses = [ctx.choice(["min", "max"]) for _ in range(ctx.choice([1, 1, 2]))]
    seed, other = ctx.randint(0, 2**31), 2**31 + ctx.randint(1, 10**6)
    plan = [(ctx.choice(STEPS), ctx.randint(0, 10**9)) for _ in range(ctx.randint(1, 6))]
    noise = random.Random(ctx.case_seed)
    again = zoo.Replay(ctx)

    def run(p, disturbed):
        out = []
        for kind, s in plan:
            if disturbed:
                disturb(noise)
            r = operation(ctx, p, kind, n, bounded, len(senses), random.Random(s))
            out.append(flat(r))
            ctx.event(f"op:{kind}")
            ctx.event("operations")
        return out

    def mk(s):
        return again(numeric_problem, ctx, s, n, dtype, bounded, senses)

    p = mk(seed)
    ctx.note(plan, dtype, seed)
    a = run(p, False)
    b = run(mk(seed), True)
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.check(x == y, f"repeat:{plan[i][0]}", f"operation {i} of {[k for k, _ in plan]} gave different numbers in two runs with seed {seed}")
    ctx.event("repeats_equal")
    p.manual_seed(seed)
    c = run(p, True)
    for i, (x, y) in enumerate(zip(a, c)):
        ctx.check(x == y, f"reseeded:{plan[i][0]}", f"operation {i} of {[k for k, _ in plan]} gave different numbers after seeding again with {seed}")
    ctx.event("reseeded")
    d = run(mk(other), True)
    sure = [i for i, (k, _) in enumerate(plan) if k not in ("perm", "permute_all", "randint") and dtype != torch.int64]
    if sure:
        ctx.check(any(a[i] != d[i] for i in sure), "other-seed", f"seeds {seed} and {other} gave the same numbers for {plan}")
        ctx.event("other_seed_differs")
    # continuing is not the same as starting again
    if sure:
        e = run(p, True)
        ctx.check(any(a[i] != e[i] for i in sure), "stuck", f"the sequence of {plan} repeats itself without a new seed")
    # taking the seed away gives the global generator back
    p.manual_seed(None)
    torch.manual_seed(5)
    x = flat(p.make_gaussian((3,), dtype=torch.float64))
    torch.manual_seed(5)
    y = flat(p.make_gaussian((3,), dtype=torch.float64))
    ctx.check(x == y and p.generator is None, "unseeded", "without a seed the global generator does not decide")
    ctx.state(str(dtype), bounded, len(senses), tuple(k for k, _ in plan))
    ctx.sample(plan=[k for k, _ in plan], dtype=str(dtype), seed=seed)


@scenario("C20", quick=60, thorough=1200, needs=["object_runs", "network_runs"])
def others(ctx):
    """object-typed and neuroevolution problems"""
    seed, other = ctx.randint(0, 10**6), 10**6 + ctx.randint(1, 10**6)
    noise = random.Random(ctx.case_seed)
    if ctx.flip():

        def run(s, disturbed):
            p = Lists(s)
            out = []
            b = p.generate_batch(5)
            p.evaluate(b)
            out.append(flat(b.values))
            op = CutAndSplice(p, tournament_size=2)
            for _ in range(3):
                if disturbed:
                    disturb(noise)
                b = op(b)
                p.evaluate(b)
                out.append(flat(b.values))
            return out

        a = run(seed, False)
        ctx.event("object_runs")
    else:
        net = torch.nn.Sequential(torch.nn.Linear(2, 3), torch.nn.Tanh(), torch.nn.Linear(3, 1))

        def run(s, disturbed):
            p = NEProblem("min", net, lambda m: sum((q**2).sum() for q in m.parameters()), seed=s)
            out = []
            for _ in range(3):
                if disturbed:
                    disturb(noise)
                b = p.generate_batch(4)
                p.evaluate(b)
                out.append((flat(b.values), to_np(b.evals).tobytes()))
            return out

        a = run(seed, False)
        ctx.event("network_runs")
    b, c = run(seed, True), run(other, True)
    ctx.check(a == b, "repeat", f"two runs with seed {seed} differ")
    ctx.check(a != c, "other-seed", f"seeds {seed} and {other} gave the same run")
    ctx.state(len(a), seed % 7)
