"""Random search algorithms with random options, for checks which quantify over all of them."""

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, MAPElites, SteadyStateGA
from evotorch.algorithms.pycmaes import PyCMAES
from evotorch.algorithms.restarter import IPOP, Restart
from evotorch.operators import CosynePermutation, GaussianMutation, MultiPointCrossOver, OnePointCrossOver, PolynomialMutation, SimulatedBinaryCrossOver, TwoPointCrossOver

GAUSSIAN = {"PGPE": PGPE, "SNES": SNES, "CEM": CEM, "XNES": XNES}
KINDS = ["PGPE", "SNES", "CEM", "XNES", "CMAES", "GA", "SteadyStateGA", "Cosyne", "MAPElites", "Restart", "IPOP", "PyCMAES"]


class Replay:
    """Call functions which make random choices again with the same choices."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.state = ctx.rng.getstate(), ctx.np.bit_generator.state, ctx.gen.get_state()

    def __call__(self, fn, *args, **kw):
        self.ctx.rng.setstate(self.state[0])
        self.ctx.np.bit_generator.state = self.state[1]
        self.ctx.gen.set_state(self.state[2])
        return fn(*args, **kw)


def columns(ctx, n, count):
    """`count` continuous functions of the rows of a matrix"""
    terms = [(ctx.choice(["sphere", "linear", "cubic", "waves"]), ctx.np.normal(size=n), ctx.np.uniform(0.5, 2, size=n)) for _ in range(count)]

    def f(x):
        out = []
        for kind, c, w in terms:
            c, w = torch.tensor(c, dtype=x.dtype), torch.tensor(w, dtype=x.dtype)
            y = x - c
            if kind == "sphere":
                out.append((w * y**2).sum(-1))
            elif kind == "linear":
                out.append((w * y).sum(-1))
            elif kind == "cubic":
                out.append((w * (y**3 - y)).sum(-1))
            else:
                out.append((w * (torch.sin(3 * y) + 0.1 * y**2)).sum(-1))
        return torch.stack(out, dim=-1)

    return f


class Objective:
    """the fitness function of a plan; `signs` turns the objectives around"""

    def __init__(self, f, nobj, signs=None):
        self.f, self.nobj, self.signs = f, nobj, signs

    def __call__(self, x):
        y = self.f(x.as_subclass(torch.Tensor))
        if self.signs is not None:
            y = torch.cat([y[:, : self.nobj] * torch.tensor(self.signs, dtype=y.dtype), y[:, self.nobj :]], dim=-1)
        return y[:, 0] if y.shape[1] == 1 else y


def make_problem(senses, f, n, dtype, *, seed=None, flip=None, edl=0, eval_dtype=None, cls=Problem, **kw):
    """flip: for each objective, whether the direction and the sign are turned around"""
    flip = [False] * len(senses) if flip is None else flip
    signs = [-1.0 if t else 1.0 for t in flip]
    senses = [{"min": "max", "max": "min"}[s] if t else s for s, t in zip(senses, flip)]
    return cls(senses if len(senses) > 1 else senses[0], Objective(f, len(senses), signs), solution_length=n, dtype=dtype, eval_dtype=eval_dtype or dtype, vectorized=True, seed=seed, eval_data_length=edl or None, **kw)


def shrink(values):
    return values * 0.9 + 0.05


def operators(ctx, p, bounded, nobj, single_count=False, obj=None):
    """a pipeline of variation operators; returns it with a description"""
    ops, names = [], []
    k = {} if obj is None else {"obj_index": obj}
    cross = ctx.choice(["one", "two", "multi", "sbx", "sbx", None])
    if cross is not None:
        t = {"tournament_size": ctx.randint(1, 4), **k}
        if not single_count and ctx.flip(0.4):
            if ctx.flip():
                t["num_children"] = 2 * ctx.randint(2, 10)
            else:
                t["cross_over_rate"] = ctx.choice([1.0, 2.0, 1.5, 0.8])
        if cross == "one":
            ops.append(OnePointCrossOver(p, **t))
        elif cross == "two":
            ops.append(TwoPointCrossOver(p, **t))
        elif cross == "multi":
            ops.append(MultiPointCrossOver(p, num_points=ctx.randint(1, 3), **t))
        else:
            ops.append(SimulatedBinaryCrossOver(p, eta=ctx.choice([5, 20.0]), **t))
        names.append(cross)
    mut = ctx.choice(["gauss", "gauss", "gaussp", "poly" if bounded else "gauss", "perm", "function", None])
    if mut is None and not ops:
        mut = "gauss"
    if mut == "gauss":
        ops.append(GaussianMutation(p, stdev=ctx.uniform(0.05, 0.7)))
    elif mut == "gaussp":
        ops.append(GaussianMutation(p, stdev=ctx.uniform(0.05, 0.7), mutation_probability=ctx.choice([0.3, 0.8])))
    elif mut == "poly":
        ops.append(PolynomialMutation(p, eta=ctx.choice([5.0, 20.0])))
    elif mut == "perm":
        # without permute_all the fitnesses of the children of a previous operator would be needed
        ops.append(CosynePermutation(p, permute_all=True))
    elif mut == "function":
        ops.append(shrink)
    if mut is not None:
        names.append(mut)
    return ops, names


def cmaes_options(ctx):
    kw = {"separable": ctx.flip(), "active": ctx.flip(0.7), "csa_squared": ctx.flip(0.3), "limit_C_decomposition": ctx.flip()}
    s = ctx.choice([0.3, 1.0, 2.0])
    if ctx.flip(0.3):
        kw["stdev_min"] = s * 0.5
    if ctx.flip(0.3):
        kw["stdev_max"] = s * 1.5
    kw["stdev_init"] = s
    if ctx.flip():
        kw["popsize"] = ctx.randint(4, 16)
    return kw


class Made:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def make(ctx, problem, kind=None):
    """A search built from the random choices of `ctx`.

    problem(senses, f, n, dtype, **kw) makes the problem (see `make_problem`).
    """
    from checks import c11

    kind = kind or ctx.choice(KINDS)
    if kind in GAUSSIAN:
        # a ready-made optimizer object would be shared between repeated runs: c11 makes it anew each time
        nobj_seen = []

        def mk(senses, f, n, dtype):
            nobj_seen.append(len(senses))
            g = (lambda x: f(x).reshape(len(x), -1)) if len(senses) == 1 else f
            return problem(senses, g, n, dtype, initial_bounds=(-2, 3))

        s, p, ref, given, okind, kw = c11.setup(ctx, algo=GAUSSIAN[kind], problem=mk)
        return Made(search=s, problem=p, kind=kind, nobj=nobj_seen[0], obj=ref["obj"], about=(kind, okind, ref["method"], nobj_seen[0]))
    n = ctx.randint(2, 6)
    dtype = ctx.choice([torch.float64, torch.float64, torch.float32])
    multi = kind in ("GA", "SteadyStateGA") and ctx.flip(0.5)
    single_of_many = kind in ("CMAES", "PyCMAES") and ctx.flip(0.3)
    nobj = 2 + int(ctx.flip(0.3)) if multi or single_of_many else 1
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    bounded = kind not in ("CMAES", "Restart", "IPOP") and ctx.flip(0.4)
    kw = {"bounds": (-2.0, 3.0)} if bounded else {"initial_bounds": (-2.0, 3.0)}
    edl = 0
    if kind == "MAPElites":
        edl = ctx.randint(1, 2)
    elif kind in ("GA", "SteadyStateGA") and ctx.flip(0.2):
        edl = 1
    p = problem(senses, columns(ctx, n, nobj + edl), n, dtype, edl=edl, **kw)
    obj = ctx.randint(0, nobj - 1) if single_of_many else 0
    about = [kind, nobj, bounded]
    if kind == "CMAES":
        o = cmaes_options(ctx)
        if single_of_many:
            o["obj_index"] = obj
        about += [o["separable"], o["active"]]
        s = CMAES(p, **o)
    elif kind == "PyCMAES":
        o = {"stdev_init": ctx.choice([0.3, 1.0])}
        if ctx.flip():
            o["popsize"] = ctx.randint(4, 14)
        if ctx.flip():
            o["separable"] = True
        if ctx.flip(0.3):
            o["center_init"] = [float(v) for v in ctx.np.uniform(-1, 1, size=n)]
        if single_of_many:
            o["obj_index"] = obj
        o["cma_options"] = {"verbose": -9}
        s = PyCMAES(p, **o)
    elif kind in ("GA", "SteadyStateGA"):
        o = {"popsize": ctx.randint(4, 14), "elitist": ctx.flip(0.7)}
        if ctx.flip(0.4):
            o["re_evaluate"] = False
        elif ctx.flip(0.4):
            o["re_evaluate_parents_first"] = True
        ops, names = operators(ctx, p, bounded, nobj)
        if kind == "SteadyStateGA" and ctx.flip():
            s = SteadyStateGA(p, **o)
            for op in ops if ctx.flip() else reversed(ops):
                s.use(op)
        else:
            s = {"GA": GeneticAlgorithm, "SteadyStateGA": SteadyStateGA}[kind](p, operators=ops, **o)
        about += [*names, o["elitist"]]
    elif kind == "Cosyne":
        o = {"popsize": ctx.randint(8, 16), "tournament_size": ctx.randint(1, 3), "mutation_stdev": ctx.choice([None, 0.3]), "permute_all": ctx.flip()}
        if o["mutation_stdev"] is not None and ctx.flip():
            o["mutation_probability"] = 0.6
        if ctx.flip():
            o["num_elites"] = ctx.randint(0, 4)
        elif ctx.flip():
            o["elitism_ratio"] = ctx.choice([0.1, 0.3])
        if ctx.flip():
            o["eta"] = 10.0
        if ctx.flip():
            o["num_children"] = 2 * ctx.randint(1, 6)
        s = Cosyne(p, **o)
        about += [o["permute_all"], "eta" in o]
    elif kind == "MAPElites":
        grid = MAPElites.make_feature_grid([-3.0] * edl, [6.0] * edl, [ctx.randint(3, 5) for _ in range(edl)], dtype=dtype)
        o = {}
        if ctx.flip(0.4):
            o["re_evaluate"] = False
        ops, names = operators(ctx, p, bounded, nobj)
        s = MAPElites(p, operators=ops, feature_grid=grid, **o)
        about += [*names, edl]
    else:
        inner = ctx.choice([SNES, CMAES, GeneticAlgorithm])
        if inner is SNES:
            a = {"stdev_init": 1.0, "popsize": ctx.randint(4, 8)}
        elif inner is CMAES:
            a = {"stdev_init": 0.5, "popsize": ctx.randint(4, 8)}
        else:
            a = {"popsize": ctx.randint(4, 8), "operators": [GaussianMutation(p, stdev=0.3)]}
        if kind == "Restart":
            s = Restart(p, inner, a)
        else:
            s = IPOP(p, inner, a, min_fitness_stdev=ctx.choice([1e-9, 3.0]), popsize_multiplier=ctx.choice([2, 1.5]))
        about += [inner.__name__]
    return Made(search=s, problem=p, kind=kind, nobj=nobj, obj=obj, about=tuple(about))


def population(made):
    """the current population of the search, or None"""
    s = made.search
    s = getattr(s, "search_algorithm", s) if made.kind in ("Restart", "IPOP") else s
    return s.population


def snapshot(made):
    p = population(made)
    if p is None:
        return None
    vals, evs = p.values, p.evals
    return np.array(vals.as_subclass(torch.Tensor).numpy()), np.array(evs.as_subclass(torch.Tensor).numpy())
