"""C16: genetic algorithms keep population size, evaluated members and the elite."""

import random
from collections import Counter

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms import Cosyne, GeneticAlgorithm, SteadyStateGA
from evotorch.operators import CopyingOperator, CosynePermutation, CrossOver, CutAndSplice, GaussianMutation, Operator

from checks.c07 import _layers
from vmon import zoo
from vmon.compare import to_np
from vmon.engine import rule, scenario

rule("C16", "A case is one genetic algorithm with random operators and options on a problem that logs every evaluation; each new population is compared with the selection a model makes from the parents and the logged children.")
ASSUMPTIONS = ["operators return new batches or values", "fitnesses of different solutions differ (continuous objectives), copies of a solution may tie"]


class Log:
    """what was evaluated: rows and the fitnesses given to them"""

    def __init__(self, noisy):
        self.rows, self.noisy, self.calls = [], noisy, 0

    def take(self):
        r, self.rows = self.rows, []
        return r


class Numeric(Problem):
    """logs its evaluations; when noisy, each call shifts all fitnesses by another amount"""

    def __init__(self, senses, f, n, dtype, log, edl=0, **kw):
        super().__init__(senses if len(senses) > 1 else senses[0], solution_length=n, dtype=dtype, eval_dtype=torch.float64, eval_data_length=edl or None, **kw)
        self.f, self.mylog, self.seed_of_noise = f, log, 11

    def _evaluate_batch(self, batch):
        log = self.mylog
        log.calls += 1
        x = batch.values.as_subclass(torch.Tensor)
        y = self.f(x.to(torch.float64))
        if log.noisy:
            y = y + random.Random(self.seed_of_noise * 1000 + log.calls).uniform(-5, 5)
        batch.set_evals(y[:, : len(self.senses)], eval_data=y[:, len(self.senses) :]) if y.shape[1] > len(self.senses) else batch.set_evals(y)
        log.rows += [(a.tobytes(), tuple(b)) for a, b in zip(to_np(x), to_np(y).tolist())]


class Objects(Problem):
    def __init__(self, sense, log, seed):
        super().__init__(sense, dtype=object, eval_dtype=torch.float64, seed=seed)
        self.mylog = log

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = self.make_gaussian(int(self.make_randint((), n=4, dtype=torch.int64)) + 2, dtype=torch.float64).tolist()

    def _evaluate(self, sln):
        log = self.mylog
        log.calls += 1
        x = [float(v) for v in sln.values]
        y = sum((v - 0.3 * i) ** 2 for i, v in enumerate(x))
        if log.noisy:
            y += random.Random(log.calls).uniform(-5, 5)
        sln.set_evals(y)
        log.rows.append((repr(x), (y,)))


def rows(pop):
    ev = [tuple(float(v) for v in e) for e in to_np(pop.evals)]
    if pop.values.dtype is object:
        return [(repr([float(v) for v in x]), e) for x, e in zip(pop.values, ev)]
    return [(x.tobytes(), e) for x, e in zip(to_np(pop.values), ev)]


def best_of(ctx, candidates, k, senses, new, key, what):
    """`new` must be a selection of the k best of the candidates"""
    left = Counter(new) - Counter(candidates)
    ctx.check(not left, f"foreign:{key}", lambda: f"{what}: {sum(left.values())} of {len(new)} members are not among the {len(candidates)} candidates (fitnesses {[e for _, e in left]}, candidates have {[e for _, e in candidates]})")
    sign = np.array([1.0 if s == "max" else -1.0 for s in senses])
    if len(senses) == 1:
        want = sorted((e[0] * sign[0] for _, e in candidates), reverse=True)[:k]
        got = sorted((e[0] * sign[0] for _, e in new), reverse=True)
        ctx.check(want == got, f"selection:{key}", lambda: f"{what}: kept fitnesses (larger is better) {got}, the {k} best of the candidates are {want}")
    else:
        u = np.array([e[: len(senses)] for _, e in candidates]) * sign
        rank = {}
        for r, fr in enumerate(_layers(u)):
            for i in fr:
                rank[candidates[i]] = r
        want = sorted(rank[c] for c in candidates)[:k]
        got = sorted(rank[c] for c in new)
        ctx.check(want == got, f"selection:{key}", lambda: f"{what}: kept solutions of fronts {got}, the {k} best are of fronts {want}")
    ctx.event("selections")


class Drift(Operator):
    """changes the values of the given batch itself"""

    def __init__(self, problem, by):
        super().__init__(problem)
        self.by = by

    def _do(self, batch):
        batch.access_values()[:] *= self.by


class Tee(CopyingOperator):
    """passes the work of another operator on and notes the children"""

    def __init__(self, problem, inner, sink):
        super().__init__(problem)
        self.inner, self.sink = inner, sink

    def _do(self, batch):
        out = self.inner(batch) if self.inner is not None else batch.clone()
        self.sink[:] = [out.values.clone()]
        return out


def step_model(ctx, s, log, senses, popsize, elitist, re_evaluate, first, key, sink=None):
    """one generation: what went in, what was evaluated, what came out"""
    before = rows(s.population)
    log.take()
    s.step()
    logged = log.take()
    pop = s.population
    new = rows(pop)
    ctx.event("generations")
    ctx.check(len(pop) == popsize, f"size:{key}", f"population of {len(pop)} instead of {popsize}")
    ctx.check(all(v == v for _, e in new for v in e), f"unevaluated:{key}", lambda: f"members without fitness: {[e for _, e in new]}")
    # which evaluated rows were parents, which children?
    xs = Counter(x for x, _ in before)
    parents_evaluated = re_evaluate or first
    if parents_evaluated:
        parents, children, left = [], [], Counter(xs)
        # parents are evaluated before or together with (in front of) the children
        for x, e in logged:
            if left[x] > 0:
                left[x] -= 1
                parents.append((x, e))
            else:
                children.append((x, e))
        ctx.check(sum(left.values()) == 0, f"parents-not-evaluated:{key}", lambda: f"{sum(left.values())} of {len(before)} parents were not evaluated in this generation (first generation: {first}, re_evaluate: {re_evaluate})")
    else:
        parents, children = before, logged
        ctx.event("kept_fitness")
    if sink:
        vals = sink[0]
        want = Counter(repr([float(v) for v in x]) for x in vals) if not isinstance(vals, torch.Tensor) else Counter(x.tobytes() for x in to_np(vals))
        got = Counter(x for x, _ in children)
        ctx.check(want == got, f"children-evaluated:{key}", lambda: f"{sum(got.values())} evaluated children, the operators made {sum(want.values())}; they differ in {sum((want - got).values())}")
        ctx.event("children_seen")
    m = len(children)
    ctx.event("children_fewer" if m < popsize else "children_equal" if m == popsize else "children_more")
    if elitist:
        best_of(ctx, parents + children, popsize, senses, new, key, "elitist")
        ctx.event("elitist")
    elif m < popsize:
        kids = Counter(children)
        ctx.check(not (kids - Counter(new)), f"children-dropped:{key}", "not all children are in the next population")
        best_of(ctx, parents, popsize - m, senses, list((Counter(new) - kids).elements()), key + ":fill", f"non-elitist, {m} children")
        ctx.event("filled_with_parents")
    else:
        best_of(ctx, children, popsize, senses, new, key, f"non-elitist, {m} children")
        ctx.event("replaced")
    return before, new


@scenario("C16", quick=420, thorough=9000, needs=["generations", "selections", "elitist", "replaced", "filled_with_parents", "kept_fitness", "children_seen", "children_fewer", "children_equal", "children_more", "several_objectives", "noisy", "steady", "used_later", "objects", "in_place", "never_worse"])
def genetic(ctx):
    noisy = ctx.flip(0.4)
    log = Log(noisy)
    seed = ctx.randint(1, 10**6)
    obj = ctx.flip(0.15)
    bounded = ctx.flip(0.4)
    integer = not obj and ctx.flip(0.15)
    if obj:
        senses = [ctx.choice(["min", "max"])]
        p = Objects(senses[0], log, seed)
        ctx.event("objects")
    else:
        n = ctx.randint(2, 5)
        senses = [ctx.choice(["min", "max"]) for _ in range(ctx.choice([1, 1, 2, 3]))]
        edl = ctx.choice([0, 0, 1])
        dtype = torch.int64 if integer else ctx.choice([torch.float32, torch.float64])
        b = (-40, 50) if integer else (-2.0, 3.0)
        p = Numeric(senses, zoo.columns(ctx, n, len(senses) + edl), n, dtype, log, edl, seed=seed, **({"bounds": b} if bounded else {"initial_bounds": b}))
    if len(senses) > 1:
        ctx.event("several_objectives")
    if noisy:
        ctx.event("noisy")
    popsize = ctx.randint(2, 12)
    r = random.Random(seed)

    def count_change(values):
        """an operator given as a function, which may change the number of solutions"""
        k = r.choice([1, len(values), len(values), max(1, len(values) - 2), 2 * len(values)])
        idx = [r.randrange(len(values)) for _ in range(k)]
        out = values[idx].clone()
        if not obj:
            if integer:
                out = out + torch.tensor([[r.randrange(-3, 4) for _ in range(out.shape[1])] for _ in range(k)])
            else:
                out = out * r.uniform(0.8, 1.1) + 0.01
        return out

    if obj:
        ops = [CutAndSplice(p, tournament_size=2, **ctx.choice([{}, {"num_children": 4}, {"cross_over_rate": 2.0}]))]
        names = ["splice"]
    elif integer:
        ops, names = [count_change], ["function"]
    else:
        ops, names = zoo.operators(ctx, p, bounded, len(senses))
        if ctx.flip(0.25):
            ops.append(count_change)
            names.append("resize")
        if ctx.flip(0.25):
            ops.append(Drift(p, r.uniform(0.7, 0.99)))
            names.append("in-place")
            ctx.event("in_place")
    has_cross = any(isinstance(o, CrossOver) for o in ops)
    kw = {"popsize": popsize}
    elitist = ctx.choice([True, False])
    if not elitist or ctx.flip():
        kw["elitist"] = elitist
    re_evaluate = ctx.flip(0.6)
    if not re_evaluate or ctx.flip():
        kw["re_evaluate"] = re_evaluate
    if re_evaluate and ctx.flip(0.4):
        kw["re_evaluate_parents_first"] = True if has_cross else ctx.flip()
    sink = []
    steady = ctx.flip(0.35)
    key = "steady" if steady else "genetic"
    if steady:
        ctx.event("steady")
    by_use = len(ops) == 1 or (len(ops) == 2 and isinstance(ops[0], CrossOver) and not isinstance(ops[1], CrossOver))
    if steady and by_use and ctx.flip():
        s = SteadyStateGA(p, **kw)
        for op in ops if ctx.flip() else ops[::-1]:
            # one cross-over and one other operator, in any order
            s.use(op)
        ctx.event("used_later")
    else:
        if ctx.flip():
            ops = ops + [Tee(p, None, sink)]
        s = (SteadyStateGA if steady else GeneticAlgorithm)(p, operators=ops, **kw)
    ctx.note(names, kw, senses, noisy)
    ctx.state(tuple(names), elitist, re_evaluate, len(senses), noisy, steady, obj)
    sign = np.array([1.0 if x == "max" else -1.0 for x in senses])
    for g in range(ctx.randint(2, 5)):
        before, new = step_model(ctx, s, log, senses, popsize, elitist, re_evaluate, g == 0, key, sink)
        if elitist and not noisy and g > 0 and len(senses) == 1:
            ctx.check(max(e[0] * sign[0] for _, e in new) >= max(e[0] * sign[0] for _, e in before), f"worse:{key}", "the best fitness of an elitist search deteriorated")
            ctx.event("never_worse")
    ctx.sample(operators=names, options={k: str(v) for k, v in kw.items()}, senses=senses, noisy=noisy)


@scenario("C16", quick=200, thorough=4000, needs=["generations", "selections", "elites_kept", "permuted", "mutation_off", "children_number", "never_worse", "parents"])
def cosyne(ctx):
    log = Log(ctx.flip(0.3))
    n = ctx.randint(2, 5)
    sense = ctx.choice(["min", "max"])
    dtype = ctx.choice([torch.float32, torch.float64])
    bounded = ctx.flip(0.4)
    p = Numeric([sense], zoo.columns(ctx, n, 1), n, dtype, log, seed=ctx.randint(1, 10**6), **({"bounds": (-2.0, 3.0)} if bounded else {"initial_bounds": (-2.0, 3.0)}))
    popsize = ctx.randint(8, 18)
    kw = {"popsize": popsize, "tournament_size": ctx.randint(1, 3), "mutation_stdev": ctx.choice([None, 0.3, 0.3]), "permute_all": ctx.flip()}
    if kw["mutation_stdev"] is None:
        ctx.event("mutation_off")
    elif ctx.flip(0.3):
        kw["mutation_probability"] = 0.5
    elites = 0
    if ctx.flip(0.4):
        elites = kw["num_elites"] = ctx.randint(0, popsize // 2)
    elif ctx.flip():
        kw["elitism_ratio"] = ctx.choice([0.125, 0.25, 0.5])
        elites = int(popsize * kw["elitism_ratio"])
    if ctx.flip():
        kw["eta"] = 10.0
    if ctx.flip():
        kw["num_children"] = 2 * ctx.randint(1, 6)
    s = Cosyne(p, **kw)
    ctx.state(popsize, elites, kw["permute_all"], kw["mutation_stdev"], kw.get("num_children"))
    sign = 1.0 if sense == "max" else -1.0
    for g in range(4):
        before = rows(s.population)
        log.take()
        s.step()
        logged = log.take()
        if g == 0:
            ctx.check(Counter(x for x, _ in logged[:popsize]) == Counter(x for x, _ in before), "first-population", "the first population was not evaluated")
            before, logged = logged[:popsize], logged[popsize:]
        new = rows(s.population)
        ctx.event("generations")
        ctx.check(len(new) == popsize, "size", f"population of {len(new)} instead of {popsize}")
        kids = len(logged) - elites - popsize
        if "num_children" in kw:
            ctx.check(kids == kw["num_children"], "children", f"{len(logged)} candidates: {elites} elites, {popsize} permuted, {kids} children instead of {kw['num_children']}")
            ctx.event("children_number")
        else:
            ctx.check(kids >= 2, "children", f"{len(logged)} candidates: {elites} elites, {popsize} permuted and no children")
        best_of(ctx, logged, popsize, [sense], new, "cosyne", f"generation {g}")
        # the elites come through unchanged
        order = sorted(before, key=lambda r: -r[1][0] * sign)[:elites]
        missing = Counter(x for x, _ in order) - Counter(x for x, _ in logged)
        ctx.check(not missing, "elites", f"{sum(missing.values())} of {elites} elites are missing among the candidates")
        if elites:
            ctx.event("elites_kept")
            if not log.noisy:
                ctx.check(max(e[0] * sign for _, e in new) >= max(e[0] * sign for _, e in before), "worse", "the best fitness deteriorated in spite of elites")
                ctx.event("never_worse")
        # some popsize of the candidates are the population with each column permuted
        X = np.stack([np.frombuffer(x, dtype=to_np(s.population.values).dtype) for x, _ in before])
        Y = np.stack([np.frombuffer(x, dtype=X.dtype) for x, _ in logged])
        for j in range(n):
            lost = Counter(X[:, j].tolist()) - Counter(Y[:, j].tolist())
            ctx.check(not lost, "permutation", f"{sum(lost.values())} of {popsize} values of column {j} are not among the candidates")
        ctx.event("permuted")
        # without mutation and blending, children consist of values of the best quarter
        fs = sorted((e[0] * sign for _, e in before), reverse=True)
        q = popsize // 4
        if kw["mutation_stdev"] is None and "eta" not in kw and not log.noisy and fs[q - 1] > fs[q]:
            best = sorted(before, key=lambda r: -r[1][0] * sign)[: max(q, elites)]
            B = np.stack([np.frombuffer(x, dtype=X.dtype) for x, _ in best])
            for j in range(n):
                kid = Counter(Y[:, j].tolist()) - Counter(X[:, j].tolist()) - Counter(B[:elites, j].tolist())
                strange = set(kid) - set(B[:q, j].tolist())
                ctx.check(not strange, "parents", f"column {j} of the children has the values {strange}, which none of the best {q} of {popsize} solutions has")
            ctx.event("parents")
    ctx.sample(options={k: str(v) for k, v in kw.items()}, sense=sense)


@scenario("C16", quick=60, thorough=800, needs=["rejected", "order_kept", "noisy_parents"])
def using(ctx):
    """SteadyStateGA.use, and the options that exclude each other"""
    log = Log(False)
    p = Numeric(["min"], zoo.columns(ctx, 3, 1), 3, torch.float64, log, seed=ctx.randint(1, 10**6), initial_bounds=(-1, 1))
    from evotorch.operators import OnePointCrossOver, SimulatedBinaryCrossOver

    k = 2 * ctx.randint(1, 8)
    seen = []

    def mutate(values):
        seen.append(len(values))
        return values + 0.1

    popsize = k + 1 + 2 * ctx.randint(0, 3)
    s = SteadyStateGA(p, popsize=popsize)
    ctx.raises(RuntimeError, s.step, "no-operators", "a step without operators")
    s = SteadyStateGA(p, popsize=popsize)
    cross = ctx.choice([OnePointCrossOver(p, tournament_size=2, num_children=k), SimulatedBinaryCrossOver(p, tournament_size=2, eta=8.0, num_children=k)])
    pair = [cross, mutate]
    if ctx.flip():
        pair.reverse()
    for i, op in enumerate(pair):
        s.use(op)
        ctx.raises(ValueError, lambda: s.use(op), "used-twice", f"a second operator of the kind of {op}")
        ctx.event("rejected")
    for g in range(3):
        s.step()
        ctx.check(len(s.population) == popsize, "size", "")
    ctx.check(seen == [k] * 3, "operator-order", f"the mutation saw {seen} solutions, the cross-over makes {k}")
    ctx.event("order_kept")
    ctx.raises(RuntimeError, lambda: s.use(mutate), "use-after-start", "use() after the search has started")
    ctx.raises(RuntimeError, lambda: SteadyStateGA(p, popsize=4, operators=[cross]).use(mutate), "use-with-list", "use() with an operator list")
    ctx.raises(ValueError, lambda: GeneticAlgorithm(p, popsize=4, operators=[]), "empty-list", "no operators")
    ctx.raises(ValueError, lambda: GeneticAlgorithm(p, popsize=4, operators=[cross], re_evaluate=False, re_evaluate_parents_first=True), "contradiction", "re_evaluate_parents_first without re_evaluate")
    ctx.raises(ValueError, lambda: Cosyne(p, popsize=8, tournament_size=2, mutation_stdev=0.1, num_elites=1, elitism_ratio=0.5), "contradiction", "two numbers of elites")
    ctx.raises(ValueError, lambda: Cosyne(p, popsize=8, tournament_size=2, mutation_stdev=None, mutation_probability=0.5), "contradiction", "probability without mutation")
    g = GeneticAlgorithm(p, popsize=4, operators=[cross], re_evaluate=False)
    ctx.check(g.re_evaluate is False and g.re_evaluate_parents_first is None, "flags", "")
    g = GeneticAlgorithm(p, popsize=4, operators=[cross])
    ctx.check(g.re_evaluate is True and g.re_evaluate_parents_first is True, "flags", "cross-over needs evaluated parents")

    # with parents evaluated first, the cross-over must see fresh fitnesses
    class Watch(CopyingOperator):
        def _do(self, batch):
            fits.append([tuple(float(v) for v in e) for e in to_np(batch.evals)])
            return batch.clone()

    fits = []
    log2 = Log(True)
    q = Numeric([ctx.choice(["min", "max"])], zoo.columns(ctx, 3, 1), 3, torch.float64, log2, seed=3, initial_bounds=(-1, 1))
    a = GeneticAlgorithm(q, popsize=5, operators=[Watch(q), GaussianMutation(q, stdev=0.3)], re_evaluate_parents_first=True)
    for _ in range(3):
        log2.take()
        a.step()
        ctx.check(fits[-1] == [e for _, e in log2.rows[:5]], "stale-parents", lambda: f"the operators saw {fits[-1]}, the parents were just evaluated as {[e for _, e in log2.rows[:5]]}")
        ctx.event("noisy_parents")
    ctx.state(k, popsize, pair[0] is cross)
