"""C36: restarting searches restart exactly on their criteria and keep records."""

import numpy as np
import torch
from evotorch.algorithms import CMAES, SNES, Cosyne, GeneticAlgorithm, SearchAlgorithm
from evotorch.algorithms.restarter import IPOP, ModifyingRestart, Restart
from evotorch.algorithms.searchalgorithm import SinglePopulationAlgorithmMixin
from evotorch.logging import PandasLogger
from evotorch.operators import GaussianMutation

from vmon import zoo
from vmon.compare import to_np
from vmon.engine import rule, scenario

rule("C36", "A case is one restarting search around a scripted or a real inner algorithm; the instances made, their arguments and every step are compared with a model of the restart rule.")
ASSUMPTIONS = ["spreads of fitnesses are kept away from the restart threshold"]


class Script:
    """what the inner algorithms do, step by step, and what they did"""

    def __init__(self):
        self.made, self.steps, self.plan = [], [], []


class Marker:
    """an argument object that must reach every instance"""

    def __init__(self):
        self.seen = 0


def inner_class(script, lazy_population):
    class Inner(SearchAlgorithm, SinglePopulationAlgorithmMixin):
        def __init__(self, problem, *, popsize=5, tag=None, marker=None):
            SearchAlgorithm.__init__(self, problem, tag=lambda: tag)
            self._n = popsize
            self._pop = None if lazy_population else problem.generate_batch(popsize)
            self._over = False
            script.made.append({"self": self, "problem": problem, "popsize": popsize, "tag": tag, "marker": marker})
            SinglePopulationAlgorithmMixin.__init__(self)

        @property
        def population(self):
            return self._pop

        @property
        def is_terminated(self):
            return self._over

        def _step(self):
            spread, over = script.plan[len(script.steps)]
            script.steps.append(self)
            b = self.problem.generate_batch(self._n)
            if spread is not None:
                x = torch.zeros(self._n, self.problem.solution_length, dtype=torch.float64)
                # fitness is the first variable
                x[:, 0] = torch.linspace(-1, 1, self._n, dtype=torch.float64) * spread + 5.0 - 0.01 * len(script.steps)
                b.set_values(x)
            self.problem.evaluate(b)
            self._pop = b
            self._over = over

    return Inner


@scenario("C36", quick=400, thorough=8000, needs=["steps", "restarts", "grown", "kept_running", "terminated_by_itself", "terminated_by_spread", "status_read", "logged", "modified", "lazy_population", "evaluation_data", "plain", "ipop", "modifying", "best_kept"])
def scripted(ctx):
    script = Script()
    lazy = ctx.flip()
    Inner = inner_class(script, lazy)
    if lazy:
        ctx.event("lazy_population")
    sense = ctx.choice(["min", "max"])
    edl = ctx.choice([0, 0, 1])

    def f(x):
        cols = [x[:, 0]]
        if edl:
            cols.append(100.0 * torch.arange(len(x), dtype=x.dtype))
        return torch.stack(cols, dim=-1)

    p = zoo.make_problem([sense], f, 3, torch.float64, seed=5, edl=edl, initial_bounds=(-1, 1))
    which = ctx.choice(["plain", "ipop", "ipop", "modifying"])
    ctx.event(which)
    steps = ctx.randint(2, 8)
    limit = ctx.choice([1e-9, 1e-3, 1.0])
    for _ in range(steps):
        low = ctx.flip(0.35)
        script.plan.append((limit * 0.01 if low else limit * 50, ctx.flip(0.2)))
    marker = Marker()
    args = {"tag": "t", "marker": marker}
    n0 = 5
    if ctx.flip(0.7):
        n0 = args["popsize"] = ctx.randint(3, 8)
    given = dict(args)
    mult = ctx.choice([2, 1.5, 3, 1])
    if which == "plain":
        s = Restart(p, Inner, args)
    elif which == "ipop":
        s = IPOP(p, Inner, args, min_fitness_stdev=limit, popsize_multiplier=mult)
    else:

        class Mine(ModifyingRestart):
            def _modify_algorithm_args(self):
                self._algorithm_args = {**self._algorithm_args, "tag": f"restart{self.num_restarts}"}
                ctx.event("modified")

        s = Mine(p, Inner, args)
    seen = []
    log = ctx.flip()
    if log:
        s.log_hook.append(lambda st: seen.append({k: v for k, v in st.items() if k in ("iter", "num_restarts", "algorithm_terminated", "best_eval")}))
    # the model
    made = 1
    size = n0
    ctx.check(len(script.made) == 1 and s.num_restarts == 1, "first-instance", f"{len(script.made)} instances, num_restarts {s.num_restarts}")
    best = None
    for k in range(steps):
        current = script.made[-1]["self"]
        s.step() if ctx.flip() else s.run(1)
        spread, over = script.plan[k]
        ctx.check(len(script.steps) == k + 1 and script.steps[-1] is current, "inner-step", f"step {k}: {len(script.steps)} inner steps, instance {'same' if script.steps[-1] is current else 'other'}")
        ctx.event("steps")
        low = spread < limit and which == "ipop"
        if over or low:
            ctx.event("terminated_by_itself" if over else "terminated_by_spread")
            made += 1
            if edl and low:
                ctx.event("evaluation_data")
            if which == "ipop":
                size = int(mult * size)
                ctx.event("grown")
            ctx.event("restarts")
        else:
            ctx.event("kept_running")
        ctx.check(len(script.made) == made, "instances", lambda: f"{len(script.made)} instances after step {k + 1}, expected {made} (spread {spread}, limit {limit}, ended by itself: {over})")
        last = script.made[-1]
        ctx.check(s.search_algorithm is last["self"], "current", "the current inner search is not the last one made")
        ctx.check(last["problem"] is p and last["popsize"] == size, "arguments", f"popsize {last['popsize']}, expected {size}")
        ctx.check(last["marker"] is marker, "argument-copied", "the restarted search was given a copy of an argument")
        want_tag = f"restart{made - 1}" if which == "modifying" else "t"
        ctx.check(last["tag"] == want_tag, "arguments", f"tag {last['tag']}, expected {want_tag}")
        ctx.check(s.num_restarts == made, "num-restarts", f"{s.num_restarts}, expected {made}")
        ctx.check(s.step_count == k + 1, "step-count", f"{s.step_count}")
        # the best over all instances
        x = 5.0 - 0.01 * (k + 1) + (spread if sense == "max" else -spread)
        best = x if best is None else max(best, x) if sense == "max" else min(best, x)
        if ctx.flip() or k == steps - 1:
            st = dict(s.status)
            ctx.check(st["iter"] == k + 1 and st["num_restarts"] == made, "status", f"iter {st['iter']}, num_restarts {st['num_restarts']}")
            ctx.close(st["best_eval"], best, "best", "best_eval over all instances", rtol=1e-9, atol=1e-9)
            ctx.event("best_kept")
            ctx.check(st["search_algorithm"]["tag"] == want_tag, "inner-status", "the status of the inner search is not the current one's")
            fresh = made > 1 and (over or low)
            if fresh:
                ctx.check(st["algorithm_terminated"] == False, "terminated-flag", "a fresh instance is reported as terminated")  # noqa: E712
                ctx.check("iter" not in st["search_algorithm"], "inner-status", "a fresh instance has made steps")
            else:
                ctx.check(st["algorithm_terminated"] == False, "terminated-flag", "a running instance is reported as terminated")  # noqa: E712
                ctx.check(st["search_algorithm"]["iter"] == current.step_count, "inner-status", "")
            ctx.event("status_read")
        if log:
            ctx.check(len(seen) == k + 1 and seen[-1]["iter"] == k + 1 and seen[-1]["num_restarts"] == made, "logged", f"{seen[-1]}")
            ctx.event("logged")
    ctx.check(args == given, "arguments-changed", "the given dictionary of arguments was changed")
    ctx.state(which, sense, steps, made, mult, limit, lazy, edl)
    ctx.sample(kind=which, steps=steps, instances=made, multiplier=mult)


@scenario("C36", quick=60, thorough=1000, needs=["first_flat", "second_flat", "all_flat", "varied"])
def several_objectives(ctx):
    """a population counts as converged when all of its objectives are"""
    limit = ctx.choice([1e-9, 1e-3])
    flat = ctx.choice([(0,), (1,), (0, 1), ()])
    p = zoo.make_problem(["min", ctx.choice(["min", "max"])], lambda x: x[:, :2], 3, torch.float64, seed=5, initial_bounds=(-1, 1))

    class Inner(SearchAlgorithm):
        population = None

        def __init__(self, problem, popsize=6):
            super().__init__(problem)
            self.popsize = popsize

        def _step(self):
            b = self.problem.generate_batch(self.popsize)
            x = torch.zeros(self.popsize, 3, dtype=torch.float64)
            for k in range(2):
                if k not in flat:
                    x[:, k] = torch.linspace(-1, 1, self.popsize)
            b.set_values(x)
            self.problem.evaluate(b)
            self.population = b

    s = IPOP(p, Inner, {"popsize": 5}, min_fitness_stdev=limit)
    s.run(3)
    want = 4 if len(flat) == 2 else 1
    ctx.check(s.num_restarts == want, "converged", f"{s.num_restarts} instances in three generations, expected {want}; objectives without spread: {flat}")
    ctx.event({(0,): "first_flat", (1,): "second_flat", (0, 1): "all_flat", (): "varied"}[flat])
    ctx.state(flat, limit)


@scenario("C36", quick=120, thorough=2500, needs=["real_restarts", "real_grown", "framed", "SNES", "CMAES", "GeneticAlgorithm", "Cosyne"])
def real(ctx):
    """the algorithms of the library inside IPOP"""
    sense = ctx.choice(["min", "max"])
    f = zoo.columns(ctx, 3, 1)
    log = []

    def g(x):
        y = f(x)
        log.append(to_np(y)[:, 0].copy())
        return y

    p = zoo.make_problem([sense], g, 3, torch.float64, seed=ctx.randint(1, 10**6), initial_bounds=(-1, 1))
    A = ctx.choice([SNES, CMAES, GeneticAlgorithm, Cosyne])
    ctx.event(A.__name__)
    args = {"popsize": ctx.randint(8, 10)}
    if A in (SNES, CMAES):
        args["stdev_init"] = 0.5
        if ctx.flip(0.3):
            del args["popsize"]
    elif A is GeneticAlgorithm:
        args["operators"] = [GaussianMutation(p, stdev=0.3)]
    else:
        args.update(tournament_size=2, mutation_stdev=0.2)
    # a huge limit restarts after every step, a tiny one never
    always = ctx.flip(0.7)
    mult = ctx.choice([2, 1.5])
    s = IPOP(p, A, args, min_fitness_stdev=1e9 if always else 1e-12, popsize_multiplier=mult)
    frame = PandasLogger(s) if ctx.flip() else None
    if frame is None and ctx.flip():
        s.log_hook.append(lambda st: dict(st))
    sizes = []
    before = s.search_algorithm
    for k in range(ctx.randint(2, 4)):
        before = s.search_algorithm
        s.step()
        pop = before.population
        sizes.append(len(pop))
        if always:
            ctx.check(s.search_algorithm is not before and s.num_restarts == k + 2, "instances", f"no restart after step {k + 1}")
            ctx.check(s.search_algorithm.step_count == 0, "fresh", f"the new instance has made {s.search_algorithm.step_count} steps")
            ctx.event("real_restarts")
            if k:
                ctx.check(sizes[-1] == int(mult * sizes[-2]), "growth", f"population sizes {sizes}, multiplier {mult}")
                ctx.event("real_grown")
            if A is GeneticAlgorithm:
                # members descend from the problem at hand, also after a restart
                ctx.check(s.search_algorithm.problem is p, "problem", "")
        else:
            ctx.check(s.search_algorithm is before and s.num_restarts == 1, "instances", f"a restart after step {k + 1} without reason")
            ctx.check(before.step_count == k + 1, "inner-step", f"{before.step_count}")
        every = np.concatenate(log)
        ctx.check(float(s.status["best_eval"]) == (every.max() if sense == "max" else every.min()), "best", f"{s.status['best_eval']}")
        ctx.check(s.status["iter"] == k + 1, "status", "")
    if frame is not None:
        df = frame.to_dataframe()
        ctx.check(list(df.index) == list(range(1, len(sizes) + 1)) and list(df["num_restarts"]) == [i + 2 if always else 1 for i in range(len(sizes))], "frame", f"{df[['num_restarts']]}")
        ctx.event("framed")
    ctx.state(A.__name__, always, mult, tuple(sizes), sense)
    ctx.sample(algorithm=A.__name__, sizes=sizes)
