"""C39: a Problem is what it was declared to be, and contradictory declarations are refused."""

from typing import Any

import numpy as np
import torch
from evotorch import Problem, Solution, SolutionBatch
from evotorch.decorators import vectorized
from evotorch.tools import ObjectArray

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C39", "A case is one declaration of a problem: what it reports, the populations it makes and the calls it answers are compared with the declaration; or one contradictory declaration, which must be refused.")
ASSUMPTIONS = ["devices other than cpu and meta are not available here; worker processes are observed by C02"]

TOL = {torch.float16: 1e-3, torch.bfloat16: 1e-2, torch.float32: 1e-6, torch.float64: 1e-12}
NP_NAMES = {torch.float16: "float16", torch.float32: "float32", torch.float64: "float64", torch.int64: "int64", torch.int32: "int32"}


def name_of(ctx, dt):
    """one of the ways of naming a dtype"""
    forms = [dt, str(dt).split(".")[1]]
    if dt in NP_NAMES:
        forms += [np.dtype(NP_NAMES[dt]), getattr(np, NP_NAMES[dt])]
    return ctx.choice(forms)


def limit(ctx, x, n):
    """one of the ways of giving a limit; and what it is expected to be"""
    x = np.asarray(x, dtype=float)
    if x.ndim == 0:
        v = float(x)
        return ctx.choice([v, np.float64(v), torch.tensor(v, dtype=torch.float64), np.array(v)])
    return ctx.choice([list(map(float, x)), tuple(map(float, x)), x.copy(), torch.tensor(x), torch.tensor(x, dtype=torch.float32)])


@scenario(
    "C39",
    quick=500,
    thorough=6000,
    needs=["numeric", "objects", "eval_dtype_default", "bounds_only", "both_bounds", "initial_only", "no_bounds", "caller_changes_bounds", "generated_inside", "scalar_bounds", "decimal_bounds", "fixed_variables", "multi"],
)
def declared(ctx):
    numeric = ctx.flip(0.85)
    nobj = ctx.choice([1, 1, 2, 3])
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    given_senses = senses[0] if nobj == 1 and ctx.flip(0.7) else ctx.choice([list, tuple])(senses)
    kw = {}
    edl = ctx.choice([None, 0, 2])
    if edl is not None or ctx.flip():
        kw["eval_data_length"] = edl
    stats = ctx.choice([None, True, False])
    if stats is not None:
        kw["store_solution_stats"] = stats
    if ctx.flip(0.3):
        kw["num_actors"] = ctx.choice([0, 1, None])
    if ctx.flip(0.3):
        kw["device"] = ctx.choice(["cpu", torch.device("cpu")])
    seed = ctx.choice([None, ctx.randint(0, 10**6)])
    if seed is not None:
        kw["seed"] = seed
    if not numeric:
        dtype = object
        kw["dtype"] = ctx.choice([object, "object", "O", Any, "Any"])
        n = None
    else:
        dtype = ctx.choice([None, torch.float32, torch.float64, torch.float64, torch.float16, torch.bfloat16, torch.int64])
        n = ctx.randint(1, 6)
        kw["solution_length"] = ctx.choice([n, np.int64(n)])
        if dtype is not None:
            kw["dtype"] = name_of(ctx, dtype)
        dtype = dtype or torch.float32
    ev = ctx.choice([None, None, torch.float32, torch.float64])
    if ev is not None:
        kw["eval_dtype"] = name_of(ctx, ev)
    else:
        ev = dtype if dtype in (torch.float16, torch.bfloat16, torch.float64) else torch.float32
        ctx.event("eval_dtype_default")

    how, want, given = "none", {}, []
    if numeric:
        how = ctx.choice(["none", "bounds", "initial", "both"])

        def pair(lo, hi):
            if ctx.flip(0.4):
                a, b = np.float64(ctx.randint(*lo)), np.float64(ctx.randint(*hi))
                ctx.event("scalar_bounds")
            else:
                a, b = ctx.np.integers(lo[0], lo[1] + 1, n).astype(float), ctx.np.integers(hi[0], hi[1] + 1, n).astype(float)
                if ctx.flip(0.2):
                    b[0] = a[0]
                    ctx.event("fixed_variables")
                if ctx.flip(0.2):
                    a = np.float64(lo[0])
            if dtype.is_floating_point and (a < b).all() and ctx.flip():
                # not exactly representable
                a, b = a + np.float64(0.1), b + np.float64(0.1)
                ctx.event("decimal_bounds")
            ga, gb = limit(ctx, a, n), limit(ctx, b, n)
            given.extend([ga, gb])
            a, b = (np.array(g, dtype=np.float64) for g in (ga, gb))
            return (a, b), ctx.choice([tuple, list])((ga, gb))

        if how in ("bounds", "both"):
            want["bounds"], kw["bounds"] = pair((-9, -5), (5, 9))
        if how in ("initial", "both"):
            want["initial"], kw["initial_bounds"] = pair((-4, -2), (2, 4))
        if how == "bounds":
            want["initial"] = want["bounds"]
    ctx.note(f"numeric={numeric} dtype={dtype} eval={ev} n={n} senses={given_senses} {how}", str(kw))
    guard = Frozen(ctx, "arguments", **{f"bound{i}": g for i, g in enumerate(given) if isinstance(g, (np.ndarray, torch.Tensor, list))})

    class Own(Problem):
        def _fill(self, values):
            if self.dtype is object:
                for i in range(len(values)):
                    values[i] = ["new", i]
            else:
                super()._fill(values)

        def _evaluate_batch(self, batch):
            batch.set_evals(torch.zeros(len(batch), nobj))

    with guard:
        p = Own(given_senses, **kw)
    ctx.event("numeric" if numeric else "objects")
    if nobj > 1:
        ctx.event("multi")

    def report(where):
        ctx.check(p.dtype is dtype or p.dtype == dtype, "dtype", f"{where}: dtype {p.dtype}, declared {dtype}")
        ctx.check(p.eval_dtype == ev, "eval_dtype", f"{where}: eval_dtype {p.eval_dtype}, expected {ev}")
        ctx.check(torch.device(p.device) == torch.device("cpu") and p.is_on_cpu(), "device", f"{where}: {p.device}")
        ctx.check(p.solution_length == n, "solution_length", f"{where}: {p.solution_length} instead of {n}")
        ctx.check(p.eval_data_length == (edl or 0), "eval_data_length", f"{where}: {p.eval_data_length} instead of {edl}")
        ctx.check(list(p.senses) == senses, "senses", f"{where}: {p.senses} instead of {senses}")
        ctx.check(p.objective_sense == (senses[0] if nobj == 1 else senses), "senses", f"{where}: objective_sense {p.objective_sense}")
        ctx.check(p.is_single_objective == (nobj == 1) and p.is_multi_objective == (nobj > 1), "senses", f"{where}: single {p.is_single_objective}, multi {p.is_multi_objective}")
        ctx.check(list(p.get_obj_order_descending()) == [s == "max" for s in senses], "senses", f"{where}: descending {p.get_obj_order_descending()}")
        ctx.check(p.has_own_generator == (seed is not None) and (p.generator is not None) == (seed is not None), "generator", f"{where}: own generator {p.has_own_generator} with seed {seed}")
        ctx.check(p.is_main and not p.is_remote and p.actor_index is None and p.actors is None and p.num_actors == 0, "actors", f"{where}: {p.num_actors} {p.actors}")
        for kind, (lo, up) in dict(bounds=(p.lower_bounds, p.upper_bounds), initial=(p.initial_lower_bounds, p.initial_upper_bounds)).items():
            if kind not in want:
                ctx.check(lo is None and up is None, kind, f"{where}: {kind} {lo} {up} although none was declared")
                continue
            for side, got, exp in (("lower", lo, want[kind][0]), ("upper", up, want[kind][1])):
                ctx.check(got.dtype == dtype and tuple(got.shape) == np.shape(exp), kind, f"{where}: {side} {kind} of dtype {got.dtype} and shape {tuple(got.shape)}, declared {exp}")
                eps = torch.finfo(dtype).eps if dtype.is_floating_point else 0.0
                ctx.close(np.asarray(got.to(torch.float64)), exp, kind, f"{where}: {side} {kind}", rtol=eps, atol=0)

    report("after the declaration")
    # what the caller does with the given objects later does not matter
    for g in given:
        if isinstance(g, (np.ndarray, torch.Tensor)):
            g[...] = 77
            ctx.event("caller_changes_bounds")
        elif isinstance(g, list):
            g[:] = [77.0] * len(g)
    if isinstance(given_senses, list):
        given_senses[0] = "max" if senses[0] == "min" else "min"
    report("after the caller changed the given objects")
    ctx.event({"none": "no_bounds", "bounds": "bounds_only", "initial": "initial_only", "both": "both_bounds"}[how])

    # populations
    k = ctx.choice([0, 1, 3, 8]) if numeric else ctx.randint(1, 5)
    if numeric and how == "none":
        ctx.raises(RuntimeError, lambda: p.generate_values(2), "no_initial", "values of a problem without bounds")
        b = p.generate_batch(k, empty=True)
    else:
        v = p.generate_values(k)
        ctx.check(len(v) == k, "values", f"{len(v)} instead of {k}")
        b = p.generate_batch(k)
        if numeric:
            for x in (v, b.values):
                x = to_np(torch.as_tensor(x).as_subclass(torch.Tensor).to(torch.float64))
                slack = 20 * (torch.finfo(dtype).eps if dtype.is_floating_point else 0.0)
                ctx.check(x.shape == (k, n) and (x >= want["initial"][0] - slack).all() and (x <= want["initial"][1] + slack).all(), "generated", lambda: f"values {x} out of {want['initial']}")
            if k:
                ctx.event("generated_inside")
        else:
            ctx.check(isinstance(v, ObjectArray), "values", f"{type(v)}")
    ctx.check(len(b) == k and b.dtype == dtype and b.eval_dtype == ev and b.solution_length == n, "batch", lambda: f"{len(b)} {b.dtype} {b.eval_dtype} {b.solution_length}")
    ctx.check(tuple(b.eval_shape) == (k, nobj + (edl or 0)) and bool(torch.isnan(b.evals.as_subclass(torch.Tensor)).all()), "batch", lambda: f"evaluations {b.evals}")
    for sln in list(b)[:2]:
        ctx.check(sln.dtype == dtype and list(sln.senses) == senses and tuple(sln.eval_shape) == (nobj + (edl or 0),) and bool(torch.isnan(sln.evals.as_subclass(torch.Tensor)).all()), "solution", lambda: f"{sln.dtype} {sln.senses} {sln.eval_shape} {sln.evals}")
        if numeric:
            ctx.check(len(sln) == n and tuple(sln.shape) == (n,) == tuple(sln.size()) and sln.ndim == sln.dim() == 1, "solution", lambda: f"{len(sln)} {sln.shape} {sln.ndim}")
    ctx.check(b.senses == senses and b.objective_sense == (senses[0] if nobj == 1 else senses), "batch", lambda: f"senses of the population {b.senses}")
    if k:
        p.evaluate(b)
        ctx.check(p.stores_solution_stats is (True if stats is None else stats), "stats", f"stores_solution_stats {p.stores_solution_stats} declared {stats}")
        ctx.check(("best" in p.status) == (stats is not False), "stats", f"status {sorted(p.status)} with store_solution_stats={stats}")
    report("after using the problem")
    ctx.state(numeric, str(dtype), str(ev), nobj, how, n, edl, stats)
    ctx.sample(dtype=str(dtype), eval_dtype=str(ev), senses=senses, bounds=how)


@scenario("C39", quick=300, thorough=2000, needs=["refused"])
def refused(ctx):
    f = lambda x: (x**2).sum(-1)  # noqa: E731
    fv = vectorized(lambda x: (x**2).sum(-1))
    n = ctx.randint(2, 5)
    d = dict(solution_length=n, initial_bounds=(-1, 1))

    class Num(Problem):
        def _evaluate_batch(self, batch):
            batch.set_evals(torch.zeros(len(batch), len(self.senses)))

    def single():
        return Problem("min", f, **d)

    def multi(k=2):
        return Num(["min", "max", "min"][:k], **d)

    bad = ctx.choice([n - 1, n + 1, 2 * n])
    cases = {
        "object_bounds": (ValueError, lambda: Problem("min", f, dtype=object, bounds=(-1, 1))),
        "object_initial_bounds": (ValueError, lambda: Problem("min", f, dtype=object, initial_bounds=(-1, 1))),
        "object_length": (ValueError, lambda: Problem("min", f, dtype=object, solution_length=3)),
        "object_device": (ValueError, lambda: Problem("min", f, dtype=object, device="meta")),
        "no_length": (ValueError, lambda: Problem("min", f, initial_bounds=(-1, 1))),
        "bounds_length": (ValueError, lambda: Problem("min", f, solution_length=n, bounds=([-1.0] * bad, [1.0] * n))),
        "bounds_length2": (ValueError, lambda: Problem("min", f, solution_length=n, bounds=([-1.0] * n, [1.0] * bad))),
        "initial_length": (ValueError, lambda: Problem("min", f, solution_length=n, initial_bounds=(-1.0, torch.ones(bad)))),
        "initial_length2": (ValueError, lambda: Problem("min", f, solution_length=n, bounds=(-1, 1), initial_bounds=(torch.zeros(bad), 1))),
        "bounds_matrix": (ValueError, lambda: Problem("min", f, solution_length=n, bounds=(-torch.ones(1, n), torch.ones(1, n)))),
        "sense": (ValueError, lambda: Problem(ctx.choice(["minimize", "MIN", "", "maximum"]), f, **d)),
        "senses": (ValueError, lambda: Problem(["min", ctx.choice(["Max", "none", ""])], f, **d)),
        "no_senses": (ValueError, lambda: Problem([], f, **d)),
        "vectorized_without_function": (ValueError, lambda: Num("min", vectorized=ctx.flip(), **d)),
        "vectorized_twice": (ValueError, lambda: Problem("min", fv, vectorized=ctx.flip(), **d)),
        "two_splittings": (ValueError, lambda: Problem("min", f, num_subbatches=2, subbatch_size=3, **d)),
        "actors_name": (ValueError, lambda: Problem("min", f, num_actors="many", **d)),
        "gpus_name": (ValueError, lambda: Problem("min", f, num_gpus_per_actor="some", num_actors=2, **d)),
        "gpus_twice": (ValueError, lambda: Problem("min", f, num_actors=2, actor_config={"num_gpus": 1}, num_gpus_per_actor=1, **d)),
        "device_and_actors": (ValueError, lambda: Problem("min", f, num_actors=2, device="meta", **d)),
        "symmetric_without_center": (ValueError, lambda: single().generate_batch(4, symmetric=True)),
        "center_without_stdev": (ValueError, lambda: single().generate_batch(4, center=0.0)),
        "stdev_without_center": (ValueError, lambda: single().generate_batch(4, stdev=1.0)),
        "empty_with_center": (ValueError, lambda: single().generate_batch(4, center=0.0, stdev=1.0, empty=True)),
        "evaluate_tensor": (TypeError, lambda: single().evaluate(torch.zeros(3, n))),
        "obj_missing": (ValueError, lambda: multi().normalize_obj_index()),
        "obj_range": (IndexError, lambda: multi().normalize_obj_index(ctx.choice([2, 3, -3, -4]))),
        "obj_range_single": (IndexError, lambda: single().normalize_obj_index(ctx.choice([1, -2]))),
        "ensure_numeric": (ValueError, lambda: Problem("min", f, dtype=object).ensure_numeric()),
        "ensure_unbounded": (ValueError, lambda: Problem("min", f, solution_length=n, bounds=(-1, 1)).ensure_unbounded()),
        "ensure_single": (ValueError, lambda: multi(ctx.choice([2, 3])).ensure_single_objective()),
        "no_function": (NotImplementedError, lambda: (lambda p: p.evaluate(p.generate_batch(2)))(Problem("min", **d))),
        "object_without_fill": (NotImplementedError, lambda: Problem("min", f, dtype=object).generate_batch(2)),
        "popsize_max_alone": (ValueError, lambda: single().sample_and_compute_gradients(None, 4, popsize_max=8)),
        "evaluator_multi": (ValueError, lambda: multi().make_callable_evaluator()),
        "evaluator_dtypes": (TypeError, lambda: Problem("min", f, eval_dtype="float64", **d).make_callable_evaluator()),
        "evaluator_objects": (ValueError, lambda: Problem("min", f, dtype=object).make_callable_evaluator()),
        "evaluator_scalar": (ValueError, lambda: single().make_callable_evaluator()(torch.tensor(1.0))),
        "two_ways": (Exception, lambda: SolutionBatch(single(), 3, slice_of=(single().generate_batch(2), [0]))),
        "nothing": (ValueError, lambda: SolutionBatch()),
        "objects_on_device": (ValueError, lambda: SolutionBatch(Problem("min", f, dtype=object), 3, device="meta", empty=True)),
        "solution_of_nothing": (TypeError, lambda: Solution([1, 2], 0)),
        "solution_index": (IndexError, lambda: single().generate_batch(3)[ctx.choice([3, 4, -4])]),
        "evals_1d_of_many": (ValueError, lambda: multi().generate_batch(3).set_evals(torch.zeros(3))),
        "evals_3d": (ValueError, lambda: single().generate_batch(3).set_evals(torch.zeros(3, 1, 1))),
        "evals_rows": (ValueError, lambda: single().generate_batch(3).set_evals(torch.zeros(ctx.choice([1, 2, 4])))),
        "evals_columns": (ValueError, lambda: multi().generate_batch(3).set_evals(torch.zeros(3, ctx.choice([1, 3])))),
        "eval_data_columns": (ValueError, lambda: single().generate_batch(3).set_evals(torch.zeros(3), torch.zeros(3, 1))),
        "solution_evals_2d": (ValueError, lambda: single().generate_batch(3)[0].set_evals(torch.zeros(1, 1))),
        "utility_unevaluated": (ValueError, lambda: single().generate_batch(3).utility()),
        "split_both": (ValueError, lambda: single().generate_batch(3).split(2, max_size=1)),
        "split_none": (ValueError, lambda: single().generate_batch(3).split()),
        "argsort_of_many": (ValueError, lambda: multi().generate_batch(3).argsort()),
        "take_single": (TypeError, lambda: single().generate_batch(3).take(1)),
        "cat_strange": (TypeError, lambda: SolutionBatch.cat([single().generate_batch(2), torch.zeros(2, n)])),
        "objects_to_device": (ValueError, lambda: Obj().generate_batch(2).to("meta")),
    }

    class Obj(Problem):
        def __init__(self):
            super().__init__("min", dtype=object)

        def _fill(self, values):
            for i in range(len(values)):
                values[i] = i

    names = sorted(cases)
    name = names[ctx.index % len(names)]
    exc, fn = cases[name]
    ctx.raises(exc, fn, "accepted:" + name, name)
    ctx.event("refused")
    ctx.state(name)
    # the nearest right declaration is accepted
    p = single()
    b = p.generate_batch(4, center=0.0, stdev=1.0, symmetric=True)
    p.evaluate(b)
    ctx.close(b.evals[:, 0], (to_np(b.values) ** 2).sum(-1), "accepted", "fitnesses")
    p.ensure_numeric(), p.ensure_unbounded(), p.ensure_single_objective()
    ctx.check([p.normalize_obj_index(i) for i in (None, 0, -1)] == [0, 0, 0], "obj_index", "objective index of a problem with one objective")
    m = multi(3)
    ctx.check([m.normalize_obj_index(i) for i in (0, 1, 2, -1, -2, -3)] == [0, 1, 2, 2, 1, 0], "obj_index", "objective index of a problem with three objectives")


@scenario("C39", quick=200, thorough=2500, needs=["compared", "ties", "centered_batch", "symmetric_batch", "reseeded", "unseeded"])
def answers(ctx):
    """comparisons, populations around a center, generators"""
    nobj, n = ctx.choice([1, 2, 3]), ctx.randint(1, 4)
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    dtype = ctx.choice([torch.float32, torch.float64])

    class P(Problem):
        def _evaluate_batch(self, batch):
            batch.set_evals(torch.round(batch.values[:, :1].as_subclass(torch.Tensor) * 2).expand(-1, nobj) * torch.tensor([1.0, -1.0, 2.0])[:nobj])

    p = P(senses if nobj > 1 else senses[0], solution_length=n, initial_bounds=(-1.5, 1.5), dtype=dtype, seed=ctx.randint(1, 10**6))
    b = p.generate_batch(6)
    p.evaluate(b)
    ev = to_np(b.evals).astype(float)
    for _ in range(10):
        i, j, o = ctx.randint(0, 5), ctx.randint(0, 5), ctx.randint(0, nobj - 1)
        args = () if nobj == 1 and ctx.flip() else (ctx.choice([o, o - nobj]),)
        diff = (ev[i, o] - ev[j, o]) * (1 if senses[o] == "max" else -1)
        got = float(p.compare_solutions(b[i], b[j], *args))
        ctx.check(np.sign(got) == np.sign(diff), "compare", f"{ev[i, o]} against {ev[j, o]} ({senses[o]}): {got}")
        ctx.check(bool(p.is_better(b[i], b[j], *args)) == (diff > 0) and bool(p.is_worse(b[i], b[j], *args)) == (diff < 0), "compare", f"is_better/is_worse of {ev[i, o]} and {ev[j, o]} ({senses[o]})")
        ctx.event("compared")
        if diff == 0:
            ctx.event("ties")
    # a population around a center
    c, s = ctx.np.normal(size=n) * 10, ctx.np.uniform(0.01, 0.1, size=n)
    sym = ctx.flip()
    k = 2 * ctx.randint(1, 20)
    g = p.generate_batch(k, center=torch.tensor(c), stdev=torch.tensor(s), **({"symmetric": True} if sym else {}))
    x = to_np(g.values).astype(float)
    ctx.check(x.shape == (k, n) and (np.abs(x - c) < 8 * s).all(), "centered", lambda: f"{x} around {c} with {s}")
    ctx.check(bool(torch.isnan(g.evals.as_subclass(torch.Tensor)).all()), "centered", "a fresh population is not evaluated")
    ctx.event("centered_batch")
    if sym:
        ctx.close(x[0::2] + x[1::2], np.broadcast_to(2 * c, (k // 2, n)), "symmetric", "sum of the two solutions of each pair", rtol=1e-5, atol=1e-5)
        ctx.event("symmetric_batch")
    # generators
    a, z = ctx.randint(0, 10**6), ctx.randint(0, 10**6)
    runs = []
    for sd in (a, z, a):
        p.manual_seed(sd)
        torch.rand(ctx.randint(0, 3))
        ctx.check(p.has_own_generator, "generator", "seeded problem without an own generator")
        runs.append(to_np(p.generate_batch(5).values).copy())
    ctx.same(runs[0], runs[2], "reseeded", "populations after seeding with the same number")
    ctx.check(a == z or not np.array_equal(runs[0], runs[1]), "reseeded", f"seeds {a} and {z} give the same population")
    ctx.event("reseeded")
    p.manual_seed(None)
    ctx.check(not p.has_own_generator and p.generator is None, "generator", "a generator after manual_seed(None)")
    torch.manual_seed(a)
    r1 = to_np(p.generate_batch(5).values).copy()
    torch.manual_seed(a)
    ctx.same(p.generate_batch(5).values, r1, "unseeded", "populations of an unseeded problem follow the global generator")
    ctx.event("unseeded")
    ctx.state(nobj, n, sym, k)


class Who(Problem):
    def _evaluate_batch(self, batch):
        batch.set_evals(batch.values[:, 0] * 2 + 1)

    def who(self):
        return self.actor_index, self.is_remote, self.is_main, self.num_actors, self.actors is None


@scenario("C39", quick=60, thorough=400, ray="local", needs=["counted", "named", "single_dropped", "no_gpus", "ended"])
def workers(ctx):
    """the number of workers is the declared one"""
    import ray

    d = dict(solution_length=2, initial_bounds=(-1, 1))
    cpus = int(ray.available_resources()["CPU"])
    kind = ctx.choice(["int", "int", "named", "single", "gpus"])
    config = {"max_restarts": 0} if ctx.flip(0.3) else None
    extra = {} if config is None else {"actor_config": config}
    if kind == "gpus":
        for kw in ({"num_actors": "num_gpus"}, {"num_actors": "num_gpus", "num_gpus_per_actor": 1}, {"num_actors": "num_devices", "num_gpus_per_actor": 1}, {"num_actors": "num_devices", "actor_config": {"num_gpus": 1}}):
            ctx.raises(ValueError, lambda: Who("min", **d, **kw), "gpus", str(kw))
        ctx.event("no_gpus")
        return
    if kind == "single":
        n, given = 0, ctx.choice([0, 1, None])
    elif kind == "named":
        n, given = cpus, ctx.choice(["max", "num_cpus", "num_devices"])
    else:
        n = ctx.randint(2, 5)
        given = ctx.choice([n, np.int64(n)])
    p = Who("min", **d, num_actors=given, **extra)
    ctx.check(p.num_actors == n and p.actors is None, "count", f"num_actors={given!r}: {p.num_actors} declared, {p.actors} started")
    for _ in range(ctx.randint(1, 2)):
        b = p.generate_batch(ctx.randint(1, 9))
        p.evaluate(b)
        ctx.close(b.evals[:, 0], to_np(b.values)[:, 0] * 2 + 1, "fitness", "fitnesses")
        if n == 0:
            ctx.check(p.actors is None and p.is_main, "count", f"workers {p.actors} with num_actors={given!r}")
            ctx.event("single_dropped")
            continue
        ctx.check(len(p.actors) == n and p.is_main and not p.is_remote and p.actor_index is None, "count", f"{len(p.actors)} workers with num_actors={given!r}")
        told = p.all_remote_problems().who()
        ctx.check([t[0] for t in told] == list(range(n)), "index", f"worker numbers {[t[0] for t in told]}")
        ctx.check(all(t[1] and not t[2] and t[4] for t in told), "remote", f"{told}")
        ctx.event("named" if kind == "named" else "counted")
        if ctx.flip():
            p.kill_actors()
            ctx.check(p.actors is None and p.num_actors == n, "ended", f"{p.actors} {p.num_actors}")
            ctx.event("ended")
    ctx.check(config is None or config == {"max_restarts": 0}, "config", f"the given configuration became {config}")
    if n:
        p.kill_actors()
    ctx.state(kind, str(given))
