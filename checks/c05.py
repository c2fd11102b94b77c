"""C05: best and worst records are the true extremes of everything evaluated."""

import copy
import pickle

import numpy as np
import torch
from evotorch import Problem, SolutionBatch

from vmon.batchmodel import canon, rand_object
from vmon.compare import to_np
from vmon.engine import rule, scenario

rule("C05", "A case is one problem and a history of evaluations, with modifications of the evaluated populations in between.")
ASSUMPTIONS = ["a NaN result means that the solution has no evaluation result"]


class Fit:
    """deterministic objective: a table from canonical values to results, with ties, infinities and (rarely) NaNs"""

    def __init__(self, ctx, nobj, ndata, dtype):
        self.ctx, self.nobj, self.ndata, self.table, self.dtype = ctx, nobj, ndata, {}, dtype
        self.kind = ctx.choice(["normal", "ties", "huge", "inf", "nan", "monotone", "close"])
        self.t = 0

    def row(self, c):
        if c not in self.table:
            r = self.ctx.np
            if self.kind == "ties":
                v = r.integers(-2, 3, size=self.nobj).astype(float)
            elif self.kind == "huge":
                v = r.normal(size=self.nobj) * 10.0 ** r.integers(-30, 30, size=self.nobj)
            elif self.kind == "monotone":
                self.t += 1
                v = np.full(self.nobj, float(self.t)) * r.choice([-1, 1])
            elif self.kind == "close":  # apart by less than what the next smaller float type resolves
                v = 1.0 + r.integers(-9, 10, size=self.nobj) * (1e-10 if self.dtype == torch.float64 else 3e-7)
            else:
                v = r.normal(size=self.nobj)
            if self.kind == "inf" and r.random() < 0.5:
                v[r.integers(self.nobj)] = r.choice([np.inf, -np.inf])
            if self.kind == "nan" and r.random() < 0.4:
                v[r.integers(self.nobj)] = np.nan
            v = np.concatenate([v, r.normal(size=self.ndata)])
            self.table[c] = to_np(torch.tensor(v).to(self.dtype)).astype(np.float64)
        return self.table[c]


@scenario("C05", quick=500, thorough=12000, needs=["evaluated", "single_objective", "multi_objective", "inf", "nan", "close", "modified_after", "restored", "object_dtype"])
def histories(ctx):
    nobj = ctx.choice([1, 1, 2, 3])
    ndata = ctx.choice([0, 0, 1])
    edt = ctx.choice([torch.float32, torch.float64])
    fit = Fit(ctx, nobj, ndata, edt)
    obj = ctx.flip(0.15)
    vec = ctx.flip() and not obj
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    n = ctx.randint(1, 3)

    class P(Problem):
        def _fill(self, values):
            for i in range(len(values)):
                values[i] = rand_object(ctx) if obj else torch.tensor(ctx.np.normal(size=n), dtype=values.dtype)

        def _evaluate(self, s):
            s.set_evals(torch.tensor(fit.row(canon(s.values)), dtype=edt))

        def _evaluate_batch(self, b):
            if vec:
                b.set_evals(torch.tensor(np.array([fit.row(canon(v)) for v in b.values]), dtype=edt))
            else:
                super()._evaluate_batch(b)

    p = P(senses[0] if nobj == 1 and ctx.flip() else senses, eval_dtype=edt, eval_data_length=ndata, **({"dtype": object} if obj else {"solution_length": n}))
    ctx.event("single_objective" if nobj == 1 else "multi_objective")
    if fit.kind in ("inf", "nan", "close"):
        ctx.event(fit.kind)
    if obj:
        ctx.event("object_dtype")
    ctx.state(nobj, ndata, tuple(senses), fit.kind, obj, vec)
    seen = []  # every result row so far
    evaluated = []
    prev = None
    for t in range(ctx.randint(1, 8)):
        b = p.generate_batch(ctx.randint(1, 7)) if not evaluated or ctx.flip(0.6) else ctx.choice(evaluated)
        target = b
        if ctx.flip(0.3):
            target = b[ctx.randint(0, len(b) - 1)]
        elif ctx.flip(0.3):
            target = b[ctx.randint(0, len(b) - 1) :]
        tb = target if isinstance(target, SolutionBatch) else target.to_batch()
        rows = [fit.row(canon(v)) for v in tb.values]
        p.evaluate(target)
        seen.extend(rows)
        ctx.event("evaluated", len(rows))
        evaluated.append(b)
        # later modification of the evaluated population must not reach the records
        if ctx.flip(0.7):
            ctx.event("modified_after")
            if obj:
                for i in range(len(b)):
                    b[i].set_values(rand_object(ctx))
            else:
                b.access_values()[:] = 12345.0
                b.set_evals(torch.full((len(b), nobj + ndata), 777.0, dtype=edt))
        if ctx.flip(0.15):
            p = ctx.choice([lambda: p.clone(), lambda: copy.deepcopy(p)])() if obj or ctx.flip() else p.clone()
            ctx.event("restored")
            st = None
        st = p.status
        all_rows = np.array(seen)
        for k in range(nobj):
            col = all_rows[:, k]
            known = col[~np.isnan(col)]
            best = st["best"] if nobj == 1 else st["best"][k]
            worst = st["worst"] if nobj == 1 else st["worst"][k]
            for name, s, want_max in (("best", best, senses[k] == "max"), ("worst", worst, senses[k] == "min")):
                if len(known) == 0:
                    continue
                ext = known.max() if want_max else known.min()
                mixed = np.isnan(col).any() and np.isinf(ext)
                if mixed:
                    continue
                ctx.check(s is not None, f"{name}-missing", f"objective {k}")
                got = float(s.evals[k])
                ctx.check(got == ext, f"{name}-value", f"objective {k} ({senses[k]}): recorded {got}, true extreme of {len(known)} results is {ext}")
                src = fit.table.get(canon(s.values))
                ctx.check(src is not None, f"{name}-foreign", f"the recorded solution {s} was never evaluated")
                ctx.same(to_np(s.evals).astype(np.float64), src, f"{name}-mismatch", "recorded evaluations against the evaluations of the recorded decision values")
                ctx.check(list(s.senses) == senses, f"{name}-senses", "")
        if nobj == 1 and not np.isnan(all_rows[:, 0]).any():
            ctx.same(float(st["best_eval"]), float(st["best"].evals[0]), "best-eval", "")
            ctx.same(float(st["worst_eval"]), float(st["worst"].evals[0]), "worst-eval", "")
            b_now = float(st["best_eval"])
            if prev is not None:
                ctx.check(b_now <= prev if senses[0] == "min" else b_now >= prev, "best-deteriorated", f"{prev} -> {b_now}")
            prev = b_now
    ctx.sample(nobj=nobj, senses=senses, kind=fit.kind, evaluations=len(seen))


@scenario("C05", quick=60, thorough=600, needs=["disabled", "independent_problems"])
def configuration(ctx):
    def f(x):
        return torch.sum(x, dim=-1)

    p = Problem("max", f, solution_length=2, initial_bounds=(-1, 1), vectorized=True, store_solution_stats=False)
    b = p.generate_batch(4)
    p.evaluate(b)
    ctx.event("disabled")
    ctx.check("best" not in p.status, "stats-stored", f"status {list(p.status)} although statistics are turned off")
    # two problems do not share their records
    ps = [Problem("max", f, solution_length=2, initial_bounds=(lo, lo + 1), vectorized=True, store_solution_stats=True) for lo in (0, 10)]
    order = ctx.choice([[0, 1], [1, 0], [0, 1, 0, 1]])
    tops = {}
    for i in order:
        b = ps[i].generate_batch(ctx.randint(1, 5))
        ps[i].evaluate(b)
        v = float(b.evals.max())
        tops[i] = max(tops.get(i, v), v)
        for j in tops:
            ctx.same(float(ps[j].status["best_eval"]), tops[j], "shared-records", f"problem {j}")
    ctx.event("independent_problems")
    ctx.state(tuple(order))
    ctx.sample(order=order)
