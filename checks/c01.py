"""C01: each solution gets its own fitness, evaluated exactly once."""

from collections import Counter

import numpy as np
import torch
from evotorch import Problem, Solution, SolutionBatch
from evotorch.decorators import rowwise, vectorized

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import fingerprint

rule("C01", "A case is one problem (kind of objective, objectives, extra columns, data types) and a sequence of evaluations of parts of a population.")
ASSUMPTIONS = ["objective functions are deterministic and return finite numbers"]


def _feat(x):
    """the decision values of one solution as a float64 vector"""
    if isinstance(x, torch.Tensor):
        return to_np(x).astype(np.float64).ravel()
    if isinstance(x, str):
        return np.array([float(len(x)), float(sum(ord(c) for c in x))])
    if isinstance(x, (int, float)):
        return np.array([float(x)])
    return np.array([float(v) for v in x])


class Oracle:
    def __init__(self, ctx, nobj, ndata):
        self.w = ctx.np.normal(size=nobj)
        self.c = ctx.np.normal(size=nobj)
        self.nobj, self.ndata = nobj, ndata
        self.log = []

    def row(self, x):
        f = _feat(x)
        ev = [self.w[k] * f.sum() + self.c[k] + f[0] ** 2 * (k + 1) for k in range(self.nobj)]
        dt = [(j + 1) * (f.max() - f.sum()) for j in range(self.ndata)]
        return ev, dt

    def seen(self, x):
        self.log.append(tuple(_feat(x).tolist()))


def _make(ctx):
    nobj = ctx.choice([1, 1, 2, 3])
    ndata = ctx.choice([0, 0, 1, 2])
    kind = ctx.choice(["fn", "fn", "vfn", "vfn", "deco", "rowwise", "_evaluate", "_evaluate_batch", "object", "object_sub"])
    if kind == "rowwise":
        nobj = 1
        ndata = 0
    dtype = ctx.choice(["float32", "float64", "int64"])
    eval_dtype = "float64" if ctx.flip(0.4) else "float32"
    o = Oracle(ctx, nobj, ndata)
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    senses = senses[0] if nobj == 1 and ctx.flip(0.7) else senses
    ret = ctx.choice(["tuple", "wide", "evals", "float"])
    edt = torch.float64 if eval_dtype == "float64" else torch.float32
    ret_dt = edt if ctx.flip(0.7) else ctx.choice([torch.float32, torch.float64])
    if ret == "tuple" and ret_dt != edt and ndata and ctx.flip():
        ret_dt = edt

    def pack_row(ev, dt):
        e = torch.tensor(ev, dtype=ret_dt)
        if ret == "tuple" and ndata:
            return (e if nobj > 1 or ctx_flip else e[0]), torch.tensor(dt, dtype=ret_dt)
        if ret == "wide":
            return torch.tensor(list(ev) + list(dt), dtype=ret_dt)
        if ret == "float" and nobj == 1:
            return float(ev[0])
        return e if nobj > 1 or ctx_flip else e[0]

    ctx_flip = ctx.flip()

    def one(x):
        o.seen(x)
        return pack_row(*o.row(x))

    def many(xs):
        rows = []
        for x in xs:
            o.seen(x)
            rows.append(o.row(x))
        e = torch.tensor(np.array([r[0] for r in rows]).reshape(len(rows), nobj), dtype=ret_dt)
        d = torch.tensor(np.array([r[1] for r in rows]).reshape(len(rows), ndata), dtype=ret_dt)
        if ret == "tuple" and ndata:
            return (e[:, 0] if nobj == 1 and ctx_flip else e), d
        if ret == "wide":
            return torch.hstack([e, d])
        return e[:, 0] if nobj == 1 and ctx_flip else e

    has_data = (ret == "tuple" or ret == "wide") and ndata > 0
    kw = dict(eval_dtype=eval_dtype, eval_data_length=ndata) if ndata or ctx.flip() else dict(eval_dtype=eval_dtype)
    n = ctx.randint(1, 5)
    if kind in ("object", "object_sub"):
        kw.update(dtype=object)
    else:
        kw.update(dtype=dtype, solution_length=n, initial_bounds=(-10, 10))

    class Fill(Problem):
        def _fill(self, values):
            if self.dtype is object:
                for i in range(len(values)):
                    values[i] = _obj(ctx)
            else:
                super()._fill(values)

    class Sub(Fill):
        def _evaluate(self, solution):
            r = one(solution.values)
            if isinstance(r, tuple):
                solution.set_evals(*r)
            else:
                solution.set_evals(r)

    class SubB(Fill):
        def _evaluate_batch(self, batch):
            if ctx_flip:
                r = many(batch.values)
            else:
                r = many(batch.access_values(keep_evals=True))
            if isinstance(r, tuple):
                batch.set_evals(*r)
            else:
                batch.set_evals(r)

    if kind in ("fn", "object"):
        p = Fill(senses, one, **kw)
    elif kind == "vfn":
        p = Fill(senses, many, vectorized=True, **kw)
    elif kind == "deco":
        p = Fill(senses, vectorized(many), **kw)
    elif kind == "rowwise":
        # traced row by row, so the values cannot be logged from inside
        w, c = float(o.w[0]), float(o.c[0])

        @rowwise
        def rw(x):
            x = x.to(torch.float64)
            return w * torch.sum(x) + c + x[0] ** 2

        p = Fill(senses, rw, **kw)
    elif kind in ("_evaluate", "object_sub"):
        p = Sub(senses, **kw)
    else:
        p = SubB(senses, **kw)
    exact = eval_dtype == "float64" and (kind == "rowwise" or ret_dt == torch.float64)
    return p, o, kind, has_data, nobj, ndata, n, exact


def _obj(ctx):
    return ctx.choice([lambda: [ctx.uniform(-5, 5) for _ in range(ctx.randint(1, 4))], lambda: "s" * ctx.randint(1, 30), lambda: (ctx.uniform(-9, 9),), lambda: ctx.uniform(-9, 9)])()


def _rows(b):
    return [b.values[i] for i in range(len(b))]


@scenario("C01", quick=900, thorough=25000, needs=["evaluate_full", "evaluate_slice", "evaluate_pick", "evaluate_piece", "evaluate_solution", "extra_columns", "object_dtype", "multi_objective", "reevaluation", "duplicates", "double_precision"])
def evaluations(ctx):
    p, o, kind, has_data, nobj, ndata, n, exact = _make(ctx)
    popsize = ctx.choice([1, 2, 3, 5, 8, 13])
    pop = p.generate_batch(popsize)
    if ctx.flip(0.4) and popsize > 2 and p.dtype is not object:
        v = pop.values.clone()
        v[popsize // 2] = v[0]
        pop.set_values(v)
        ctx.event("duplicates")
    if p.dtype is object:
        ctx.event("object_dtype")
    if nobj > 1:
        ctx.event("multi_objective")
    if ndata:
        ctx.event("extra_columns")
    before_calls, after_calls = [], []
    p.before_eval_hook.append(lambda b: before_calls.append(len(b)))
    p.after_eval_hook.append(lambda b: after_calls.append(len(b)))
    tol = 1e-4 if p.eval_dtype == torch.float32 else 1e-12 if exact else 1e-6
    if exact:
        ctx.event("double_precision")
    model = np.full((popsize, nobj + ndata), np.nan)
    expected_vals = [_feat(x).copy() for x in _rows(pop)]

    for _ in range(ctx.randint(1, 6)):
        how = ctx.choice(["full", "slice", "pick", "piece", "solution", "mask", "nested", "modify"])
        idx = np.arange(popsize)
        shares = True
        if how == "full":
            target = pop
            ctx.event("evaluate_full")
        elif how == "slice":
            a = ctx.randint(0, popsize - 1)
            b = ctx.randint(a + 1, popsize)
            s = ctx.choice([1, 1, 2, 3])
            target, idx = pop[a:b:s], idx[a:b:s]
            ctx.event("evaluate_slice")
        elif how == "pick":
            idx = ctx.np.integers(0, popsize, size=ctx.randint(1, popsize))
            target = pop.take(ctx.choice([lambda: idx.tolist(), lambda: torch.as_tensor(idx), lambda: np.array(idx)])()) if ctx.flip() else pop[idx.tolist()]
            shares = False
            ctx.event("evaluate_pick")
        elif how == "mask":
            m = ctx.np.integers(0, 2, size=popsize).astype(bool)
            if not m.any():
                continue
            idx = np.nonzero(m)[0]
            target = pop[torch.as_tensor(m)]
            shares = False
            ctx.event("evaluate_pick")
        elif how == "piece":
            pieces = pop.split(ctx.randint(1, popsize)) if ctx.flip() else pop.split(max_size=ctx.randint(1, popsize))
            i = ctx.randint(0, len(pieces) - 1)
            a, b = pieces.indices_of(i)
            target, idx = pieces[i], idx[a:b]
            if len(target) == 0:
                continue
            ctx.event("evaluate_piece")
        elif how == "nested":
            a = ctx.randint(0, popsize - 1)
            sub = pop[a:]
            target, idx = sub[: max(1, len(sub) // 2)], idx[a:][: max(1, len(sub) // 2)]
            ctx.event("evaluate_slice")
        elif how == "modify":
            i = ctx.randint(0, popsize - 1)
            new = _obj(ctx) if p.dtype is object else torch.as_tensor(ctx.np.integers(-9, 9, size=n)).to(p.dtype)
            pop[i].set_values(new)
            expected_vals[i] = _feat(new)
            model[i] = np.nan
            continue
        else:
            i = ctx.randint(-popsize, popsize - 1)
            target, idx = pop[i], idx[[i]]
            ctx.event("evaluate_solution")
        if np.any(~np.isnan(model[idx])):
            ctx.event("reevaluation")
        other = [i for i in range(popsize) if i not in set(idx.tolist())] if shares else list(range(popsize))
        keep = fingerprint(pop.evals[other]) if other else None
        del o.log[:]
        del before_calls[:], after_calls[:]
        ctx.note("evaluate", how, idx.tolist())
        p.evaluate(target)
        ctx.event("solutions_evaluated", len(idx))
        # every addressed solution evaluated exactly once, from its own values
        want = Counter(tuple(expected_vals[i].tolist()) for i in idx)
        if kind != "rowwise":
            ctx.check(Counter(o.log) == want, f"calls:{kind}", f"the objective saw {len(o.log)} solutions {o.log[:6]}; the batch has {len(idx)}: {list(want)[:6]}")
        ctx.check(before_calls == [len(idx)] and after_calls == [len(idx)], "eval-hooks", f"hook calls {before_calls} {after_calls} for one evaluation of {len(idx)} solutions")
        rows = []
        for i in idx:
            ev, dt = o.row(torch.as_tensor(expected_vals[i])) if p.dtype is not object else o.row(pop.values[int(i)])
            rows.append(list(ev) + (list(dt) if has_data else [np.nan] * ndata))
        rows = np.array(rows)
        tb = target.to_batch() if isinstance(target, Solution) else target
        scale = max(1.0, np.nanmax(np.abs(rows)))
        ctx.close(tb.evals, rows, f"stored:{kind}", f"results of {how} {idx.tolist()}", rtol=tol, atol=tol * scale)
        if shares:
            model[idx] = rows
        if keep is not None:
            ctx.check(fingerprint(pop.evals[other]) == keep, f"other-rows:{kind}", f"evaluating {how} {idx.tolist()} changed the results of other solutions")
        ctx.close(pop.evals, model, f"population:{kind}", f"population after {how}", rtol=tol, atol=tol * max(1.0, np.nanmax(np.abs(np.nan_to_num(model)))))
        for i in range(popsize):
            got = _feat(pop.values[i])
            ctx.check(np.array_equal(got, expected_vals[i]), "values-changed", f"evaluation changed solution {i}: {got} from {expected_vals[i]}")
        for j in range(len(tb)):
            s = tb[j]
            ctx.check(s.is_evaluated, "not-evaluated", f"solution {j} after evaluation")
            if nobj + ndata == 1:
                ctx.check(s.evaluation.ndim == 0, "evaluation-shape", repr(s.evaluation))
    ctx.state(kind, nobj, ndata, has_data, str(p.dtype), str(p.eval_dtype), popsize)
    ctx.sample(kind=kind, nobj=nobj, ndata=ndata, popsize=popsize)


@scenario("C01", quick=300, thorough=6000, needs=["rejected", "addressed_rows"])
def direct_results(ctx):
    """results stored with set_evals go into the addressed rows; ill-shaped results are refused"""
    nobj, ndata = ctx.choice([1, 2, 3]), ctx.choice([0, 1, 2])
    popsize = ctx.randint(2, 9)
    p = Problem(["min", "max", "min"][:nobj], lambda x: x, solution_length=2, initial_bounds=(-1, 1), eval_data_length=ndata)
    b = p.generate_batch(popsize)
    base = ctx.np.normal(size=(popsize, nobj + ndata)).astype(np.float32)
    b.set_evals(torch.tensor(base))
    ctx.same(b.evals, base, "set-wide", "all rows")
    for _ in range(4):
        idx = np.arange(popsize)
        sel = ctx.choice(["all", "slice", "list", "tensor"])
        if sel == "slice":
            s = slice(ctx.randint(-popsize, popsize - 1), ctx.choice([None, None, popsize, -1, popsize + 3]), ctx.choice([None, 1, 2]))
            if len(idx[s]) == 0:
                continue
            idx = idx[s]
        elif sel in ("list", "tensor"):
            idx = ctx.np.permutation(popsize)[: ctx.randint(1, popsize)]
            s = idx.tolist() if sel == "list" else torch.as_tensor(idx)
        else:
            s = None
        ev = ctx.np.normal(size=(len(idx), nobj)).astype(np.float32)
        dt = ctx.np.normal(size=(len(idx), ndata)).astype(np.float32)
        form = ctx.choice(["evals", "both", "wide"])
        e = torch.tensor(ev)
        if nobj == 1 and form != "wide" and ctx.flip():
            e = e[:, 0]
        kw = {} if s is None else {"solutions": s}
        if form == "evals":
            b.set_evals(e, **kw)
            base[idx] = np.hstack([ev, np.full_like(dt, np.nan)])
        elif form == "both":
            b.set_evals(e, torch.tensor(dt), **kw)
            base[idx] = np.hstack([ev, dt])
        else:
            b.set_evals(torch.tensor(np.hstack([ev, dt])), **kw)
            base[idx] = np.hstack([ev, dt])
        ctx.event("addressed_rows")
        ctx.state(nobj, ndata, sel, form)
        ctx.same(b.evals, base, f"set-evals:{sel}:{form}", f"rows {idx.tolist()}")
        # through a single solution
        i = ctx.randint(0, popsize - 1)
        row = ctx.np.normal(size=nobj + ndata).astype(np.float32)
        s1 = b[i]
        if ctx.flip() and ndata:
            s1.set_evals(torch.tensor(row[:nobj]), torch.tensor(row[nobj:]))
        elif ctx.flip() or ndata:
            s1.set_evals(torch.tensor(row))
        else:
            s1.set_evaluation(row.tolist() if nobj > 1 else float(row[0]))
        base[i] = row
        ctx.same(b.evals, base, "set-solution-evals", f"solution {i}")
    bad = [
        lambda: b.set_evals(torch.zeros(popsize + 1, nobj)),
        lambda: b.set_evals(torch.zeros(popsize - 1, nobj)),
        lambda: b.set_evals(torch.zeros(popsize, nobj + ndata + 1)),
        lambda: b.set_evals(torch.zeros(popsize, nobj, 1)),
        lambda: b.set_evals(torch.zeros(popsize, nobj), torch.zeros(popsize, ndata + 1)),
        lambda: b.set_evals(torch.zeros(1, nobj), solutions=[0, 1]),
    ]
    if nobj > 1:
        bad.append(lambda: b.set_evals(torch.zeros(popsize)))
    keep = fingerprint(b.evals)
    for f in bad:
        ctx.raises(ValueError, f, "ill-shaped-accepted", "set_evals")
        ctx.event("rejected")
        ctx.check(fingerprint(b.evals) == keep, "ill-shaped-stored", "refused results changed the population")
    q = Problem("min", lambda x: torch.zeros(len(x) + 1), solution_length=2, initial_bounds=(-1, 1), vectorized=True)
    ctx.raises(ValueError, lambda: q.evaluate(q.generate_batch(popsize)), "ill-shaped-accepted", "an objective returning too many results")
    ctx.raises(TypeError, lambda: q.evaluate(torch.zeros(3, 2)), "non-batch-accepted", "")
    ctx.sample(nobj=nobj, ndata=ndata, popsize=popsize)


@scenario("C01", quick=250, thorough=5000, needs=["callable"])
def callable_evaluators(ctx):
    nobj = ctx.choice([1, 2])
    k = ctx.randint(0, nobj - 1) if nobj > 1 or ctx.flip() else None
    n = ctx.randint(1, 4)
    calls = []
    vec = ctx.flip()

    def f1(x):
        s = torch.stack([torch.sum(x * (j + 1), dim=-1) + torch.sum(x, dim=-1) ** 2 for j in range(nobj)], dim=-1)
        calls.append(1 if x.ndim == 1 else len(x))
        return s if nobj > 1 else s[..., 0]

    p = Problem(["max", "min"][:nobj], f1, solution_length=n, initial_bounds=(-1, 1), vectorized=vec, dtype="float64", eval_dtype="float64")
    g = p.make_callable_evaluator(obj_index=k)
    shape = ctx.choice([(), (3,), (2, 3), (1,), (2, 1, 2)])
    x = torch.tensor(ctx.np.normal(size=shape + (n,)))
    if ctx.flip(0.3) and len(shape) > 1:
        x = x.transpose(0, 1)
        shape = tuple(x.shape[:-1])
    keep = fingerprint(x)
    y = g(x)
    ctx.event("callable")
    a = to_np(x)
    j = k or 0
    exp = a.sum(axis=-1) * (j + 1) + a.sum(axis=-1) ** 2
    ctx.check(type(y) is torch.Tensor and tuple(y.shape) == shape, "callable-shape", f"{type(y)} {tuple(y.shape)}, expected {shape}")
    ctx.close(y, exp, "callable-value", f"objective {k}", rtol=1e-9)
    ctx.check(fingerprint(x) == keep, "callable-modifies-input", "")
    ctx.check(sum(calls) == int(np.prod(shape)), "callable-count", f"{sum(calls)} evaluations for {shape}")
    # a result stays as it is while the evaluator is used again
    kept = fingerprint(y)
    z = g(x + 1.5)
    ctx.close(z, (a + 1.5).sum(axis=-1) * (j + 1) + (a + 1.5).sum(axis=-1) ** 2, "callable-value", f"objective {k}, second call", rtol=1e-9)
    ctx.check(fingerprint(y) == kept, "callable-result-changed", "the second call changed the result of the first")
    ctx.raises(Exception, lambda: g(torch.tensor(1.0, dtype=torch.float64)), "callable-scalar-accepted", "")
    ctx.state(nobj, k, shape, vec)
    ctx.sample(shape=shape, nobj=nobj)
