"""A plain-Python model of populations: shared row stores, and batches as lists of row numbers in a store."""

import copy
import pickle

import numpy as np
import torch
from evotorch import Problem, SolutionBatch

from .compare import to_np
from .guards import fingerprint


def canon(x):
    """decision values of one solution as a hashable plain object"""
    if isinstance(x, torch.Tensor):
        return tuple(to_np(x).astype(np.float64).ravel().tolist())
    if isinstance(x, (str, bytes, int, float, bool)) or x is None:
        return x
    if hasattr(x, "keys"):
        return ("dict",) + tuple(sorted((repr(k), canon(x[k])) for k in x.keys()))
    if isinstance(x, (set, frozenset)) or type(x).__name__ == "ImmutableSet":
        return ("set",) + tuple(sorted(repr(i) for i in x))
    return ("seq",) + tuple(canon(i) for i in x)


def rand_object(ctx):
    return ctx.choice(
        [
            lambda: [ctx.randint(-9, 9) for _ in range(ctx.randint(0, 4))],
            lambda: "s" * ctx.randint(0, 9),
            lambda: {"a": ctx.randint(0, 9), "b": [ctx.randint(0, 9), {"c": 1.5}]},
            lambda: ctx.uniform(-9, 9),
            lambda: {ctx.randint(0, 9), ctx.randint(0, 9)},
            lambda: None,
        ]
    )()


class Store:
    def __init__(self, vals, evals):
        self.vals = list(vals)
        self.evals = np.array(evals, dtype=np.float64)


class Handle:
    def __init__(self, real, store, idx, what):
        self.real, self.store, self.idx, self.what = real, store, np.asarray(idx, dtype=np.int64), what


class World:
    """one problem, live batches, and a model of each"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.nobj = ctx.choice([1, 1, 2, 3])
        self.ndata = ctx.choice([0, 0, 1, 2])
        self.obj = ctx.flip(0.25)
        self.n = ctx.randint(1, 4)
        self.eval_dtype = ctx.choice([torch.float32, torch.float64])
        self.dtype = object if self.obj else ctx.choice([torch.float32, torch.float64, torch.int64])
        w = self

        class P(Problem):
            def _fill(self, values):
                for i in range(len(values)):
                    values[i] = w.new_value()

            def _evaluate(self, solution):
                solution.set_evals(torch.tensor(w.fitness(canon(solution.values)), dtype=w.eval_dtype))

        kw = {} if self.obj else {"solution_length": self.n}
        senses = [ctx.choice(["min", "max"]) for _ in range(self.nobj)]
        self.problem = P(senses if self.nobj > 1 or ctx.flip() else senses[0], dtype=self.dtype, eval_dtype=self.eval_dtype, eval_data_length=self.ndata, **kw)
        self.handles = []

    def new_value(self):
        if self.obj:
            return rand_object(self.ctx)
        v = torch.tensor(self.ctx.np.integers(-50, 50, size=self.n), dtype=torch.float64)
        if self.dtype != torch.int64:
            v = v + 0.25
        return v.to(self.dtype)

    def fitness(self, c):
        """a number that depends on the whole content of the solution"""
        h = fingerprint(c)
        s = sum(ord(ch) * (i % 13 + 1) for i, ch in enumerate(repr(h))) % 1000
        return [float(s + 1000 * k) for k in range(self.nobj + self.ndata)]

    def fresh(self, n=None):
        n = self.ctx.randint(1, 9) if n is None else n
        b = self.problem.generate_batch(n)
        vals = [canon(b.values[i]) for i in range(n)]
        self.handles.append(Handle(b, Store(vals, np.full((n, self.nobj + self.ndata), np.nan)), np.arange(n), "fresh"))
        if len(self.handles) > 6:
            self.handles.pop(self.ctx.randint(0, len(self.handles) - 1))
        return self.handles[-1]

    def pick(self):
        return self.ctx.choice(self.handles)

    def independent(self, real, h_rows, what):
        """h_rows: list of (canonical value, evaluation row)"""
        st = Store([v for v, _ in h_rows], [e for _, e in h_rows] or np.zeros((0, self.nobj + self.ndata)))
        self.handles.append(Handle(real, st, np.arange(len(h_rows)), what))
        if len(self.handles) > 8:
            self.handles.pop(0)
        return self.handles[-1]

    def view(self, real, h, rel, what):
        self.handles.append(Handle(real, h.store, h.idx[rel], what))
        if len(self.handles) > 8:
            self.handles.pop(0)
        return self.handles[-1]

    def rows(self, h, rel=None):
        idx = h.idx if rel is None else h.idx[rel]
        return [(h.store.vals[i], h.store.evals[i].copy()) for i in idx]

    # selections of rows within a batch -------------------------------------------------

    def selection(self, n):
        """-> (selector object, relative row numbers, kind)"""
        ctx = self.ctx
        k = ctx.choice(["slice", "list", "tensor", "mask", "numpy"])
        if k == "slice":
            a, b, s = ctx.choice([None, ctx.randint(-n, n)]), ctx.choice([None, ctx.randint(-n, n)]), ctx.choice([None, 1, 2, 3])
            sl = slice(a, b, s)
            return sl, np.arange(n)[sl], k
        if k == "mask":
            m = ctx.np.integers(0, 2, size=n).astype(bool)
            return torch.as_tensor(m), np.nonzero(m)[0], k
        idx = ctx.np.permutation(n)[: ctx.randint(0 if k == "tensor" else 1, n)]
        return {"list": lambda: [int(i) for i in idx], "tensor": lambda: torch.as_tensor(idx, dtype=torch.int64), "numpy": lambda: np.array(idx)}[k](), idx, k

    def picks(self, n):
        """like selection, but with repeated and negative row numbers and never a slice"""
        ctx = self.ctx
        k = ctx.choice(["list", "tensor", "mask", "numpy"])
        if k == "mask":
            m = ctx.np.integers(0, 2, size=n).astype(bool)
            return torch.as_tensor(m), np.nonzero(m)[0], k
        idx = ctx.np.integers(-n, n, size=ctx.randint(1, n + 2))
        return {"list": lambda: [int(i) for i in idx], "tensor": lambda: torch.as_tensor(idx), "numpy": lambda: np.array(idx)}[k](), idx, k

    # operations ---------------------------------------------------------------------

    def op_evaluate(self):
        h = self.pick()
        if len(h.idx) == 0:
            return
        self.problem.evaluate(h.real)
        for i in h.idx:
            h.store.evals[i] = self.fitness(h.store.vals[i])
        return "evaluate"

    def _new_rows(self, k):
        vals = [self.new_value() for _ in range(k)]
        if self.obj:
            return vals, [canon(v) for v in vals]
        t = torch.stack(vals) if k else torch.zeros((0, self.n), dtype=self.dtype)
        return t, [canon(v) for v in vals]

    def op_set_values(self):
        h = self.pick()
        n = len(h.idx)
        if n == 0:
            return
        if self.ctx.flip(0.4):
            new, cs = self._new_rows(n)
            h.real.set_values(new)
            rel = np.arange(n)
            k = "all"
        else:
            sel, rel, k = self.selection(n)
            if self.obj and (k != "slice" or len(rel) == 0):
                return
            new, cs = self._new_rows(len(rel))
            h.real.set_values(new, solutions=sel)
        for j, r in enumerate(rel):
            h.store.vals[h.idx[r]] = cs[j]
            h.store.evals[h.idx[r]] = np.nan
        return f"set_values:{k}"

    def op_solution_set_values(self):
        h = self.pick()
        n = len(h.idx)
        if n == 0:
            return
        i = self.ctx.randint(-n, n - 1)
        v = self.new_value()
        arg = v if self.obj else self.ctx.choice([v, v.tolist(), to_np(v)])
        if self.ctx.flip(0.3):
            for j, s in enumerate(h.real):
                if j == i % n:
                    s.set_values(arg)
        else:
            h.real[i].set_values(arg)
        h.store.vals[h.idx[i]] = canon(v)
        h.store.evals[h.idx[i]] = np.nan
        return "solution_set_values"

    def op_access_values(self):
        h = self.pick()
        n = len(h.idx)
        if n == 0:
            return
        if self.ctx.flip(0.5):
            i = self.ctx.randint(0, n - 1)
            s = h.real[i]
            if self.obj:
                s.to_batch().access_values()
            else:
                t = s.access_values()
                v = self.new_value()
                t[:] = v
                h.store.vals[h.idx[i]] = canon(v)
            h.store.evals[h.idx[i]] = np.nan
            return "access_values:solution"
        t = h.real.access_values()
        h.store.evals[h.idx] = np.nan
        if self.ctx.flip(0.7):
            i = self.ctx.randint(0, n - 1)
            v = self.new_value()
            t[i] = v
            h.store.vals[h.idx[i]] = canon(v)
        return "access_values"

    def op_peek(self):
        """reading never alters anything"""
        h = self.pick()
        n = len(h.idx)
        ctx = self.ctx
        r = h.real
        r.access_values(keep_evals=True)
        r.access_evals()
        r.access_evals(ctx.randint(-self.nobj, self.nobj - 1))
        repr(r), str(r), len(r), r.values, r.evals, r.dtype, r.eval_dtype, r.values_shape, r.eval_shape, r.device, r.senses, r.objective_sense, r.solution_length, r.values_dtype
        if n:
            s = r[ctx.randint(0, n - 1)]
            repr(s), s.values, s.evals, s.evaluation, s.is_evaluated, s.dtype, s.shape, s.ndim, s.senses, s.to_batch(), s.access_evals(), s.access_values(keep_evals=True)
            for k in range(self.nobj):
                r.argbest(k), r.argworst(k), r.argsort(k)
                r.utility(k, check_nans=False)
            if not np.isnan(h.store.evals[h.idx][:, : self.nobj]).any():
                r.utils()
                r.take_best(1, obj_index=0)
                r.arg_pareto_sort()
        return "peek"

    def op_set_evals(self):
        h = self.pick()
        n = len(h.idx)
        if n == 0:
            return
        ev = self.ctx.np.integers(-99, 99, size=(n, self.nobj + self.ndata)).astype(np.float64)
        sel = None
        rel = np.arange(n)
        if self.ctx.flip(0.5):
            sel, rel, k = self.selection(n)
            if k in ("mask", "numpy"):
                return
            ev = ev[: len(rel)]
        h.real.set_evals(torch.tensor(ev, dtype=self.eval_dtype), **({} if sel is None else {"solutions": sel}))
        h.store.evals[h.idx[rel]] = ev
        return "set_evals"

    def op_forget(self):
        h = self.pick()
        n = len(h.idx)
        if n == 0:
            return
        if self.ctx.flip(0.4):
            h.real.forget_evals()
            rel = np.arange(n)
        else:
            sel, rel, _ = self.selection(n)
            h.real.forget_evals(solutions=sel)
        h.store.evals[h.idx[rel]] = np.nan
        return "forget_evals"

    def op_slice(self):
        h = self.pick()
        n = len(h.idx)
        ctx = self.ctx
        if ctx.flip(0.1):
            self.view(h.real[...], h, slice(None), "ellipsis")
            return "slice"
        sl = slice(ctx.choice([None, ctx.randint(-n - 1, n + 1)]), ctx.choice([None, ctx.randint(-n - 1, n + 1)]), ctx.choice([None, 1, 2, 3]))
        self.view(h.real[sl], h, sl, f"slice {sl}")
        return "slice"

    def op_pick(self):
        h = self.pick()
        n = len(h.idx)
        if n == 0:
            return
        sel, rel, k = self.picks(n)
        real = h.real.take(sel) if self.ctx.flip() else h.real[sel]
        self.independent(real, self.rows(h, rel), f"pick:{k}")
        return f"pick:{k}"

    def op_solution_view(self):
        h = self.pick()
        n = len(h.idx)
        if n == 0:
            return
        i = self.ctx.randint(-n, n - 1)
        s = h.real[i]
        if self.ctx.flip(0.4):
            c = s.clone() if self.ctx.flip() else copy.deepcopy(s)
            self.independent(c.to_batch(), self.rows(h, [i]), "solution clone")
            return "solution_clone"
        j = i % n
        self.view(s.to_batch(), h, slice(j, j + 1), "solution")
        return "solution_view"

    def op_join(self):
        hs = [self.pick() for _ in range(self.ctx.randint(1, 3))]
        rows = sum([self.rows(h) for h in hs], [])
        how = self.ctx.choice(["cat", "concat", "concat_list", "merging_of"])
        reals = [h.real for h in hs]
        if how == "cat":
            real = SolutionBatch.cat(iter(reals) if self.ctx.flip() else reals)
        elif how == "concat" and len(hs) == 2:
            real = reals[0].concat(reals[1])
        elif how == "concat_list":
            real = reals[0].concat(reals[1:])
        else:
            real = SolutionBatch(merging_of=reals)
        self.independent(real, rows, "join")
        return "join"

    def op_copy(self):
        h = self.pick()
        how = self.ctx.choice(["clone", "deepcopy", "pickle", "copy"])
        if how == "clone":
            r = h.real.clone()
        elif how == "deepcopy":
            r = copy.deepcopy(h.real)
        elif how == "copy":
            return
        else:
            r = pickle.loads(pickle.dumps(h.real))
        self.independent(r, self.rows(h), how)
        return f"copy:{how}"

    def op_split(self):
        h = self.pick()
        n = len(h.idx)
        ctx = self.ctx
        if n == 0:
            return
        if ctx.flip():
            k = ctx.randint(1, n + 2)
            pieces = h.real.split(k) if ctx.flip() else h.real.split(num_pieces=k)
            ctx.check(len(pieces) == k, "split-count", f"{len(pieces)} pieces, requested {k}")
            sizes = [len(p) for p in pieces]
            ctx.check(max(sizes) - min(sizes) <= 1, "split-balance", f"{sizes}")
        else:
            k = ctx.randint(1, n + 2)
            pieces = h.real.split(max_size=k)
            sizes = [len(p) for p in pieces]
            ctx.check(max(sizes) <= k, "split-max-size", f"{sizes}, maximum {k}")
            ctx.check(min(sizes) >= 1 and len(pieces) == -(-n // k), "split-count", f"{sizes} for {n} rows of at most {k}")
        ctx.check(sum(sizes) == n, "split-cover", f"{sizes} for {n} rows")
        ctx.check(pieces.batch is h.real, "split-batch", "")
        at = 0
        it = list(pieces.iter_with_indices())
        for i in range(len(pieces)):
            ctx.check(tuple(pieces.indices_of(i)) == (at, at + sizes[i]), "split-interval", f"piece {i}: {pieces.indices_of(i)}, expected {(at, at + sizes[i])}")
            ctx.check(tuple(it[i][1]) == (at, at + sizes[i]) and it[i][0] is pieces[i], "split-iter", f"piece {i}")
            at += sizes[i]
        j = ctx.randint(0, len(pieces) - 1)
        a, b = pieces.indices_of(j)
        self.view(pieces[j], h, slice(a, b), f"piece {j} of {sizes}")
        return "split"

    OPS = ["evaluate", "set_values", "solution_set_values", "access_values", "peek", "set_evals", "forget", "slice", "pick", "solution_view", "join", "copy", "split"]

    def step(self, weights):
        name = self.ctx.rng.choices(self.OPS, [weights.get(o, 1) for o in self.OPS])[0]
        r = getattr(self, "op_" + name)()
        if r is not None:
            self.ctx.event(r)
            self.ctx.note(r)
        return r

    # monitors -----------------------------------------------------------------------

    def check_lengths_and_values(self, op):
        ctx = self.ctx
        for h in self.handles:
            ctx.check(len(h.real) == len(h.idx), "length", f"after {op}: {h.what} has {len(h.real)} rows, expected {len(h.idx)}")
            v = h.real.values
            got = [canon(v[i]) for i in range(len(v))]
            exp = [h.store.vals[i] for i in h.idx]
            ctx.check(got == exp, f"values:{(op or '').split(':')[0]}", lambda: f"after {op}: {h.what} holds {got}, expected {exp}")

    def check_evals(self, op):
        ctx = self.ctx
        for h in self.handles:
            exp = h.store.evals[h.idx]
            got = to_np(h.real.evals).astype(np.float64)
            ctx.check(got.shape == exp.shape, "eval-shape", f"{got.shape} {exp.shape}")
            ok = (np.isnan(got) & np.isnan(exp)) | (got == exp)
            if not ok.all():
                stale = ~np.isnan(got) & np.isnan(exp)
                kind = "stale" if stale.any() else ("lost" if (np.isnan(got) & ~np.isnan(exp)).any() else "wrong")
                ctx.fail(f"evals-{kind}:{(op or '').split(':')[0]}", f"after {op}: {h.what} reports {got.tolist()}, expected {exp.tolist()}")

    def check_evaluated_flags(self, op):
        ctx = self.ctx
        for h in self.handles:
            for j, i in enumerate(h.idx):
                exp = not np.isnan(h.store.evals[i][: self.nobj]).any()
                ctx.check(h.real[j].is_evaluated == exp, "is-evaluated", f"after {op}: row {j} of {h.what}: evaluations {h.store.evals[i]}")
