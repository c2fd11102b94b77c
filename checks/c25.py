"""C25: generated values have the requested shape, type and range."""

import numpy as np
import torch
from evotorch import Problem, SolutionBatch
from evotorch import tools as T
from evotorch.tools import ObjectArray

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import fingerprint

rule("C25", "A case is one request to a tensor-making function or one initial population with particular bounds and data type.")
ASSUMPTIONS = ["floating-point samples may touch a bound and differ from it by one rounding step"]

FLOATS = ["float32", "float64", torch.float32, torch.float64, "float16"]
INTS = ["int64", "int32", "int16", "int8", "uint8", torch.int64, torch.int32]
TD = {"float32": torch.float32, "float64": torch.float64, "float16": torch.float16, "int64": torch.int64, "int32": torch.int32, "int16": torch.int16, "int8": torch.int8, "uint8": torch.uint8, "bool": torch.bool}


def _td(d):
    return d if isinstance(d, torch.dtype) else TD[d]


def _size(ctx):
    """-> (positional size arguments, shape)"""
    shape = ctx.choice([(5,), (3, 4), (1,), (2, 3, 2), (0,), (7, 1), (4, 2, 2), (6, 1, 3)])
    if ctx.flip(0.5):
        return shape, shape
    return (shape,), shape


def _in_bounds(ctx, t, lo, hi, key, what):
    a = to_np(t).astype(np.float64)
    eps = {torch.float32: 2e-7, torch.float64: 1e-15, torch.float16: 2e-3}.get(t.dtype, 0.0)
    lo, hi = np.broadcast_to(lo, a.shape), np.broadcast_to(hi, a.shape)
    tol = eps * np.maximum(np.abs(lo), np.abs(hi))
    bad = (a < lo - tol) | (a > hi + tol) | ~np.isfinite(a)
    ctx.check(not np.any(bad), key, lambda: f"{what}: value {a[bad][:3]} outside [{lo[bad][:3]}, {hi[bad][:3]}]")


class _Maker:
    """either the functions of evotorch.tools or the methods of a problem"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = None
        if ctx.flip(0.4):
            self.pd = ctx.choice(["float32", "float64", "int64"])
            self.n = ctx.randint(1, 4)
            self.p = Problem("min", lambda x: torch.sum(x, dim=-1), solution_length=self.n, initial_bounds=(-3, 3), dtype=self.pd, eval_dtype=ctx.choice(["float32", "float64"]), seed=ctx.randint(0, 99), vectorized=True)

    def fn(self, name):
        return getattr(self.p if self.p is not None else T, name)

    def request(self, allowed, default):
        """-> (args, kwargs, shape, dtype)"""
        ctx = self.ctx
        kw = {}
        args, shape = _size(ctx)
        if self.p is not None and ctx.flip(0.4):
            k = ctx.randint(0, 5)
            args, shape = (), (k, self.n)
            kw["num_solutions"] = k
        dt = None
        if self.p is not None and ctx.flip(0.3):
            kw["use_eval_dtype"] = True
            dt = self.p.eval_dtype
        elif ctx.flip(0.7) or (self.p is not None and self.p.dtype not in [_td(d) for d in allowed]) or default is None:
            kw["dtype"] = ctx.choice(allowed)
            dt = _td(kw["dtype"])
        else:
            dt = default if self.p is None else self.p.dtype
        if ctx.flip(0.3):
            kw["device"] = ctx.choice(["cpu", torch.device("cpu")])
        return args, kw, shape, dt


@scenario("C25", quick=1600, thorough=30000, needs=["make_zeros", "make_ones", "make_nan", "make_I", "make_empty", "out_given", "conflict_rejected"])
def constant_tensors(ctx):
    m = _Maker(ctx)
    name = ctx.choice(["make_zeros", "make_ones", "make_nan", "make_I", "make_empty", "make_tensor"])
    ctx.event(name)
    allowed = FLOATS if name == "make_nan" else FLOATS + INTS + (["bool"] if name in ("make_zeros", "make_ones", "make_empty") else [])
    if name == "make_tensor":
        data = ctx.np.integers(-5, 5, size=ctx.choice([(3,), (2, 2)])).tolist()
        kw = {}
        if ctx.flip(0.8):
            kw["dtype"] = ctx.choice(["float32", "int64", torch.float64])
        ro = ctx.flip(0.3)
        if ro:
            kw["read_only"] = True
        t = m.fn(name)(data, **kw)
        exp_dt = _td(kw["dtype"]) if "dtype" in kw else (torch.int64 if m.p is None else m.p.dtype)
        ctx.state(name, m.p is not None, str(exp_dt), ro)
        ctx.check(t.dtype == exp_dt, "dtype:make_tensor", f"{t.dtype}, expected {exp_dt}")
        ctx.close(t, np.array(data), "value:make_tensor", "")
        ctx.check(isinstance(t, T.ReadOnlyTensor) == ro, "read-only:make_tensor", str(type(t)))
        objs = [1, "a", [2, 3], None]
        o = T.make_tensor(objs, dtype=object)
        ctx.check(isinstance(o, ObjectArray) and len(o) == 4 and o[0] == 1 and o[1] == "a" and list(o[2]) == [2, 3] and o[3] is None, "object:make_tensor", repr(o))
        return
    if name == "make_I":
        k = ctx.randint(1, 5)
        kw = {}
        dt = torch.float32 if m.p is None else m.p.dtype
        if ctx.flip(0.6):
            kw["dtype"] = ctx.choice(["float32", "float64", "int64"])
            dt = _td(kw["dtype"])
        if m.p is not None and ctx.flip(0.3):
            t, k = m.p.make_I(**kw), m.n
        elif ctx.flip(0.2):
            out = torch.full((k, k), 7.0)
            t = m.fn(name)(out=out)
            ctx.check(t is out, "out:make_I", "")
            dt = torch.float32
        else:
            t = m.fn(name)(ctx.choice([k, (k,)]), **kw)
        ctx.state(name, k, m.p is not None)
        ctx.same(t, np.eye(k), "value:make_I", f"{k}")
        ctx.check(t.dtype == dt, "dtype:make_I", f"{t.dtype} expected {dt}")
        return
    val = {"make_zeros": 0, "make_ones": 1, "make_nan": float("nan"), "make_empty": None}[name]
    if name != "make_empty" and ctx.flip(0.3):
        # fill an existing tensor (possibly a view): only that tensor changes
        base = torch.full((4, 5), 9.0, dtype=torch.float64)
        view = ctx.choice([base, base[1:3], base[:, 2], base[::2, 1:4]])
        r = m.fn(name)(out=view)
        ctx.event("out_given")
        exp = torch.full((4, 5), 9.0, dtype=torch.float64)
        tgt = exp.as_strided(view.shape, view.stride(), view.storage_offset())
        tgt.fill_(val)
        ctx.same(base, exp, f"out:{name}", "an existing tensor was filled")
        ctx.check(r is view, f"out-result:{name}", "")
        ctx.raises(Exception, lambda: getattr(T, name)(3, out=view), "conflict-accepted", f"{name}(3, out=...)")
        ctx.raises(Exception, lambda: getattr(T, name)(out=view, dtype="float32"), "conflict-accepted", f"{name}(out=..., dtype=...)")
        ctx.event("conflict_rejected", 2)
        ctx.state(name, "out", tuple(view.shape), m.p is not None)
        return
    args, kw, shape, dt = m.request(allowed, torch.float32)
    ctx.note(name, args, kw)
    if ctx.flip(0.1) and name != "make_empty":
        kw.pop("num_solutions", None)
        args, shape = ((),), ()
    t = m.fn(name)(*args, **kw)
    ctx.state(name, shape, str(dt), m.p is not None, "num_solutions" in kw, "use_eval_dtype" in kw)
    ctx.check(tuple(t.shape) == shape, f"shape:{name}", f"{tuple(t.shape)}, expected {shape}")
    ctx.check(t.dtype == dt, f"dtype:{name}", f"{t.dtype}, expected {dt}")
    if val is not None:
        ctx.same(t.to(torch.float64), np.full(shape, val), f"value:{name}", "")
    if m.p is not None:
        ctx.raises(Exception, lambda: m.fn(name)(3, num_solutions=2), "conflict-accepted", "size and num_solutions")
        ctx.raises(Exception, lambda: m.fn(name)(3, dtype="float32", use_eval_dtype=True), "conflict-accepted", "dtype and use_eval_dtype")
        ctx.event("conflict_rejected", 2)
    ctx.raises(Exception, lambda: T.make_empty(3, dtype=object, device="meta"), "object-device-accepted", "")
    oa = T.make_empty(3, dtype=object)
    ctx.check(isinstance(oa, ObjectArray) and len(oa) == 3, "object:make_empty", repr(oa))
    ctx.sample(maker=name, shape=shape, dtype=str(dt), problem=m.p is not None)


@scenario("C25", quick=1600, thorough=40000, needs=["uniform_float", "uniform_int", "uniform_bool", "gaussian", "symmetric", "randint", "vector_bounds", "out_given", "own_generator", "no_spread"])
def random_tensors(ctx):
    m = _Maker(ctx)
    name = ctx.choice(["make_uniform", "make_uniform", "make_uniform", "make_gaussian", "make_randint"])
    gen = ctx.choice([None, ctx.gen, m.p]) if m.p is None or ctx.flip(0.3) else None
    if name == "make_uniform":
        kind = ctx.choice(["float", "int", "bool"])
        ctx.event("uniform_" + kind)
        args, kw, shape, dt = m.request({"float": FLOATS, "int": INTS, "bool": ["bool", torch.bool]}[kind], None)
        if "use_eval_dtype" in kw:
            kind = "float"
        if ctx.flip(0.1) and "num_solutions" not in kw:
            args, shape = ((),), ()
        lo = hi = None
        if ctx.flip(0.8):
            if kind == "float":
                lo = float(ctx.randint(-5, 5))
                hi = lo + ctx.choice([0.0, 0.5, 1.0, 10.0])
            elif kind == "int":
                info = torch.iinfo(dt)
                if ctx.flip(0.3) and dt.itemsize <= 4:
                    lo, hi = info.min, info.max
                    if ctx.flip():
                        lo, hi = lo + ctx.randint(0, 5), hi - ctx.randint(0, 5)
                else:
                    lo = ctx.randint(max(-50, info.min), 50)
                    hi = min(lo + ctx.choice([0, 1, 2, 7, 100]), info.max)
            else:
                lo, hi = ctx.choice([(False, False), (False, True), (True, True)])
            blo, bhi = np.float64(lo), np.float64(hi)
            if shape and shape[-1] > 0 and ctx.flip(0.4):
                ctx.event("vector_bounds")
                k = shape[-1]
                if kind == "bool":
                    pr = [ctx.choice([(False, False), (False, True), (True, True)]) for _ in range(k)]
                    lo, hi = [p[0] for p in pr], [p[1] for p in pr]
                elif kind == "int":
                    lo = [int(v) for v in ctx.np.integers(0, 50, size=k)]
                    hi = [a + ctx.choice([0, 1, 9]) for a in lo]
                else:
                    lo = [float(v) for v in ctx.np.normal(size=k)]
                    hi = [a + ctx.choice([0.0, 0.1, 3.0]) for a in lo]
                blo, bhi = np.array(lo, dtype=np.float64), np.array(hi, dtype=np.float64)
                if ctx.flip():
                    lo, hi = torch.tensor(lo, dtype=dt), torch.tensor(hi, dtype=dt)
                if kind == "float":
                    blo, bhi = [to_np(torch.tensor(b).to(dt)).astype(np.float64) for b in (blo, bhi)]
            kw.update(lb=lo, ub=hi)
        elif kind == "bool":
            blo, bhi = 0.0, 1.0
        else:
            blo, bhi = 0.0, 1.0
        if gen is not None:
            kw["generator"] = gen
        if ctx.flip(0.2) and shape != ():
            # existing tensor
            for k in ("dtype", "device", "num_solutions", "use_eval_dtype"):
                kw.pop(k, None)
            big = torch.zeros((2,) + tuple(shape), dtype=dt)
            out = big[1]
            keep = fingerprint(big[0])
            t = m.fn(name)(out=out, **kw)
            ctx.check(t is out, "out-result:make_uniform", "")
            ctx.check(fingerprint(big[0]) == keep, "out:make_uniform", "memory outside of `out` changed")
            ctx.event("out_given")
        else:
            t = m.fn(name)(*args, **kw)
        ctx.note(name, args, kw, "->", t)
        ctx.state(name, kind, str(dt), shape, "lb" in kw, np.ndim(blo), m.p is not None)
        ctx.check(tuple(t.shape) == tuple(shape), "shape:make_uniform", f"{tuple(t.shape)}, expected {shape}")
        ctx.check(t.dtype == dt, "dtype:make_uniform", f"{t.dtype}, expected {dt}")
        if t.numel():
            _in_bounds(ctx, t, blo, bhi, f"range:make_uniform:{kind}", f"{dt}")
        ctx.raises(ValueError, lambda: T.make_uniform(3, lb=1.0), "half-bounds-accepted", "lb only")
        ctx.raises(ValueError, lambda: T.make_uniform(3, ub=1, dtype="int64"), "half-bounds-accepted", "ub only")
    elif name == "make_gaussian":
        args, kw, shape, dt = m.request(["float32", "float64", torch.float32], None)
        sym = ctx.flip(0.5)
        c = s = None
        if ctx.flip(0.7):
            k = shape[-1] if shape else 1
            if ctx.flip() and k > 0:
                c, s = [float(v) for v in ctx.np.normal(size=k)], [float(v) for v in ctx.np.uniform(0.1, 2, size=k)]
            else:
                c, s = 3.0, ctx.choice([0.5, 0.0, 2.0])
            if s == 0.0:
                ctx.event("no_spread")
            kw.update(center=c, stdev=s)
        if gen is not None:
            kw["generator"] = gen
        ctx.event("gaussian")
        if sym:
            kw["symmetric"] = True
            ctx.event("symmetric")
            if shape[0] % 2:
                ctx.raises(ValueError, lambda: m.fn(name)(*args, **kw), "odd-symmetric-accepted", str(shape))
                return
        t = m.fn(name)(*args, **kw)
        ctx.state(name, shape, str(dt), sym, c is None, isinstance(c, list))
        ctx.check(tuple(t.shape) == tuple(shape) and t.dtype == dt, "shape:make_gaussian", f"{t.shape} {t.dtype}, expected {shape} {dt}")
        ctx.check(bool(torch.all(torch.isfinite(t))), "nonfinite:make_gaussian", str(t))
        cc = np.zeros(1) if c is None else np.asarray(c)
        ss = np.ones(1) if s is None else np.asarray(s)
        if t.numel():
            if np.all(ss == 0):
                ctx.close(t, np.broadcast_to(cc, shape), "no-spread:make_gaussian", "standard deviation 0", rtol=1e-6, atol=1e-6)
            z = (to_np(t).astype(np.float64) - cc) / np.where(ss == 0, 1.0, ss)
            ctx.check(np.all(np.abs(z) < 9), "scale:make_gaussian", f"standardised values {z}")
            if sym:
                ctx.close(z[0::2], -z[1::2], "symmetric:make_gaussian", "pairs around the center", rtol=1e-3, atol=1e-4)
        ctx.raises(ValueError, lambda: T.make_gaussian(4, center=0.0), "half-gaussian-accepted", "center only")
        ctx.raises(ValueError, lambda: T.make_gaussian(4, stdev=1.0), "half-gaussian-accepted", "stdev only")
    else:
        ctx.event("randint")
        args, kw, shape, dt = m.request(["int64", "int32", torch.int64, "float32"] , None)
        n = ctx.choice([1, 2, 3, 10, 100])
        if gen is not None:
            kw["generator"] = gen
        if m.p is None and ctx.flip(0.3):
            kw.pop("dtype", None)
            dt = torch.int64
        t = m.fn(name)(*args, n=n, **kw)
        ctx.state(name, shape, str(dt), n)
        ctx.check(tuple(t.shape) == tuple(shape) and t.dtype == dt, "shape:make_randint", f"{t.shape} {t.dtype}")
        if t.numel():
            _in_bounds(ctx, t, 0, n - 1, "range:make_randint", f"n={n}")
            ctx.same(t.to(torch.float64), torch.round(t.to(torch.float64)), "integral:make_randint", "")
    # the random numbers are those of the given generator
    if m.p is None or gen is not None:
        for k in ("num_solutions", "use_eval_dtype"):
            kw.pop(k, None)
        args = args or (shape,)
        if "out_result" not in kw:
            seed = ctx.randint(0, 999)
            extra = {"n": n} if name == "make_randint" else {}
            kw["dtype"] = dt
            draws = []
            for glob in (1, 2):
                with torch.random.fork_rng(devices=[]):
                    torch.manual_seed(glob)
                    draws.append(getattr(T, name)(*args, **{**kw, **extra, "generator": torch.Generator().manual_seed(seed)}))
            ctx.event("own_generator")
            ctx.same(draws[0], draws[1], f"generator:{name}", f"two equal generators gave different values ({kw})")
    ctx.sample(maker=name, shape=shape, dtype=str(dt), problem=m.p is not None)


@scenario("C25", quick=60, thorough=600, needs=["reach_int", "reach_randint", "reach_bool", "moments"])
def reachability_and_moments(ctx):
    """every value of an integer range appears with about its share; means and deviations are the requested ones"""
    kind = ctx.choice(["int", "randint", "bool", "float", "gauss"])
    N = 20000
    if kind == "int":
        dt = ctx.choice(["int64", "int32", "int16", "int8", "uint8"])
        lo = ctx.choice([0, 1, 5]) if dt == "uint8" else ctx.choice([-100, -3, 0, 5])
        k = ctx.choice([2, 3, 10, 100, 200])
        hi = min(lo + k - 1, torch.iinfo(TD[dt]).max)
        k = hi - lo + 1
        t = T.make_uniform(N, lb=lo, ub=hi, dtype=dt, generator=ctx.gen).to(torch.int64) - lo
        ctx.event("reach_int")
    elif kind == "randint":
        k = ctx.choice([2, 3, 10, 50])
        dt = "int64"
        t = T.make_randint(N, n=k, generator=ctx.gen)
        ctx.event("reach_randint")
    elif kind == "bool":
        k, dt = 2, "bool"
        t = T.make_uniform(N, lb=False, ub=True, dtype="bool", generator=ctx.gen).to(torch.int64)
        ctx.event("reach_bool")
    else:
        ctx.event("moments")
        lo, w = ctx.uniform(-5, 5), ctx.choice([0.5, 2.0, 10.0])
        if kind == "float":
            t = T.make_uniform(N, lb=lo, ub=lo + w, dtype="float64", generator=ctx.gen)
            mean, sd = lo + w / 2, w / np.sqrt(12)
        else:
            sym = ctx.flip()
            t = T.make_gaussian(N, center=lo, stdev=w, symmetric=sym, dtype="float64", generator=ctx.gen)
            mean, sd = lo, w
        ctx.state(kind, w)
        ctx.close(t.mean(), mean, f"mean:{kind}", "", rtol=0, atol=8 * sd / np.sqrt(N))
        ctx.close(t.std(), sd, f"deviation:{kind}", "", rtol=0.08, atol=0)
        return
    c = torch.bincount(t, minlength=k).to(torch.float64)
    ctx.state(kind, dt, k)
    ctx.check(len(c) == k, f"range:{kind}", f"{len(c)} distinct values, expected {k}")
    ctx.check(bool(torch.all(c > 0)), f"unreachable:{kind}:{dt}", f"values {torch.nonzero(c == 0).flatten().tolist()[:10]} of a range of {k} never appear in {N} samples")
    dev = float((c - N / k).abs().max()) / np.sqrt(N / k * (1 - 1 / k))
    ctx.check(dev < 9, f"share:{kind}:{dt}", f"counts between {c.min()} and {c.max()} for {N} samples of {k} values")


@scenario("C25", quick=500, thorough=10000, needs=["float_problem", "int_problem", "vector_bounds", "initial_and_strict", "center_stdev", "custom_fill"])
def initial_populations(ctx):
    n = ctx.randint(1, 5)
    kind = ctx.choice(["float", "float", "int"])
    dtype = ctx.choice(["float32", "float64", None, torch.float64]) if kind == "float" else ctx.choice(["int64", "int32", torch.int64, "int16"])
    dt = torch.float32 if dtype is None else _td(dtype)
    ctx.event(f"{kind}_problem")

    def bnds(lo, hi):
        if kind == "float":
            a = ctx.np.uniform(lo, hi, size=n)
            b = a + ctx.np.uniform(0, 3, size=n) * ctx.choice([0, 1])
            a, b = [to_np(torch.tensor(v).to(dt)).astype(np.float64) for v in (a, b)]
        else:
            a = ctx.np.integers(lo, hi, size=n)
            b = a + ctx.np.integers(0, 4, size=n)
        return a, b

    how = ctx.choice(["initial", "strict", "both"])
    kw = {}

    def as_arg(a):
        return ctx.choice([lambda: a.tolist(), lambda: torch.tensor(a, dtype=dt), lambda: np.array(a)])()

    if ctx.flip(0.5):
        ctx.event("vector_bounds")
        lo, hi = bnds(-6, 6)
        ia = (as_arg(lo), as_arg(hi))
        slo, shi = lo - 2, hi + 2
        sa = (as_arg(slo), as_arg(shi))
    else:
        a = ctx.randint(-6, 6)
        b = a + ctx.randint(0, 5)
        lo, hi = np.full(n, a, dtype=float), np.full(n, b, dtype=float)
        ia = (a, b)
        slo, shi, sa = lo - 2, hi + 2, (a - 2, b + 2)
    if how == "initial":
        kw["initial_bounds"] = ia
    elif how == "strict":
        kw["bounds"] = ia
    else:
        kw["initial_bounds"], kw["bounds"] = ia, sa
        ctx.event("initial_and_strict")
    if dtype is not None:
        kw["dtype"] = dtype
    objs = ctx.choice(["min", ["max", "min"]])
    nobj = 1 if isinstance(objs, str) else 2
    p = Problem(objs, lambda x: torch.sum(x.to(torch.float32), dim=-1), solution_length=n, vectorized=True, seed=ctx.choice([None, 3]), eval_data_length=ctx.choice([None, 2]), **kw)
    popsize = ctx.choice([0, 1, 2, 10, 64])
    ctx.state(kind, str(dt), n, how, popsize, isinstance(ia[0], (int, float)))
    via = ctx.choice(["generate_batch", "SolutionBatch", "generate_values"])
    if via == "generate_values":
        v = p.generate_values(popsize)
        ctx.check(tuple(v.shape) == (popsize, n) and v.dtype == dt, "shape:generate_values", f"{v.shape} {v.dtype}")
    else:
        b = p.generate_batch(popsize) if via == "generate_batch" else SolutionBatch(p, popsize)
        ctx.check(len(b) == popsize and b.solution_length == n, "popsize", f"{len(b)}")
        v = b.values
        ctx.check(tuple(v.shape) == (popsize, n) and v.dtype == dt, "shape:population", f"{v.shape} {v.dtype}")
        ctx.check(b.evals.shape[0] == popsize and bool(torch.all(torch.isnan(b.evals))), "fresh-evaluated", "a new population claims evaluation results")
    if popsize:
        _in_bounds(ctx, v, lo, hi, f"range:{kind}:{how}", via)
    if kind == "int" and popsize == 64:
        for j in range(n):
            if hi[j] - lo[j] <= 2:
                want = set(range(int(lo[j]), int(hi[j]) + 1))
                ctx.check(set(to_np(v)[:, j].tolist()) == want, "unreachable-population", f"column {j}: {set(to_np(v)[:, j].tolist())}, range {want}")
    # problem reports its bounds per column
    if how != "initial":
        xlo, xhi = (lo, hi) if how == "strict" else (slo, shi)
        ctx.close(p.lower_bounds.expand(n), xlo, "lower-bounds", "", rtol=1e-5)
        ctx.close(p.upper_bounds.expand(n), xhi, "upper-bounds", "", rtol=1e-5)
    ctx.close(p.initial_lower_bounds.expand(n), lo, "initial-lower-bounds", "", rtol=1e-5)
    ctx.close(p.initial_upper_bounds.expand(n), hi, "initial-upper-bounds", "", rtol=1e-5)
    if kind == "float":
        ctx.event("center_stdev")
        sym = ctx.flip()
        k = 2 * ctx.randint(1, 6)
        c, s = ctx.np.normal(size=n), ctx.np.uniform(0.1, 1.0, size=n)
        b = p.generate_batch(k, center=torch.tensor(c, dtype=dt), stdev=torch.tensor(s, dtype=dt), symmetric=sym)
        z = (to_np(b.values).astype(np.float64) - c) / s
        ctx.check(z.shape == (k, n) and np.all(np.abs(z) < 9), "gaussian-population", str(z))
        if sym:
            ctx.close(z[0::2], -z[1::2], "symmetric-population", "", rtol=1e-3, atol=1e-3)
        ct, st = torch.tensor(c, dtype=dt), torch.tensor(s, dtype=dt)
        for bad in ({"center": ct}, {"stdev": st}, {"symmetric": True}, {"center": ct, "stdev": st, "empty": True}):
            ctx.raises(ValueError, lambda: p.generate_batch(2, **bad), "population-arguments", f"generate_batch with {sorted(bad)}")
    # user-supplied filling
    if ctx.flip(0.3):
        ctx.event("custom_fill")

        class P2(Problem):
            def _fill(self, values):
                for i in range(len(values)):
                    values[i] = [i, i + 1] if self.dtype is object else i

        q = P2("min", solution_length=n, dtype=dt) if ctx.flip() else P2("min", dtype=object)
        b = q.generate_batch(4)
        if q.dtype is object:
            ctx.check([list(b.values[i]) for i in range(4)] == [[i, i + 1] for i in range(4)], "custom-fill-object", repr(b.values))
        else:
            ctx.same(b.values.to(torch.float64), np.repeat(np.arange(4.0)[:, None], n, axis=1), "custom-fill", "")
    # contradictory bounds
    if how == "both":
        ctx.raises(Exception, lambda: Problem("min", solution_length=n, initial_bounds=([0.0] * (n + 1), [1.0] * (n + 1))), "bounds-length-accepted", "")
    ctx.sample(kind=kind, n=n, how=how, popsize=popsize)
