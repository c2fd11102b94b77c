"""C22: read-only tensors can never be used to change the data."""

import copy
import operator
import pickle
import warnings

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms import SNES
from evotorch.decorators import expects_ndim, rowwise
from evotorch.tools import ObjectArray, ReadOnlyTensor, as_read_only_tensor, read_only_tensor

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import fingerprint

rule("C22", "A case is a group of operations of the torch interface (taken from torch's own list of overridable functions) applied to read-only tensors, or an attempt to write through something the library handed out.")
ASSUMPTIONS = [
    "explicit reinterpretation of memory (as_subclass, storages, data pointers, torch.from_numpy of a protected numpy array, the private _base attribute, calling the base class's own torch.Tensor.numpy past the override) is the documented way out of the protection",
    "functions that update side arguments (running statistics of normalisation layers) are not called with read-only side arguments",
]

SKIP = ("as_subclass", "storage", "untyped_storage", "_typed_storage", "data_ptr", "share_memory", "__class__", "_make_subclass", "_make_wrapper_subclass", "__torch_function__", "__torch_dispatch__", "__new__", "__init__", "__del__", "__subclasshook__", "__init_subclass__", "set_", "_backward_hooks", "backward", "register_hook", "pin_memory", "is_shared", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "_reduce_ex_internal", "is_inference", "cuda", "ipu", "xpu", "mtia", "hpu", "to_mkldnn", "module_load", "_cuda", "__dir__", "__sizeof__", "rename", "align_to", "refine_names", "names", "from_file", "_nnz", "crow_indices", "_use_count", "_base", "_is_view", "_view_func", "_view_func_unsafe", "__dlpack__", "_rev_view_func_unsafe", "_fix_weakref", "__setattr__", "__delattr__", "__dict__", "__getattribute__")


def _names():
    meth = sorted(n for n in dir(torch.Tensor) if n not in SKIP and not any(n.startswith(s) for s in ("_cudnn", "_sparse", "_coalesced", "_mps", "register_")))
    fns = []
    ov = torch.overrides.get_overridable_functions()
    for ns, fl in ov.items():
        if ns is torch.Tensor:
            continue
        nsn = getattr(ns, "__name__", str(ns))
        for f in fl:
            name = getattr(f, "__name__", None)
            if name and not any(s in name for s in ("cudnn", "miopen", "mkldnn", "cuda", "storage", "nnpack", "quantized_", "fbgemm", "batch_norm", "sparse", "instance_norm", "_fw_primal", "fused", "mps", "as_subclass", "wrapper", "rnn", "lstm", "gru", "ctc", "debug", "_sobol", "from_file", "_sync", "segment", "_resize", "frombuffer", "record_stream", "nested", "_jagged", "compress", "grid_sampler", "embedding", "init_")) and "_base" not in nsn:
                fns.append((nsn, name, f))
    fns.sort(key=lambda x: (x[0], x[1]))
    return meth, fns


_CACHE = []


def _fresh(kind):
    if kind == "f":
        base = torch.tensor([[-1.5, 2.0, 3.25], [4.0, -5.0, 6.5], [0.5, -0.25, 8.0]])
    elif kind == "i":
        base = torch.tensor([[-1, 2, 3], [4, -5, 6], [7, 8, 0]])
    elif kind == "v":
        base = torch.tensor([3.0, -1.0, 2.0, 0.5])
    else:
        base = torch.tensor([[True, False, True], [False, False, True], [True, True, True]])
    return base, as_read_only_tensor(base)


def _arg_tuples(t):
    o = torch.ones_like(t)
    idx = torch.zeros(t.shape, dtype=torch.int64)
    m = torch.ones(t.shape, dtype=torch.bool)
    return [(), (o,), (2,), (0,), (0, 1), (1, 0), (o, o), (0, idx), (0, idx, o), (0, idx, 3), (m, o), (m, 7), (-1, 1), ((0,),), ((1, 0),), ((-1,),), (0, 0, 1), ((torch.tensor([0]),), o[0]), (torch.float64,), ("cpu",), (0.5, 0.7), ([0],), (lambda x, *a: x,), (0.5, True)]


def _walk(r, depth=0):
    if isinstance(r, torch.Tensor):
        yield r
    elif isinstance(r, (list, tuple)) and depth < 3:
        for x in r:
            yield from _walk(x, depth + 1)


def _ptr(t):
    try:
        return t.as_subclass(torch.Tensor).untyped_storage().data_ptr()
    except Exception:
        return None


def _probe(ctx, label, call, kind):
    """call(ro, args..) once per argument tuple; watch the protected memory"""
    for ai in range(len(_arg_tuples(_fresh(kind)[0]))):
        base, ro = _fresh(kind)
        args = _arg_tuples(base)[ai]
        keep = fingerprint(base)
        try:
            r = call(ro, args)
            ctx.event("calls_returned")
        except Exception:
            r = None
            ctx.event("calls_refused")
        ctx.event("protected_calls")
        ctx.check(fingerprint(base) == keep, f"changed:{label}", lambda: f"{label} with arguments {args} changed the data behind a read-only tensor")
        for t in _walk(r):
            if _ptr(t) == _ptr(base) and _ptr(base):
                ctx.event("aliases")
                ctx.check(isinstance(t, ReadOnlyTensor), f"alias:{label}", lambda: f"{label} with arguments {args} returned a writable {type(t).__name__} over the protected memory")
        if isinstance(r, np.ndarray) and r.size:
            if np.shares_memory(r, base.numpy()):
                ctx.event("aliases")
                ctx.check(not r.flags.writeable, f"alias:{label}", f"{label} returned a writable numpy view")


NB = 120


@scenario("C22", quick=NB, thorough=NB * 8, needs=["protected_calls", "calls_returned", "calls_refused", "aliases", "methods", "functions"])
def api_surface(ctx):
    if not _CACHE:
        _CACHE.append(_names())
    meth, fns = _CACHE[0]
    blk = ctx.index % NB
    kind = ["f", "v", "i", "b", "f", "v", "i", "b"][(ctx.index // NB) % 8] if ctx.tier == "thorough" else "f"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n in meth[blk::NB]:
            ctx.event("methods")

            def bound(ro, args, n=n):
                a = getattr(ro, n)
                return a(*args) if callable(a) else a

            _probe(ctx, f"Tensor.{n}", bound, kind)

            def unbound(ro, args, n=n):
                return getattr(torch.Tensor, n)(ro, *args)

            if callable(getattr(torch.Tensor, n, None)) and n != "numpy":
                _probe(ctx, f"torch.Tensor.{n}", unbound, kind)
        for nsn, n, f in fns[blk::NB]:
            ctx.event("functions")
            _probe(ctx, f"{nsn}.{n}", lambda ro, args: f(ro, *args), kind)
            if not n.endswith("_"):
                _probe(ctx, f"{nsn}.{n}:out", lambda ro, args: f(torch.ones(3, 3), *args, out=ro), kind)
                _probe(ctx, f"{nsn}.{n}:out-pair", lambda ro, args: f(torch.ones(3, 3), *args, out=(ro, torch.zeros(3, 3, dtype=torch.int64))), kind)
                _probe(ctx, f"{nsn}.{n}:inplace", lambda ro, args: f(ro, *args, inplace=True), kind)
            else:
                _probe(ctx, f"{nsn}.{n}:list", lambda ro, args: f([ro], *args), kind)
    ctx.state(blk, kind)
    ctx.sample(methods=meth[blk::NB], functions=[f"{a}.{b}" for a, b, _ in fns[blk::NB]])


INPLACE = ["iadd", "isub", "imul", "itruediv", "ifloordiv", "imod", "ipow", "iand", "ior", "ixor", "ilshift", "irshift", "imatmul"]


@scenario("C22", quick=300, thorough=6000, needs=["operators", "views", "values_right", "numpy_views", "copies"])
def operators_views_and_conversions(ctx):
    kind = ctx.choice("fivb")
    base, ro = _fresh(kind)
    keep = fingerprint(base)
    # in-place operators
    for n in INPLACE:
        f = getattr(operator, n)
        try:
            x = ro
            x = f(x, ctx.choice([1, torch.ones_like(base)]))
            ctx.fail(f"operator-accepted:{n}", f"{n} returned {x}")
        except (TypeError, AttributeError, RuntimeError):
            ctx.event("operators")
        ctx.check(fingerprint(base) == keep, f"changed:operator.{n}", "")
    # chains of views, then a write
    t = ro
    chain = []
    for _ in range(ctx.randint(1, 4)):
        name = ctx.choice(["slice", "T", "view", "reshape", "unsqueeze", "squeeze", "detach", "data", "narrow", "expand", "flatten", "iter", "unbind", "split", "diagonal", "transpose", "cpu", "to", "contiguous", "select", "real", "movedim", "ravel", "view_as", "as_strided", "chunk", "index", "ellipsis", "dlpack", "unfold", "swapaxes", "permute", "alias", "none", "more", "front"])
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                t2 = {
                    "slice": lambda: t[ctx.choice([slice(0, 2), slice(None, None, 2), slice(1, None)])],
                    "T": lambda: t.T, "view": lambda: t.view(-1), "reshape": lambda: t.reshape(-1), "unsqueeze": lambda: t.unsqueeze(0), "squeeze": lambda: t.squeeze(),
                    "detach": lambda: t.detach(), "data": lambda: t.data, "narrow": lambda: t.narrow(0, 0, 1), "expand": lambda: t.expand(2, *t.shape), "flatten": lambda: t.flatten(),
                    "iter": lambda: next(iter(t)), "unbind": lambda: t.unbind()[-1], "split": lambda: t.split(1)[0], "diagonal": lambda: t.diagonal(), "transpose": lambda: t.transpose(0, -1),
                    "cpu": lambda: t.cpu(), "to": lambda: t.to(t.dtype), "contiguous": lambda: t.contiguous(), "select": lambda: t.select(0, 0), "real": lambda: t.real, "movedim": lambda: t.movedim(0, -1),
                    "ravel": lambda: t.ravel(), "view_as": lambda: t.view_as(t), "as_strided": lambda: t.as_strided((2,), (1,)), "chunk": lambda: t.chunk(2)[0], "index": lambda: t[0], "ellipsis": lambda: t[...],
                    "dlpack": lambda: torch.from_dlpack(t), "unfold": lambda: t.unfold(0, 1, 1), "swapaxes": lambda: t.swapaxes(0, -1), "permute": lambda: t.permute(*range(t.ndim)), "alias": lambda: torch.asarray(t), "none": lambda: t[ctx.choice([None, (..., None), (slice(0, 1), None)])], "more": lambda: t.reshape(tuple(t.shape) + (1,)), "front": lambda: t.reshape(1, -1, 1),
                }[name]()
        except (RuntimeError, IndexError, TypeError):
            continue
        chain.append(name)
        t = t2
        ctx.event("views")
        if _ptr(t) == _ptr(base):
            ctx.check(isinstance(t, ReadOnlyTensor), f"alias:view:{name}", f"chain {chain} gives a writable {type(t).__name__}")
        if not isinstance(t, ReadOnlyTensor):
            break
    for w in (lambda: t.__setitem__(ctx.choice([0, ..., slice(None)]), 1), lambda: t.fill_(1), lambda: torch.Tensor.mul_(t, 3), lambda: torch.add(torch.ones(t.shape), 1, out=t), lambda: t.copy_(torch.zeros(t.shape)), lambda: t.zero_(), lambda: operator.iadd(t, 1)):
        try:
            w()
        except Exception:
            ctx.event("writes_refused")
        ctx.check(fingerprint(base) == keep, "changed:write-after-views", f"a write after {chain} changed the protected data")
    # numpy
    for arr in (ro.numpy(), np.asarray(ro), ro[0:2].numpy(), ro.__array__(), np.asarray(ro, dtype=base.numpy().dtype), ro.__array__(base.numpy().dtype), ro.__array__(dtype=base.numpy().dtype), np.array(ro, copy=None), np.asanyarray(ro), np.ascontiguousarray(ro), np.atleast_3d(ro)):
        ctx.event("numpy_views")
        ctx.check(not arr.flags.writeable or not np.shares_memory(arr, base.numpy()), "alias:numpy", "writable numpy view of protected data")
    ctx.same(np.asarray(ro), base.numpy(), "numpy-values", "")
    # right values
    ctx.event("values_right")
    a, b = to_np(base), base
    ops = ctx.choice(["add", "mul", "sub", "rsub", "sum", "max", "gt", "stack", "cat", "matmul", "index", "where", "abs", "mean"])
    other = torch.tensor(ctx.np.integers(1, 5, size=tuple(base.shape))).to(base.dtype if kind != "b" else torch.int64)
    fn = {
        "add": lambda x: x + other, "mul": lambda x: x * other, "sub": lambda x: other - x.to(other.dtype), "rsub": lambda x: x.to(other.dtype) - other, "sum": lambda x: x.sum(), "max": lambda x: x.max() if kind != "b" else x.any(),
        "gt": lambda x: x > 0, "stack": lambda x: torch.stack([x, x]), "cat": lambda x: torch.cat([x, other.to(x.dtype)]), "matmul": lambda x: x.to(torch.float64) @ other.to(torch.float64), "index": lambda x: x[[0, -1]],
        "where": lambda x: torch.where(x > 0, x, torch.zeros_like(x)), "abs": lambda x: x.to(torch.float64).abs(), "mean": lambda x: x.to(torch.float64).mean(),
    }[ops]
    ctx.same(fn(ro), fn(b.clone()), f"value:{ops}", "computation on a read-only tensor")
    # arithmetic results are independent memory
    res = ro.to(torch.float64) + 1
    ctx.check(_ptr(res) != _ptr(base), "result-aliases", "")
    # copies
    ctx.event("copies")
    c = ro.clone()
    ctx.check(type(c) is torch.Tensor, "clone-type", f"{type(c)}")
    c.zero_()
    ctx.check(fingerprint(base) == keep, "clone-aliases", "")
    ctx.check(isinstance(ro.clone(preserve_read_only=True), ReadOnlyTensor), "clone-preserve", "")
    for cp in (copy.copy(ro), copy.deepcopy(ro), pickle.loads(pickle.dumps(ro))):
        ctx.same(cp, base, "copy-values", "")
        ctx.check(isinstance(cp, ReadOnlyTensor), "copy-type", f"{type(cp)}")
        ctx.check(_ptr(cp) != _ptr(base), "copy-aliases", "")
    if kind != "b":
        base.add_(1)
        ctx.same(ro, base, "not-a-view", "as_read_only_tensor of a tensor is a view of it")
    objs = ObjectArray(2)
    objs[0] = [1, 2]
    ro3 = read_only_tensor(objs)
    ctx.check(isinstance(ro3, ObjectArray) and ro3.is_read_only and not objs.is_read_only, "read_only_tensor", "of an object array")
    ctx.raises((ValueError, TypeError), lambda: ro3.__setitem__(0, 5), "read_only_tensor", "an item of a read-only object array set")
    ctx.raises(ValueError, lambda: read_only_tensor(objs, dtype=torch.float32), "read_only_tensor", "an object array with a dtype")
    ro2 = read_only_tensor([1.0, 2.0], dtype=torch.float64)
    ctx.check(isinstance(ro2, ReadOnlyTensor) and ro2.dtype == torch.float64, "read_only_tensor", "")
    ctx.state(kind, tuple(chain), ops)
    ctx.sample(kind=kind, chain=chain, op=ops)


@scenario("C22", quick=150, thorough=3000, needs=["population", "solution", "status", "problem_bounds", "inplace_objective"])
def handed_out_by_the_library(ctx):
    def write_all(t, what, base):
        if not isinstance(t, torch.Tensor):
            return
        keep = fingerprint(base())
        ctx.check(isinstance(t, ReadOnlyTensor), f"writable:{what}", f"{what} is a {type(t).__name__}")
        for w in (lambda: t.__setitem__(..., 1), lambda: torch.Tensor.fill_(t, 3), lambda: t.fill_(3), lambda: t[0:1].__setitem__(..., 9), lambda: operator.imul(t, 2), lambda: torch.neg(t, out=t), lambda: t.numpy().__setitem__(..., 1), lambda: t.data.__setitem__(..., 4)):
            try:
                w()
            except Exception:
                pass
            ctx.check(fingerprint(base()) == keep, f"changed:{what}", f"writing through {what} changed the population")

    nobj = ctx.choice([1, 2])
    p = Problem(["min", "max"][:nobj], lambda x: torch.stack([torch.sum(x, dim=-1)] * nobj, dim=-1), solution_length=3, initial_bounds=(-1, 1), vectorized=True, eval_data_length=ctx.choice([None, 2]))
    b = p.generate_batch(5)
    p.evaluate(b)
    state = lambda: (b.access_values(keep_evals=True), b.access_evals())
    target = ctx.choice([b, b[1:4], b[::2]])
    write_all(target.values, "batch.values", state)
    write_all(target.evals, "batch.evals", state)
    ctx.event("population")
    s = target[ctx.randint(0, len(target) - 1)]
    write_all(s.values, "solution.values", state)
    write_all(s.evals, "solution.evals", state)
    if nobj == 1 and not p.eval_data_length:
        write_all(s.evaluation, "solution.evaluation", state)
    ctx.event("solution")
    for x in s:
        write_all(x, "solution item", state)
    # recorded best
    best = p.status["best"] if nobj == 1 else p.status["best"][0]
    write_all(best.values, "recorded best", lambda: best.values)
    # search status
    if nobj == 1:
        alg = SNES(p, stdev_init=1.0, popsize=4)
        alg.step()
        st = dict(alg.status.items())
        pop = alg.population
        for k, v in st.items():
            if isinstance(v, torch.Tensor):
                write_all(v, f"status[{k}]", lambda: (alg.population.values, alg.status["center"], alg.status["stdev"]))
        ctx.event("status")
        arr = ObjectArray(3)
        arr[:] = [1, [2, 3], "x"]
        alg.after_step_hook.append(lambda: {"objects": arr, "rows": kept})
        kept = torch.arange(4.0)
        alg.step()
        for w in (lambda a: a.__setitem__(0, 5), lambda a: a.__setitem__(slice(None), [0, 0, 0]), lambda a: a[1:].__setitem__(0, 7), lambda a: a.set_item(0, 1)):
            try:
                w(alg.status["objects"])
            except Exception:
                pass
            ctx.check(list(arr) == [1, [2, 3], "x"], "changed:status-objects", f"an array of objects could be changed through the status: {arr!r}")
        write_all(alg.status["rows"], "status[rows]", lambda: kept)
        write_all(pop.values, "algorithm.population.values", lambda: pop.values)
    # objective functions which try to modify their argument
    bad = ctx.choice(["vectorized", "single", "rowwise", "expects"])
    ctx.event("inplace_objective")

    def f(x):
        x *= 2
        return torch.sum(x, dim=-1)

    if bad == "vectorized":
        q = Problem("min", f, solution_length=3, initial_bounds=(-1, 1), vectorized=True)
    elif bad == "single":
        q = Problem("min", f, solution_length=3, initial_bounds=(-1, 1))
    elif bad == "rowwise":
        q = Problem("min", rowwise(f), solution_length=3, initial_bounds=(-1, 1))
    else:
        q = Problem("min", expects_ndim(f, (1,)), solution_length=3, initial_bounds=(-1, 1), vectorized=True)
    b2 = q.generate_batch(4)
    keep = fingerprint(b2.values)
    try:
        q.evaluate(b2)
    except Exception:
        ctx.event("writes_refused")
    ctx.check(fingerprint(b2.values) == keep, f"changed:objective:{bad}", "an objective function modified the decision values it was given")
    # bounds
    r = Problem("min", f, solution_length=2, bounds=([-1.0, -2.0], [1.0, 2.0]))
    ctx.event("problem_bounds")
    ctx.state(nobj, bad)
    ctx.sample(nobj=nobj, objective=bad)


@scenario("C22", quick=2, thorough=2, needs=["vmap"])
def functorch(ctx):
    base, ro = _fresh("f")
    keep = fingerprint(base)
    ctx.event("vmap")
    try:
        torch.func.vmap(lambda x: x.add_(1))(ro)
    except Exception:
        pass
    ctx.check(fingerprint(base) == keep, "changed:vmap", "an in-place operation inside torch.func.vmap changed the data behind a read-only tensor")
