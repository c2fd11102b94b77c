"""C37: conversions, copies and casts keep values and give what was requested; predicates classify correctly."""

import collections.abc
import io
import logging
from collections import namedtuple
from typing import Any

import numpy as np
import torch
from evotorch import tools as T
from evotorch.tools import ObjectArray, ReadOnlyTensor

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen, fingerprint

rule("C37", "A case is one conversion request, one nested container, one value with all its predicates, or one set of small helper calls.")
ASSUMPTIONS = ["no other device than the CPU and the storage-less meta device is available"]

DTYPES = {"float32": torch.float32, "float64": torch.float64, "float16": torch.float16, "int64": torch.int64, "int32": torch.int32, "uint8": torch.uint8, "bool": torch.bool}
NAMES = list(DTYPES)
Pair = namedtuple("Pair", ["left", "right"])


def dtype_forms(ctx, name):
    """one of the ways of naming a dtype"""
    return ctx.choice([DTYPES[name], name, np.dtype(name), getattr(np, "bool_" if name == "bool" else name)] + ({"float64": [float], "int64": [int], "bool": [bool]}.get(name, [])))


def data(ctx, shape=None):
    """small numbers which every dtype represents exactly"""
    shape = tuple(ctx.randint(1, 4) for _ in range(ctx.randint(0, 3))) if shape is None else shape
    return ctx.np.integers(0, 2 if ctx.flip(0.3) else 90, size=shape)


def source(ctx, a):
    """a container of the given numbers: Python lists, numpy array, tensor or read-only tensor; and its natural dtype"""
    kind = ctx.choice(["python", "numpy", "tensor", "readonly"])
    name = ctx.choice(["float32", "float64", "int64", "int32", "uint8"])
    if kind == "python":
        py = a.tolist() if ctx.flip() else (a.astype(float)).tolist()
        return kind, py, (torch.tensor(py).dtype)
    if kind == "numpy":
        return kind, a.astype(name), DTYPES[name]
    t = torch.tensor(a, dtype=DTYPES[name])
    return kind, (t if kind == "tensor" else T.as_read_only_tensor(t)), DTYPES[name]


@scenario("C37", quick=900, thorough=25000, needs=["as_tensor", "as_tensor:inferred", "as_tensor:device", "make_tensor", "make_tensor:read_only", "numpy_copy", "numpy_copy:torch_dtype", "empty_like", "empty_like:objects", "ensured", "ensured:refused", "clipped", "objects"])
def conversions(ctx):
    a = data(ctx)
    kind, x, natural = source(ctx, a)
    keep = [x] if not isinstance(x, (torch.Tensor, np.ndarray)) else x
    given = ctx.choice([None, None, None] + NAMES)
    want = natural if given is None else DTYPES[given]
    expected = a if want != torch.bool else a != 0
    what = ctx.choice(["as_tensor", "make_tensor", "numpy_copy", "empty_like", "ensured", "clipped", "objects"])
    ctx.event(what)
    kw = {} if given is None else {"dtype": dtype_forms(ctx, given)}
    with Frozen(ctx, f"source-changed:{what}", source=keep):
        if what == "as_tensor":
            device = ctx.choice([None, "cpu", torch.device("cpu"), "meta"])
            if device is not None:
                kw["device"] = device
            r = T.as_tensor(x, **kw)
            if given is None:
                ctx.event("as_tensor:inferred")
            ctx.check(isinstance(r, torch.Tensor) and r.dtype == want, "as_tensor:dtype", f"{r.dtype} of {kind} {natural} with {kw}, expected {want}")
            ctx.check(tuple(r.shape) == a.shape, "as_tensor:shape", f"{tuple(r.shape)}, expected {a.shape}")
            if device == "meta":
                ctx.event("as_tensor:device")
                ctx.check(r.device.type == "meta", "as_tensor:device", f"{r.device}, requested {device}")
            else:
                ctx.check(r.device.type == "cpu", "as_tensor:device", f"{r.device}")
                ctx.same(to_np(r), expected.astype(to_np(r).dtype), "as_tensor:values", f"from {kind}")
            if kind == "readonly" and device != "meta" and want == natural:
                ctx.check(isinstance(r, ReadOnlyTensor) or r.data_ptr() != x.data_ptr(), "as_tensor:protection-lost", "a writable tensor upon the memory of a read-only one")
        elif what == "make_tensor":
            ro = ctx.flip()
            if kind in ("tensor", "readonly"):
                x = keep = np.array(a)
                natural = torch.tensor(a).dtype
                want = natural if given is None else DTYPES[given]
            r = T.make_tensor(x, read_only=ro, **kw)
            ctx.check(r.dtype == want and tuple(r.shape) == a.shape, "make_tensor:dtype", f"{r.dtype}, expected {want}")
            ctx.same(to_np(r), expected.astype(to_np(r).dtype), "make_tensor:values", "")
            if ro:
                ctx.event("make_tensor:read_only")
            ctx.check(isinstance(r, ReadOnlyTensor) == ro, "make_tensor:read_only", f"{type(r)} for read_only={ro}")
            if not ro and r.numel() and isinstance(x, np.ndarray):
                before = fingerprint(x)
                r += 1 if r.dtype != torch.bool else True
                ctx.check(fingerprint(x) == before, "make_tensor:shares", "a new tensor shares memory with its source")
        elif what == "numpy_copy":
            if given is not None and ctx.flip():
                kw = {"dtype": DTYPES[given]}
                ctx.event("numpy_copy:torch_dtype")
            r = T.numpy_copy(x, **kw)
            wn = (np.array(x).dtype if kind in ("python", "numpy") else to_np(x).dtype) if given is None else np.dtype(given)
            ctx.check(isinstance(r, np.ndarray) and r.dtype == wn and r.shape == a.shape, "numpy_copy:dtype", f"{type(r)} {r.dtype} {r.shape}, expected {wn} {a.shape} ({kw})")
            ctx.same(r, expected.astype(wn), "numpy_copy:values", "")
            ctx.check(r.flags.writeable, "numpy_copy:readonly", "the copy cannot be written to")
            if r.ndim and r.size:
                before = fingerprint(keep)
                r[...] = 1
                ctx.check(fingerprint(keep) == before, "numpy_copy:shares", f"writing to the copy changes the {kind} source")
        elif what == "empty_like":
            objects = ctx.flip(0.3)
            src = T.make_tensor([1, "a", None][: ctx.randint(1, 3)], dtype=object) if objects else torch.tensor(a)
            mode = ctx.choice(["same", "length", "shape"])
            kw2 = {}
            if objects:
                ctx.event("empty_like:objects")
                shape = (len(src),)
                if mode != "same":
                    n = ctx.randint(0, 5)
                    shape = (n,)
                    kw2 = {"length": n} if mode == "length" else {"shape": ctx.choice([(n,), torch.Size([n]), n])}
                if ctx.flip(0.3):
                    kw2["device"] = "cpu"
                if ctx.flip(0.3):
                    kw2["dtype"] = object
                r = T.empty_tensor_like(src, **kw2)
                ctx.check(isinstance(r, ObjectArray) and len(r) == shape[0] and all(v is None for v in r), "empty_like:objects", f"{r} for {kw2}")
                ctx.raises(ValueError, lambda: T.empty_tensor_like(src, device="meta"), "empty_like:object-device", "")
                ctx.raises(ValueError, lambda: T.empty_tensor_like(src, dtype="float32"), "empty_like:object-dtype", "")
                ctx.raises(ValueError, lambda: T.empty_tensor_like(src, shape=(2, 2)), "empty_like:object-shape", "")
            else:
                shape = tuple(src.shape)
                if mode == "shape":
                    shape = tuple(ctx.randint(0, 3) for _ in range(ctx.randint(1, 3)))
                    kw2["shape"] = shape
                elif mode == "length" and src.ndim:
                    shape = (ctx.randint(0, 5),) + shape[1:]
                    kw2["length"] = shape[0]
                if given is not None:
                    kw2["dtype"] = kw["dtype"]
                if ctx.flip(0.3):
                    kw2["device"] = ctx.choice(["cpu", "meta"])
                r = T.empty_tensor_like(src, **kw2)
                ctx.check(tuple(r.shape) == shape and r.dtype == (src.dtype if given is None else want) and r.device.type == str(kw2.get("device", "cpu")), "empty_like", f"{tuple(r.shape)} {r.dtype} {r.device} for {kw2}")
                if src.ndim == 0:
                    ctx.raises(ValueError, lambda: T.empty_tensor_like(src, length=2), "empty_like:scalar-length", "")
            ctx.raises(ValueError, lambda: T.empty_tensor_like(src, length=2, shape=(2,)), "empty_like:both", "")
            ctx.raises(TypeError, lambda: T.empty_tensor_like([1, 2]), "empty_like:list", "")
        elif what == "ensured":
            n = ctx.randint(1, 5)
            scalar_ok = ctx.flip()
            d = DTYPES[given or "float32"]
            form = kw.get("dtype", "float32")
            v = data(ctx, () if ctx.flip(0.4) else (n,))
            _, y, _ = source(ctx, v)
            r = T.ensure_tensor_length_and_dtype(y, n, form, allow_scalar=scalar_ok)
            ex = v if (v.ndim or scalar_ok) else np.full(n, v)
            ctx.check(r.dtype == d and tuple(r.shape) == ex.shape, "ensured:shape", f"{r.dtype} {tuple(r.shape)}, expected {d} {ex.shape}")
            ctx.same(to_np(r), ex.astype(to_np(r).dtype), "ensured:values", "")
            for bad in (torch.zeros(n + 1), torch.zeros(1, n), torch.zeros(n, 1), torch.zeros(0), [1.0] if n > 1 else [], np.ones(1 if n > 1 else 2), torch.ones(1, 1)):
                ctx.event("ensured:refused")
                ctx.raises(ValueError, lambda: T.ensure_tensor_length_and_dtype(bad, n, form, allow_scalar=scalar_ok, about="here"), "ensured:accepted", f"{np.shape(bad)} for length {n}")
        elif what == "clipped":
            t = torch.tensor(ctx.np.normal(size=(3, 2)))
            lb = ctx.choice([None, -0.3, [-0.5, 0.0], torch.tensor([-0.1, -0.2], dtype=torch.float64)])
            ub = ctx.choice([None, 0.3, [0.5, 0.1], torch.tensor([0.1, 0.2], dtype=torch.float64)])
            ec = ctx.flip()
            kept = t.clone()
            r = T.clip_tensor(t, lb, ub, **({} if ec and ctx.flip() else {"ensure_copy": ec}))
            ex = to_np(t)
            if lb is not None:
                ex = np.maximum(ex, np.asarray(lb))
            if ub is not None:
                ex = np.minimum(ex, np.asarray(ub))
            ctx.same(to_np(r), ex, "clipped:values", f"{lb} {ub}")
            if ec:
                r += 1
            ctx.same(t, kept, "clipped:source", "")
        else:
            objs = [ctx.choice([1, 2.5, "abc", None, [1, 2], {"k": [3]}, (1, "b")]) for _ in range(ctx.randint(0, 4))]
            form = ctx.choice([object, "object", "O", Any, "Any"])
            fn = ctx.choice([T.as_tensor, T.make_tensor])
            r = fn(objs if ctx.flip() else iter(objs), dtype=form)
            ctx.check(isinstance(r, ObjectArray) and len(r) == len(objs), "objects:type", f"{r}")
            for got, o in zip(r, objs):
                ctx.check(T.mutable_copy(got) == (list(o) if isinstance(o, tuple) else o), "objects:item", f"{got} for {o}")
            ctx.check(T.as_tensor(r) is r and T.as_tensor(r, dtype=object) is r, "objects:same", "converting an object array gives another one")
            ctx.raises(ValueError, lambda: T.as_tensor(r, device="meta"), "objects:device", "")
            ctx.raises(ValueError, lambda: T.as_tensor([1], dtype=object, device="meta"), "objects:device", "")
            n = T.numpy_copy(r)
            ctx.check(isinstance(n, np.ndarray) and n.dtype == object and len(n) == len(objs), "objects:numpy", f"{n!r}")
            for i, o in enumerate(objs):
                if isinstance(n[i], list):
                    n[i].append(7)
            for got, o in zip(r, objs):
                ctx.check(T.mutable_copy(got) == (list(o) if isinstance(o, tuple) else o), "objects:numpy-shares", f"{got} for {o}")
    ctx.state(what, kind, str(natural), given, a.shape)
    ctx.sample(what=what, kind=kind, shape=list(a.shape), dtype=given)


def nested(ctx, depth, leaves, dtype):
    """a random container, its model being the same structure with ('t', number) leaves"""
    if depth == 0 or ctx.flip(0.25):
        k = ctx.choice(["tensor", "tensor", "number", "str", "none", "shared"])
        if k == "tensor" or (k == "shared" and not leaves):
            t = torch.tensor(data(ctx, (ctx.randint(1, 3),)), dtype=dtype)
            leaves.append(t)
            return t
        if k == "shared":
            return ctx.choice(leaves)
        return {"number": lambda: ctx.choice([3, 2.5, True]), "str": lambda: ctx.choice(["x", b"y"]), "none": lambda: None}[k]()
    k = ctx.choice(["list", "tuple", "dict", "named", "list"])
    if k == "named":
        return Pair(nested(ctx, depth - 1, leaves, dtype), nested(ctx, depth - 1, leaves, dtype))
    items = [nested(ctx, depth - 1, leaves, dtype) for _ in range(ctx.randint(0, 3))]
    if k == "dict":
        return {f"k{i}": v for i, v in enumerate(items)}
    return items if k == "list" else tuple(items)


@scenario("C37", quick=500, thorough=15000, needs=["cast", "shared_tensor", "cycle", "mismatch", "uniform", "no_tensor", "moved"])
def containers(ctx):
    dtype = ctx.choice([torch.float32, torch.float64, torch.int64])
    leaves = []
    c = [nested(ctx, ctx.randint(1, 3), leaves, dtype) for _ in range(ctx.randint(1, 3))]
    if ctx.flip(0.2):
        c.append(c)
        ctx.event("cycle")
    # questions
    if leaves:
        ctx.event("uniform")
        ctx.check(T.dtype_of_container(c) == dtype, "dtype-of", f"{T.dtype_of_container(c)}, expected {dtype}")
        ctx.check(T.device_of_container(c) == torch.device("cpu"), "device-of", f"{T.device_of_container(c)}")
        for q, odd in ((T.dtype_of_container, torch.zeros(ctx.choice([(), (1,), (2, 2), (0,)]), dtype=torch.float16)), (T.device_of_container, torch.zeros(ctx.choice([(), (1,)]), dtype=dtype, device="meta"))):
            bad = ctx.choice([[c, {"z": (odd,)}], {"a": odd, "b": [c]}, [c, odd], {"a": c, "b": odd}, (odd, c), [leaves[0], odd], Pair(leaves[0], odd)])
            ctx.raises(ValueError, lambda: q(bad), f"mismatch-accepted:{q.__name__}", "")
            ctx.event("mismatch")
    else:
        ctx.event("no_tensor")
        ctx.check(T.dtype_of_container(c) is None and T.device_of_container(c) is None, "dtype-of-nothing", "")
    for q in (T.dtype_of_container, T.device_of_container, T.cast_tensors_in_container):
        ctx.raises(TypeError, lambda: q([object()]), f"unknown-accepted:{q.__name__}", "")
    # casts
    to = ctx.choice([None, "float32", "float64", "int64"])
    dev = ctx.choice([None, None, "cpu", "meta"])
    kw = {k: v for k, v in (("dtype", to and dtype_forms(ctx, to)), ("device", dev)) if v is not None}
    flat = [t for t in leaves]
    with Frozen(ctx, "cast-changed-source", leaves=flat):
        r = T.cast_tensors_in_container(c, **kw)
    ctx.event("cast")
    if dev == "meta":
        ctx.event("moved")
    pairs = {}
    seen = set()

    def compare(x, y, path):
        if isinstance(x, torch.Tensor):
            ctx.check(isinstance(y, torch.Tensor) and y.dtype == (DTYPES[to] if to else x.dtype) and y.device.type == (dev or "cpu") and y.shape == x.shape, "cast:tensor", f"{path}: {y!r} for {kw}")
            if dev != "meta":
                ctx.same(to_np(y).astype(float), to_np(x).astype(float), "cast:values", path)
            if id(x) in pairs:
                ctx.event("shared_tensor")
                ctx.check(pairs[id(x)] is y, "cast:sharing-lost", f"{path}: one tensor became two")
            pairs[id(x)] = y
            return
        if (id(x), id(y)) in seen:
            return
        if isinstance(x, (list, tuple, dict)):
            seen.add((id(x), id(y)))
            ctx.check(type(y) is type(x) and len(x) == len(y), "cast:structure", f"{path}: {type(x)} became {type(y)}")
            ctx.check(y is not x or isinstance(x, tuple), "cast:same-container", f"{path}: the container itself is returned")
            for k in x.keys() if isinstance(x, dict) else range(len(x)):
                ctx.check(not isinstance(x, dict) or k in y, "cast:key", f"{path}: {k} missing")
                compare(x[k], y[k], f"{path}/{k}")
        else:
            ctx.check(type(x) is type(y) and x == y, "cast:leaf", f"{path}: {x!r} became {y!r}")

    compare(c, r, "")
    ctx.state(str(dtype), to, dev, len(leaves))
    ctx.sample(dtype=str(dtype), to=to, device=dev, tensors=len(leaves))


class Lazy(collections.abc.Mapping):
    """a mapping whose items are made when asked for"""

    def __init__(self, make, n):
        self.make, self.n = make, n

    def __getitem__(self, k):
        return self.make(k)

    def __iter__(self):
        return iter(range(self.n))

    def __len__(self):
        return self.n


@scenario("C37", quick=60, thorough=1500, needs=["mapping", "generator", "rows", "mismatch"])
def short_lived(ctx):
    """containers whose items exist only while they are looked at"""
    n = ctx.randint(4, 30)
    shape = ctx.choice([(), (1,), (3,)])
    wrap = ctx.choice([lambda t: t, lambda t: [t], lambda t: {"a": t}])
    form = ctx.choice(["mapping", "generator", "rows"])

    def build(make):
        if form == "mapping":
            return Lazy(make, n)
        if form == "generator":
            return (make(i) for i in range(n))
        a = np.empty((n, 1), dtype=object)
        for i in range(n):
            a[i, 0] = make(i)
        return a

    def unwrap(x):
        while not isinstance(x, torch.Tensor):
            x = x["a"] if isinstance(x, dict) else x[0]
        return x

    r = T.cast_tensors_in_container(build(lambda i: wrap(torch.full(shape, float(i)))), dtype="float64")
    ctx.event(form)
    ctx.check(len(r) == n, "short-lived:count", f"{len(r)} items, expected {n}")
    for i in range(n):
        t = unwrap(r[i])
        ctx.check(t.dtype == torch.float64, "short-lived:dtype", f"{t.dtype}")
        ctx.same(t, np.full(shape, float(i)), f"short-lived:{form}", f"item {i} of {n}")
    j = ctx.randint(0, n - 1)
    ctx.raises(ValueError, lambda: T.dtype_of_container(build(lambda i: wrap(torch.zeros(shape, dtype=torch.int64 if i == j else torch.float32)))), f"short-lived:mismatch:{form}", f"item {j} of {n} has another dtype")
    ctx.raises(ValueError, lambda: T.device_of_container(build(lambda i: wrap(torch.zeros(shape, device="meta" if i == j else "cpu")))), f"short-lived:device:{form}", f"item {j} of {n} is on another device")
    ctx.event("mismatch")
    ctx.state(form, n)


@scenario("C37", quick=400, thorough=8000, needs=["scalar", "vector", "dtype", "object_dtype", "sequence"])
def predicates(ctx):
    # one value, its kind, in one of several forms
    kind = ctx.choice(["bool", "int", "float", "other"])
    v = {"bool": ctx.flip(), "int": ctx.randint(-5, 5), "float": ctx.uniform(-5, 5), "other": None}[kind]
    if kind == "other":
        x = ctx.choice([None, "text", b"bytes", object(), 1j])
    else:
        names = {"bool": ["bool"], "int": ["int64", "int32", "int8"], "float": ["float32", "float64", "float16"]}[kind]
        name = ctx.choice(names)
        x = ctx.choice([v, np.array(v, dtype=name), np.array(v, dtype=name)[()], torch.tensor(v, dtype=getattr(torch, name))])
    ctx.event("scalar")
    for f, yes in ((T.is_bool, kind == "bool"), (T.is_integer, kind == "int"), (T.is_real, kind in ("int", "float"))):
        ctx.check(f(x) is yes, f"scalar:{f.__name__}", f"{f.__name__}({x!r} of {type(x)}) is {f(x)!r}")
    for f in (T.is_bool_vector, T.is_integer_vector, T.is_real_vector):
        if not isinstance(x, (str, bytes)):
            ctx.check(f(x) is False, f"scalar-as-vector:{f.__name__}", f"{x!r}")
    ctx.check(T.is_sequence(x) is False, "scalar-as-sequence", f"{x!r}")
    # vectors
    if kind != "other":
        n = ctx.randint(1, 4)
        arr = np.array([v] * n, dtype=name)
        forms = [[v] * n, (v,) * n, arr, torch.tensor(arr), list(arr), list(torch.tensor(arr)), [x] * n]
        vec = ctx.choice(forms)
        ctx.event("vector")
        for f, yes in ((T.is_bool_vector, kind == "bool"), (T.is_integer_vector, kind == "int"), (T.is_real_vector, kind in ("int", "float"))):
            ctx.check(f(vec) is yes, f"vector:{f.__name__}", f"{f.__name__}({vec!r})")
        for f in (T.is_bool, T.is_integer, T.is_real):
            ctx.check(f(vec) is False, f"vector-as-scalar:{f.__name__}", f"{vec!r}")
        mat = arr.reshape(1, -1)
        for f in (T.is_bool_vector, T.is_integer_vector, T.is_real_vector, T.is_bool, T.is_integer, T.is_real):
            ctx.check(f(mat) is False and f(torch.tensor(mat)) is False, f"matrix:{f.__name__}", "")
            if f.__name__.endswith("vector"):
                ctx.check(f([v] * n + ["a"]) is False, f"mixed:{f.__name__}", "")
        mixed = [True, 1] if ctx.flip() else [1, True]
        ctx.check(not T.is_integer_vector(mixed) and not T.is_bool_vector(mixed) and not T.is_real_vector(mixed), "mixed-bool", f"{mixed}")
        ctx.event("sequence")
        for s in (vec, mat, range(3), {1, 2}, T.as_read_only_tensor(torch.zeros(2)), T.make_tensor([1], dtype=object)):
            ctx.check(T.is_sequence(s) is True, "sequence", f"{s!r}")
    # dtypes
    dn = ctx.choice(NAMES)
    form = dtype_forms(ctx, dn)
    ctx.event("dtype")
    ctx.check(T.to_torch_dtype(form) == DTYPES[dn], "to-torch-dtype", f"{form!r} -> {T.to_torch_dtype(form)}")
    ctx.check(T.to_numpy_dtype(form) == np.dtype(dn), "to-numpy-dtype", f"{form!r} -> {T.to_numpy_dtype(form)}")
    b, i, fl = dn == "bool", "int" in dn, "float" in dn
    for f, yes in ((T.is_dtype_bool, b), (T.is_dtype_integer, i), (T.is_dtype_float, fl), (T.is_dtype_real, i or fl), (T.is_dtype_object, False)):
        ctx.check(f(form) is yes, f"dtype:{f.__name__}", f"{form!r}")
    of = ctx.choice([object, Any, "object", "O", "Any"])
    ctx.event("object_dtype")
    ctx.check(T.is_dtype_object(of) is True and T.to_numpy_dtype(of) == np.dtype(object), "object-dtype", f"{of!r}")
    ctx.raises(TypeError, lambda: T.to_torch_dtype(ctx.choice([object, Any])), "object-torch-dtype", "")
    t = torch.zeros(2, dtype=DTYPES[dn])
    net = torch.nn.Linear(2, 2, dtype=torch.float64)
    ctx.check(T.dtype_of(t) == DTYPES[dn] and T.dtype_of(net) == torch.float64 and T.device_of(net) == torch.device("cpu") and T.device_of(t) == torch.device("cpu"), "dtype-of-object", "")
    ctx.raises(ValueError, lambda: T.dtype_of(torch.nn.Tanh()), "dtype-of-empty-module", "")
    ctx.raises(ValueError, lambda: T.device_of(torch.nn.Tanh()), "device-of-empty-module", "")
    ctx.check(T.is_tensor_on_cpu(t) is True and T.is_tensor_on_cpu(t.to("meta")) is False, "on-cpu", "")
    ctx.state(kind, repr(type(x)), dn, repr(form))
    ctx.sample(value=repr(x), dtype=dn)


@scenario("C37", quick=150, thorough=3000, needs=["workload", "erroneous", "rows", "storage", "logger", "expect_none", "printed"])
def helpers(ctx):
    w, k = ctx.randint(0, 40), ctx.randint(1, 9)
    s = T.split_workload(w, k)
    ctx.event("workload")
    ctx.check(len(s) == k and sum(s) == w and max(s) - min(s) <= 1 and all(isinstance(i, int) for i in s), "split-workload", f"{w} over {k}: {s}")
    # errors as values
    e = ValueError("no")

    def fails(*a, **kw):
        raise e

    r = T.ErroneousResult.call(fails, 1, z=2)
    ctx.event("erroneous")
    ctx.check(isinstance(r, T.ErroneousResult) and r.error is e and not r, "erroneous", f"{r}")
    ctx.check(T.ErroneousResult.call(lambda a, b: (a, b), 1, b=2) == (1, 2), "erroneous-result", "")
    # rows
    n, m = ctx.randint(1, 5), ctx.randint(1, 4)
    x, c = torch.tensor(ctx.np.normal(size=(n, m))), torch.tensor(ctx.np.normal(size=n))
    ctx.event("rows")
    with Frozen(ctx, "rows-changed", x=x, c=c):
        ctx.close(T.multiply_rows_by_scalars(c, x), to_np(x) * to_np(c)[:, None], "rows-multiplied", "", rtol=1e-9)
        ctx.close(T.rowwise_sum(x), to_np(x).sum(0), "rows-summed", "", rtol=1e-9, atol=1e-9)
    ctx.event("storage")
    ctx.check(T.storage_ptr(x) == T.storage_ptr(x[1:]) == T.storage_ptr(x.T) and T.storage_ptr(x) != T.storage_ptr(x.clone()), "storage", "")
    o = T.make_tensor([1, 2, 3], dtype=object)
    ctx.check(T.storage_ptr(o) == T.storage_ptr(o[1:]) and T.storage_ptr(o) != T.storage_ptr(T.make_tensor([1, 2, 3], dtype=object)), "storage-objects", "")
    ctx.event("expect_none")
    T.expect_none("fine", a=None, b=None)
    ctx.raises(ValueError, lambda: T.expect_none("not fine", a=None, b=ctx.choice([0, False, "", 5])), "expect-none", "")
    # the console logger configuration upon a logger of its own
    name = f"vmon-{ctx.case_seed}"
    log = logging.getLogger(name)
    try:
        T.set_default_logger_config(name, logging.DEBUG)
        first = list(log.handlers)
        ctx.check(len(first) == 2 and log.level == logging.DEBUG and log.propagate is False, "logger-setup", f"{first}")
        disabled = logging.root.manager.disable
        logging.disable(logging.CRITICAL)
        T.set_default_logger_config(name, logging.ERROR)
        logging.disable(disabled)
        ctx.check(log.handlers == first and log.level == logging.DEBUG, "logger-overridden", "configured again although override was not requested")
        T.set_default_logger_config(name, logging.WARNING, override=True)
        ctx.event("logger")
        ctx.check(len(log.handlers) == 2 and not set(log.handlers) & set(first) and log.level == logging.WARNING, "logger-handlers-left", f"{len(log.handlers)} handlers after overriding a configuration of 2")
        streams = []
        for h in log.handlers:
            h.stream = io.StringIO()
            streams.append(h.stream)
        logging.disable(logging.NOTSET)
        log.warning("attention")
        logging.disable(disabled)
        texts = [s.getvalue() for s in streams]
        ctx.check(sum("attention" in t for t in texts) == 1 and sum(t.count("attention") for t in texts) == 1, "logger-duplicates", f"{texts}")
    finally:
        for h in list(log.handlers):
            log.removeHandler(h)
        logging.Logger.manager.loggerDict.pop(name, None)
    # printing of containers which contain themselves
    obj = T.as_immutable({"a": [1, {2}], "b": (3,)})
    ctx.event("printed")
    ctx.check(all(t in str(obj) for t in ("'a'", "1", "2", "'b'", "3")), "printed", str(obj))
    ctx.state(w, k, n, m)
    ctx.sample(workload=[w, k], parts=s)


@scenario("C37", quick=250, thorough=6000, needs=["by_default", "by_eval_dtype", "by_dtype", "length_default", "refused"])
def through_a_problem(ctx):
    from evotorch import Problem

    d, ed = ctx.choice(["float32", "float64"]), ctx.choice(["float32", "float64", "float16"])
    n = ctx.randint(1, 5)
    p = Problem("min", lambda x: x.sum(), solution_length=n, initial_bounds=(-1, 1), dtype=d, eval_dtype=ed)
    v = data(ctx, () if ctx.flip(0.3) else (n,))
    kind, x, natural = source(ctx, v)
    mode = ctx.choice(["by_default", "by_eval_dtype", "by_dtype"])
    other = ctx.choice(NAMES)
    kw = {"by_default": {}, "by_eval_dtype": {"use_eval_dtype": True}, "by_dtype": {"dtype": dtype_forms(ctx, other)}}[mode]
    want = DTYPES[{"by_default": d, "by_eval_dtype": ed, "by_dtype": other}[mode]]
    ctx.event(mode)
    expected = v if want != torch.bool else v != 0
    keep = [x] if not isinstance(x, (torch.Tensor, np.ndarray)) else x
    with Frozen(ctx, "problem-changed-source", source=keep):
        r = p.as_tensor(x, **kw)
        ctx.check(r.dtype == want and tuple(r.shape) == v.shape, "problem-as_tensor", f"{r.dtype} {tuple(r.shape)}, expected {want} {v.shape} ({kw})")
        ctx.same(to_np(r), expected.astype(to_np(r).dtype), "problem-as_tensor:values", "")
        scalar_ok = ctx.flip()
        r = p.ensure_tensor_length_and_dtype(x, **kw, allow_scalar=scalar_ok)
        ex = expected if (v.ndim or scalar_ok) else np.full(n, expected)
        ctx.event("length_default")
        ctx.check(r.dtype == want and tuple(r.shape) == ex.shape, "problem-ensured", f"{r.dtype} {tuple(r.shape)}, expected {want} {ex.shape} ({kw})")
        ctx.same(to_np(r), ex.astype(to_np(r).dtype), "problem-ensured:values", "")
        ctx.raises(ValueError, lambda: p.ensure_tensor_length_and_dtype(torch.zeros(n + 1), **kw), "problem-ensured:length", "")
        ctx.event("refused")
        r = p.ensure_tensor_length_and_dtype(np.zeros(n + 2), n + 2, **kw)
        ctx.check(tuple(r.shape) == (n + 2,), "problem-ensured:other-length", "")
    ctx.raises(ValueError, lambda: p.as_tensor([1.0], dtype="float32", use_eval_dtype=True), "problem-both-dtypes", "")
    ctx.state(d, ed, mode, kind, n)
    ctx.sample(dtype=d, eval_dtype=ed, mode=mode, source=kind)
