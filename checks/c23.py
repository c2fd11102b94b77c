"""C23: object arrays store private immutable copies with array semantics."""

import copy
import io
import pickle

import numpy as np
import torch
from evotorch.tools import ObjectArray, ReadOnlyTensor, as_immutable, make_tensor, mutable_copy
from evotorch.tools.immutable import ImmutableDict, ImmutableList, ImmutableSet

from vmon.engine import rule, scenario

rule("C23", "A case is a random history of stores, reads, views, copies and hostile modifications of object arrays, compared after every step with plain Python lists.")
ASSUMPTIONS = ["arrays that are read-only before they are stored are kept as they are (documented), so they are only stored after losing every writable alias"]


def freeze(x):
    """content of an object as a plain comparable value (tuples and lists are the same thing to the library)"""
    if isinstance(x, torch.Tensor):
        y = x.as_subclass(torch.Tensor).detach()
        return ("T", str(y.dtype), tuple(y.shape), tuple(y.reshape(-1).tolist()))
    if isinstance(x, ObjectArray):
        return ("OA",) + tuple(freeze(i) for i in x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("OA",) + tuple(freeze(i) for i in x)
        return ("N", str(x.dtype), x.shape, tuple(x.ravel().tolist()))
    if x is None or isinstance(x, (str, bool, int, float, complex)):
        return (type(x).__name__, x)
    if isinstance(x, (set, frozenset, ImmutableSet)):
        return ("set",) + tuple(sorted((freeze(i) for i in x), key=repr))
    if hasattr(x, "keys"):
        return ("dict",) + tuple((repr(k), freeze(x[k])) for k in x.keys())
    return ("seq",) + tuple(freeze(i) for i in x)


def rand_obj(ctx, depth=0):
    kinds = ["int", "float", "str", "none", "bool", "tensor", "np", "list", "dict", "set", "tuple", "objarr", "objnp", "empty", "ndtensor", "settuple"]
    if depth >= 3:
        kinds = kinds[:7]
    k = ctx.choice(kinds)
    sub = lambda: rand_obj(ctx, depth + 1)
    if k == "int":
        return ctx.randint(-99, 99)
    if k == "float":
        return ctx.choice([0.5, -1.25, float("inf")])
    if k == "str":
        return ctx.choice(["", "abc", "x" * 30, "dé"])
    if k == "none":
        return None
    if k == "bool":
        return ctx.flip()
    if k == "tensor":
        return torch.tensor(ctx.np.integers(0, 9, size=ctx.randint(0, 4)), dtype=ctx.choice([torch.float32, torch.int64, torch.float64]))
    if k == "ndtensor":
        t = torch.tensor(ctx.np.integers(0, 9, size=(3, 4)))
        return ctx.choice([t.t(), t[1:], t[:, ::2], t.bool()])
    if k == "np":
        return np.array(ctx.np.integers(0, 9, size=ctx.choice([ctx.randint(0, 4), ctx.randint(0, 4), (), (2, 2)])), dtype=ctx.choice(["float32", "int64", "bool"]))
    if k == "list":
        return [sub() for _ in range(ctx.randint(1, 3))]
    if k == "tuple":
        return tuple(sub() for _ in range(ctx.randint(1, 3)))
    if k == "dict":
        return {ctx.choice(["a", "b", 1, 7, ("x", 2)]): sub() for _ in range(ctx.randint(1, 3))}
    if k == "set":
        return {ctx.choice([1, 2, "q", "r", 2.5, None]) for _ in range(ctx.randint(1, 3))}
    if k == "settuple":
        return {(1, ctx.randint(0, 3)), ("a", (2, 3))}
    if k == "objarr":
        o = ObjectArray(ctx.randint(1, 3))
        for i in range(len(o)):
            o[i] = sub()
        return o
    if k == "objnp":
        o = np.empty(ctx.randint(1, 3), dtype=object)
        for i in range(len(o)):
            o[i] = sub()
        return o
    return ctx.choice([[], {}, set(), ()])


def attack(ctx, x, depth=0):
    """try to change x, or anything inside it, in every way its type offers; returns whether something changed"""
    tries = []
    if isinstance(x, torch.Tensor):
        tries = [lambda: x.__setitem__(..., 1), lambda: x.fill_(77), lambda: x.add_(1), lambda: x.data.fill_(5), lambda: x.numpy().__setitem__(..., 1), lambda: x.zero_(), lambda: x.resize_(0)]
    elif isinstance(x, np.ndarray) and x.dtype != object:
        tries = [lambda: x.__setitem__(..., 1), lambda: x.fill(7), lambda: x.sort(), lambda: np.add(x, 1, out=x), lambda: x.reshape(-1).__setitem__(0, 9)]
    elif hasattr(x, "keys"):
        tries = [lambda: x.__setitem__("a", 1), lambda: x.__delitem__(next(iter(x.keys()))), lambda: x.clear(), lambda: x.update(a=1), lambda: x.pop("a"), lambda: x.setdefault("zz", 3), lambda: x.popitem()]
    elif isinstance(x, (set, ImmutableSet)):
        tries = [lambda: x.add(1), lambda: x.clear(), lambda: x.discard(1), lambda: x.remove(1), lambda: x.update([3]), lambda: x.pop()]
    elif isinstance(x, (list, ImmutableList, ObjectArray, np.ndarray)):
        tries = [lambda: x.__setitem__(0, 1), lambda: x.append(3), lambda: x.__delitem__(0), lambda: x.clear(), lambda: x.pop(), lambda: x.__setitem__(slice(None), [0] * len(x)), lambda: x.insert(0, 1), lambda: x.reverse(), lambda: x.sort(), lambda: x.extend([4]), lambda: x.__iadd__([2]), lambda: x.set_item(0, 1), lambda: x.__setitem__([0], [1])]
    # children first (before the container might be emptied)
    if depth < 4:
        try:
            kids = list(x.values()) if hasattr(x, "keys") else (list(x) if isinstance(x, (list, tuple, ImmutableList, ObjectArray)) or (isinstance(x, np.ndarray) and x.dtype == object) else [])
        except Exception:
            kids = []
        for kid in kids:
            attack(ctx, kid, depth + 1)
    for t in tries:
        try:
            t()
            ctx.event("modifications_made")
        except Exception:
            ctx.event("modifications_refused")


def still_frozen(x):
    """what cannot be modified within a copy that should be mutable (items of sets have to be hashable)"""
    if isinstance(x, np.ndarray):
        bad = [] if x.flags.writeable else [x]
        return bad + ([b for i in x for b in still_frozen(i)] if x.dtype == object else [])
    if isinstance(x, (ReadOnlyTensor, ObjectArray, ImmutableDict, ImmutableList, ImmutableSet)):
        return [x]
    if isinstance(x, dict):
        return [b for v in x.values() for b in still_frozen(v)]
    if isinstance(x, list):
        return [b for v in x for b in still_frozen(v)]
    return []


class H:
    def __init__(self, real, store, idx, ro):
        self.real, self.store, self.idx, self.ro = real, store, list(idx), ro

    def content(self):
        return [self.store[i] for i in self.idx]


@scenario("C23", quick=400, thorough=12000, needs=["stored", "slice_views", "picked_copies", "readonly_views", "hostile_originals", "hostile_readback", "slice_assign", "overlapping_assign", "cloned", "pickled", "repeated", "numpy_roundtrip", "modifications_made", "modifications_refused", "readonly_refused"])
def histories(ctx):
    n = ctx.randint(1, 7)
    hs = [H(ObjectArray(n) if ctx.flip() else ObjectArray((n,)), [freeze(None)] * n, range(n), False)]

    def add(h):
        hs.append(h)
        if len(hs) > 7:
            hs.pop(ctx.randint(0, len(hs) - 2))

    def indexer(m):
        """(python/torch index, positions)"""
        k = ctx.choice(["slice", "slice", "list", "mask", "tensor", "nparr"])
        if k == "slice":
            a = ctx.choice([None, ctx.randint(-m - 1, m)])
            b = ctx.choice([None, ctx.randint(-m - 1, m)])
            s = slice(a, b, ctx.choice([None, 1, 2, 3]))
            return k, s, list(range(m))[s]
        if k == "mask":
            mk = [ctx.flip() for _ in range(m)]
            return k, torch.tensor(mk), [i for i in range(m) if mk[i]]
        pos = [ctx.randint(-m, m - 1) for _ in range(ctx.randint(1, m))]
        norm = [p % m for p in pos]
        if k == "list":
            return k, pos, norm
        if k == "tensor":
            return k, torch.tensor(pos), norm
        return k, np.array(pos), norm

    def verify(what):
        for h in hs:
            ctx.check(len(h.real) == len(h.idx), "length", f"after {what}: {len(h.real)} vs {len(h.idx)}")
            got = [freeze(x) for x in h.real]
            ctx.check(got == h.content(), f"content:{what}", lambda: f"after {what}: got {got}, expected {h.content()}")
            ctx.check(h.real.is_read_only == h.ro, f"read-only-flag:{what}", f"{h.real.is_read_only} vs {h.ro}")

    did = []
    for _ in range(ctx.randint(4, 14)):
        h = ctx.choice(hs)
        m = len(h.idx)
        op = ctx.choice(["set", "set", "set", "get", "slice", "pick", "ro", "assign", "assign", "overlap", "clone", "pickle", "attack", "repeat", "numpy", "meta", "badindex", "aliases"])
        did.append(op)
        if op == "set" and m:
            x = rand_obj(ctx)
            fx = freeze(x)
            i = ctx.randint(-m, m - 1)
            if h.ro:
                ctx.event("readonly_refused")
                ctx.raises(ValueError, lambda: h.real.__setitem__(i, x), "read-only-set", "")
            else:
                if ctx.flip():
                    h.real[i] = x
                else:
                    h.real.set_item(ctx.choice([i, np.int64(i), torch.tensor(i)]) if ctx.flip(0.3) else i, x)
                h.store[h.idx[i]] = fx
                ctx.event("stored")
                attack(ctx, x)
                ctx.event("hostile_originals")
        elif op == "get" and m:
            i = ctx.randint(-m, m - 1)
            x = h.real[i]
            ctx.check(freeze(x) == h.content()[i], "item", f"{x!r} vs {h.content()[i]}")
            attack(ctx, x)
            ctx.event("hostile_readback")
        elif op in ("slice", "pick") and m:
            k, ix, pos = indexer(m)
            if not pos:
                r = h.real[ix]
                ctx.check(len(r) == 0, "empty-slice", "")
                continue
            r = h.real[ix]
            if k == "slice":
                ctx.event("slice_views")
                add(H(r, h.store, [h.idx[p] for p in pos], h.ro))
                ctx.check(r.untyped_storage().data_ptr() == h.real.untyped_storage().data_ptr(), "storage:view", "a slice shares the storage of its source")
            else:
                ctx.event("picked_copies")
                c = [h.content()[p] for p in pos]
                add(H(r, c, range(len(c)), h.ro))
                ctx.check(r.untyped_storage().data_ptr() != h.real.untyped_storage().data_ptr(), "storage:pick", "picked items are a copy")
        elif op == "ro":
            add(H(h.real.get_read_only_view(), h.store, h.idx, True))
            ctx.event("readonly_views")
        elif op == "assign" and m:
            k, ix, pos = indexer(m)
            xs = [rand_obj(ctx, 1) for _ in pos]
            fz = [freeze(x) for x in xs]
            form = ctx.choice(["list", "tuple", "np", "oa", "gen"])
            if form == "np":
                v = np.empty(len(xs), dtype=object)
                for j, x in enumerate(xs):
                    v[j] = x
            elif form == "oa":
                v = ObjectArray(len(xs))
                for j, x in enumerate(xs):
                    v[j] = x
            else:
                v = {"list": xs, "tuple": tuple(xs), "gen": (x for x in xs)}[form]
            if h.ro:
                ctx.event("readonly_refused")
                ctx.raises(ValueError, lambda: h.real.__setitem__(ix, v), "read-only-assign", "")
            else:
                h.real[ix] = v
                for p, f in zip(pos, fz):
                    h.store[h.idx[p]] = f
                ctx.event("slice_assign")
                for x in xs:
                    attack(ctx, x)
                if form != "gen":
                    ctx.raises((TypeError, ValueError), lambda: h.real.__setitem__(ix, xs + [1]), "wrong-length", "assigning a sequence of another length")
        elif op == "overlap" and m >= 2 and not h.ro:
            L = ctx.randint(1, m - 1)
            a, b = ctx.randint(0, m - L), ctx.randint(0, m - L)
            vals = h.content()[a : a + L]
            h.real[b : b + L] = h.real[a : a + L]
            for j in range(L):
                h.store[h.idx[b + j]] = vals[j]
            ctx.event("overlapping_assign")
        elif op == "clone":
            how = ctx.choice(["clone", "copy", "deepcopy"])
            if how == "clone" and ctx.flip():
                r = h.real.clone()
                ctx.check(isinstance(r, np.ndarray) and r.dtype == object and r.flags.writeable, "clone-type", f"{type(r)}")
                ctx.check(freeze(r)[1:] == tuple(h.content()), "clone-content", lambda: f"{freeze(r)} vs {h.content()}")
                attack(ctx, r)
            else:
                r = {"clone": lambda: h.real.clone(preserve_read_only=True), "copy": lambda: copy.copy(h.real), "deepcopy": lambda: copy.deepcopy(h.real)}[how]()
                add(H(r, h.content(), range(m), h.ro))
            ctx.event("cloned")
        elif op == "pickle":
            f = io.BytesIO()
            if ctx.flip():
                pickle.dump(h.real, f)
                f.seek(0)
                r = pickle.load(f)
            else:
                torch.save(h.real, f)
                f.seek(0)
                r = torch.load(f, weights_only=False)
            add(H(r, h.content(), range(m), h.ro))
            ctx.event("pickled")
        elif op == "attack":
            if m:
                attack(ctx, h.real[ctx.randint(0, m - 1)])
        elif op == "repeat" and m:
            k = ctx.randint(1, 3)
            r = h.real.repeat(ctx.choice([k, (k,), [k]]))
            add(H(r, h.content() * k, range(m * k), False)) if m * k < 20 else None
            ctx.event("repeated")
            if not len(hs) or m * k >= 20:
                ctx.check([freeze(x) for x in r] == h.content() * k, "repeat", "")
        elif op == "numpy" and m:
            a = h.real.numpy()
            ctx.check(isinstance(a, np.ndarray) and a.dtype == object and freeze(a)[1:] == tuple(h.content()), "numpy-content", lambda: f"{a} vs {h.content()}")
            back = ObjectArray.from_numpy(a)
            attack(ctx, a)
            add(H(back, h.content(), range(m), False))
            ctx.event("numpy_roundtrip")
            ctx.raises((TypeError, ValueError), lambda: ObjectArray.from_numpy(np.zeros(3)), "from-numpy-dtype", "")
        elif op == "meta":
            r = h.real
            ctx.check(r.dtype is object and tuple(r.shape) == (m,) and tuple(r.size()) == (m,) and r.ndim == 1 and r.dim() == 1 and r.numel() == m and str(r.device) == "cpu", "meta", f"{r.shape} {r.dtype}")
        elif op == "badindex":
            for bad in (m, -m - 1, m + 5):
                ctx.raises(IndexError, lambda: h.real[bad], "index-accepted", f"index {bad} of {m}")
                ctx.raises((IndexError, ValueError), lambda: h.real.__setitem__(bad, 1), "index-accepted-set", f"index {bad} of {m}")
        elif op == "aliases" and m and not h.ro:
            # an object containing one mutable thing twice, and a thing referring to itself through a list
            inner = [1, 2]
            x = [inner, inner, {"k": inner}]
            i = ctx.randint(0, m - 1)
            h.real[i] = x
            h.store[h.idx[i]] = freeze([[1, 2], [1, 2], {"k": [1, 2]}])
            inner.append(3)
            x.append(4)
            back = h.real[i].clone()
            ctx.check(back[0] is back[1] and back[2]["k"] is back[0], "shared-reference", "an object referred to twice is one object in the mutable copy too")
            ctx.event("stored")
        verify(op)
    ctx.state(n, tuple(did), tuple(sorted((len(h.idx), h.ro) for h in hs)))
    ctx.sample(n=n, operations=did, content=hs[0].content())


@scenario("C23", quick=900, thorough=12000, needs=["containers", "equality", "lookups", "mutable_copies", "large_or_deep"])
def immutable_containers(ctx):
    x = rand_obj(ctx)
    if ctx.flip():
        n = ctx.randint(1, 4)
        x = ctx.choice([list, tuple, lambda i: dict(zip("abcd", i))])([rand_obj(ctx, 1) for _ in range(n)])
    elif ctx.flip(0.15):
        # many items, or many levels
        n = ctx.choice([40, 130, 300])
        x = ctx.choice([lambda: list(range(n)), lambda: {f"k{i}": [i] for i in range(n)}, lambda: {i for i in range(n)}, lambda: tuple({i} for i in range(n)), lambda: {i: i for i in range(n)}])()
        if ctx.flip():
            for _ in range(ctx.randint(1, 12)):
                x = ctx.choice([lambda: [x, 1], lambda: {"a": x}, lambda: (2, x)])()
        ctx.event("large_or_deep")
    f = freeze(x)
    im = as_immutable(x)
    ctx.check(freeze(im) == f, "as_immutable", lambda: f"{im!r} vs {x!r}")
    if isinstance(x, (list, tuple)):
        ctx.check(isinstance(im, ImmutableList), "type", f"{type(im)}")
        ctx.event("containers")
        try:
            pure = all(isinstance(i, (int, str, float, type(None))) for i in x)
        except Exception:
            pure = False
        if pure:
            ctx.event("equality")
            ctx.check(im == list(x) and not (im != list(x)), "eq", f"{im} {x}")
            ctx.check(im != list(x) + [1] and im != list(x)[:-1] if len(x) else True, "ne", f"{im} {x}")
            ctx.check(hash(im) == hash(as_immutable(list(x))), "hash", "")
            ctx.check(list(im + [5]) == list(x) + [5] and list([5] + im) == [5] + list(x), "concat", "")
            for i in range(-len(x), len(x)):
                ctx.check(im[i] == x[i], "index", "")
            ctx.raises(IndexError, lambda: im[len(x)], "index-range", "")
    elif isinstance(x, dict):
        ctx.event("containers")
        ctx.event("lookups")
        ctx.check(isinstance(im, ImmutableDict) and list(im.keys()) == list(x.keys()) and len(im) == len(x), "dict", f"{im} {x}")
        for k in x:
            ctx.check(k in im and freeze(im[k]) == freeze(x[k]) and freeze(im.get(k)) == freeze(x[k]), "dict-lookup", f"{k}")
        ctx.raises(KeyError, lambda: im["nope"], "dict-missing", "")
        ctx.raises(TypeError, lambda: as_immutable({2.5: 1}), "dict-key", "keys other than ints, strings and tuples")
    elif isinstance(x, set):
        ctx.event("containers")
        ctx.check(isinstance(im, ImmutableSet) and len(im) == len(x), "set", "")
        for i in x:
            ctx.check(i in im, "set-contains", f"{i} {im}")
        ctx.check("nope" not in im, "set-missing", "")
    if not isinstance(x, (np.ndarray, ObjectArray)):
        mu = mutable_copy(im)
        ctx.check(freeze(mu) == f, "mutable_copy", lambda: f"{mu!r} vs {x!r}")
        frozen = still_frozen(mu)
        ctx.check(not frozen, "mutable_copy-immutable", lambda: f"{frozen[:2]} within {mu!r}")
        attack(ctx, mu)
        ctx.event("mutable_copies")
    for cp in (copy.copy(im), copy.deepcopy(im), pickle.loads(pickle.dumps(im))):
        ctx.check(freeze(cp) == f, "copy", lambda: f"{cp!r} vs {x!r}")
        ctx.check(type(cp) is type(im), "copy-type", f"{type(cp)} vs {type(im)}")
        if not isinstance(im, np.ndarray) or not im.flags.writeable:
            if not isinstance(cp, np.ndarray):
                attack(ctx, cp)
                ctx.check(freeze(cp) == f, "copy-mutable", lambda: f"a copy of an immutable object could be changed: {cp!r}")
    attack(ctx, im)
    attack(ctx, x)
    ctx.check(freeze(im) == f, "changed", lambda: f"{im!r} vs {f}")
    ctx.state(f)
    ctx.sample(original=f, immutable=repr(im))


@scenario("C23", quick=60, thorough=1500, needs=["made"])
def making(ctx):
    n = ctx.randint(1, 5)
    xs = [rand_obj(ctx, 1) for _ in range(n)]
    fz = [freeze(x) for x in xs]
    v = xs
    if ctx.flip():
        v = np.empty(n, dtype=object)
        for i in range(n):
            v[i] = xs[i]
    t = make_tensor(v, dtype=object, read_only=ctx.flip())
    ctx.event("made")
    ctx.check(isinstance(t, ObjectArray) and [freeze(i) for i in t] == fz, "make_tensor", lambda: f"{t} vs {fz}")
    for x in xs:
        attack(ctx, x)
    for x in t:
        attack(ctx, x)
    if t.is_read_only:
        attack(ctx, t)
    ctx.check([freeze(i) for i in t] == fz, "make_tensor-changed", "")
    sl = ObjectArray(slice_of=(t, slice(0, n - 1)))
    ctx.check([freeze(i) for i in sl] == fz[: n - 1], "slice_of", "")
    ctx.check(sl.is_read_only == t.is_read_only, "slice_of-read-only", "")
    pick = ObjectArray(slice_of=(t, [n - 1, 0]))
    ctx.check([freeze(i) for i in pick] == [fz[n - 1], fz[0]], "slice_of-pick", "")
    if not pick.is_read_only:
        pick[0] = "changed"
        ctx.check([freeze(i) for i in t] == fz, "slice_of-pick-aliases", "")
    if not sl.is_read_only and n > 1:
        sl[0] = "seen"
        ctx.check(t[0] == "seen", "slice_of-view", "")
    ctx.raises(Exception, lambda: ObjectArray(slice_of=(t, 0)), "slice_of-int", "")
    ctx.raises(ValueError, lambda: ObjectArray(), "no-arguments", "")
    ctx.raises(ValueError, lambda: ObjectArray(3, slice_of=(t, slice(None))), "both-arguments", "")
    ctx.state(n, tuple(fz))
    ctx.sample(objects=fz)


@scenario("C23", quick=150, thorough=4000, needs=["produced:list", "produced:mapping", "produced:set", "produced:nested", "produced:array", "produced:scratch"])
def contents_produced_on_the_fly(ctx):
    """containers whose items exist only while they are being stored"""
    from collections.abc import Mapping, Sequence

    n = ctx.randint(3, 40)
    make = ctx.choice([lambda i: [i], lambda i: {"a": i}, lambda i: (i, [i + 1]), lambda i: torch.full((2,), i), lambda i: np.full(2, i), lambda i: {"a": [i, {"b": i}]}])
    want = [freeze(make(i)) for i in range(n)]

    class Items(Sequence):
        def __len__(self):
            return n

        def __getitem__(self, i):
            if not 0 <= i < n:
                raise IndexError(i)
            return make(i)

    class Table(Mapping):
        def __len__(self):
            return n

        def __iter__(self):
            return iter(range(n))

        def __getitem__(self, i):
            return make(i)

    def compare(got, what):
        got = [freeze(g) for g in got]
        ctx.check(got == want, f"confused:{what}", f"{sum(g != w for g, w in zip(got, want))} of {n} items differ ({len(got)} stored)")

    for rep in range(3):
        compare(as_immutable(make(i) for i in range(n)), "generator")
        compare(as_immutable(map(make, range(n))), "map")
        compare(ImmutableList(Items()), "sequence")
        ctx.event("produced:list")
        t = as_immutable(Table())
        compare([t[i] for i in range(n)], "mapping")
        d = ImmutableDict((str(i), make(i)) for i in range(n))
        compare([d[str(i)] for i in range(n)], "pairs")
        ctx.event("produced:mapping")
        s = ImmutableSet((i, "x") for i in range(n))
        ctx.check(len(s) == n and all((i, "x") in s for i in range(n)), "confused:set", f"{len(s)} of {n} items")
        ctx.event("produced:set")
        nest = as_immutable({"first": (make(i) for i in range(n)), "second": Items(), "third": [map(make, range(n))]})
        compare(nest["first"], "nested-first")
        compare(nest["second"], "nested-second")
        compare(nest["third"][0], "nested-third")
        ctx.event("produced:nested")
        o = ObjectArray(n)
        o[:] = Items() if ctx.flip() else (make(i) for i in range(n))
        compare(o, "array")
        o = ObjectArray(n)
        for i in range(n):
            o[i] = make(i)
        compare(o, "array-items")
        ctx.event("produced:array")
        o = ObjectArray(1)
        o[0] = (make(i) for i in range(n))
        compare(o[0], "array-generator")
        compare(mutable_copy(o[0]), "copy")
        ctx.event("produced:scratch")
    ctx.state(n, want[1][0])
    ctx.sample(items=n, kind=want[1][0])
