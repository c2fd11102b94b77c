"""C21: clones and pickles are equal to and independent of the original."""

import copy
import io
import pickle
import re
from collections import OrderedDict, defaultdict, namedtuple

import numpy as np
import torch
from evotorch import Problem, Solution, SolutionBatch
from evotorch.algorithms import SNES, GeneticAlgorithm
from evotorch.decorators import vectorized
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian
from evotorch.neuroevolution.net import RunningNorm, RunningStat
from evotorch.operators import GaussianMutation, OnePointCrossOver
from evotorch.optimizers import SGD, Adam, ClipUp
from evotorch.tools import ObjectArray, ReadOnlyTensor, clone
from evotorch.tools.cloning import Serializable, deep_clone
from evotorch.tools.immutable import ImmutableContainer

from checks.c23 import attack, rand_obj
from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import fingerprint

rule("C21", "A case is one object graph, population, solution, distribution, statistic or problem, duplicated by one of the supported ways, compared with its original and then modified on either side.")
ASSUMPTIONS = ["objective functions and hook functions themselves are code, not data: duplicates refer to the same function"]

NT = namedtuple("NT", ["left", "right"])


class Holder(Serializable):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def _get_cloned_state(self, *, memo):
        return deep_clone(self.__dict__, otherwise_deepcopy=True, memo=memo)


class Plain:
    """not known to the library"""

    def __init__(self, x):
        self.x = x


def ways(ctx, names=("clone", "copy", "deepcopy", "pickle", "torch.save")):
    w = ctx.choice(names)

    def dup(x):
        if w == "clone":
            return x.clone() if not isinstance(x, (ObjectArray,)) else x.clone(preserve_read_only=True)
        if w == "copy":
            return copy.copy(x)
        if w == "deepcopy":
            return copy.deepcopy(x)
        if w == "pickle":
            return pickle.loads(pickle.dumps(x))
        f = io.BytesIO()
        torch.save(x, f)
        f.seek(0)
        return torch.load(f, weights_only=False)

    ctx.event("way:" + w)
    return w, dup


def graph(x, seen=None, out=None):
    """content with sharing: every container and array gets a number at first visit, later visits refer to the number"""
    if seen is None:
        seen = {}
    if x is None or isinstance(x, (str, bytes, int, float, bool, complex, type)) or callable(x) and not isinstance(x, (Holder, Plain)):
        return ("v", repr(x) if not callable(x) else getattr(x, "__name__", "?"))
    if id(x) in seen:
        return ("ref", seen[id(x)][0])
    seen[id(x)] = (len(seen), x)
    n = seen[id(x)][0]
    if isinstance(x, torch.Tensor):
        return ("T", n, type(x).__name__, fingerprint(x))
    if isinstance(x, ObjectArray):
        return ("OA", n, x.is_read_only, tuple(graph(i, seen) for i in x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("ON", n, x.shape, x.flags.writeable, tuple(graph(i, seen) for i in x.ravel()))
        return ("N", n, x.flags.writeable, fingerprint(x))
    if isinstance(x, (Holder, Plain)):
        return ("H", n, type(x).__name__, tuple((k, graph(v, seen)) for k, v in x.__dict__.items()))
    if hasattr(x, "keys"):
        return ("D", n, type(x).__name__, repr(getattr(x, "default_factory", None)), tuple((repr(k), graph(x[k], seen)) for k in x.keys()))
    if isinstance(x, (set, frozenset)) or type(x).__name__ == "ImmutableSet":
        return ("S", n, type(x).__name__, tuple(sorted(repr(i) for i in x)))
    return ("L", n, type(x).__name__, tuple(graph(i, seen) for i in x))


def mutable_parts(x, out=None):
    """ids of everything in x that could be modified in place"""
    if out is None:
        out = {}
    if id(x) in out:
        return out
    if isinstance(x, torch.Tensor):
        if x.numel():
            out[id(x)] = x
    elif isinstance(x, ObjectArray):
        out[id(x)] = x
        for i in x:
            mutable_parts(i, out)
    elif isinstance(x, np.ndarray):
        out[id(x)] = x
        if x.dtype == object:
            for i in x.ravel():
                mutable_parts(i, out)
    elif isinstance(x, (Holder, Plain)):
        out[id(x)] = x
        for v in x.__dict__.values():
            mutable_parts(v, out)
    elif hasattr(x, "keys"):
        out[id(x)] = x
        for k in x.keys():
            mutable_parts(x[k], out)
    elif isinstance(x, (list, tuple)) or (isinstance(x, ImmutableContainer) and type(x).__name__ == "ImmutableList"):
        if isinstance(x, list):
            out[id(x)] = x
        for i in x:
            mutable_parts(i, out)
    elif isinstance(x, (set, bytearray)):
        out[id(x)] = x
    return out


def rand_graph(ctx, pool, depth=0):
    if pool and ctx.flip(0.25):
        return ctx.choice(pool)
    k = ctx.choice(["leaf", "leaf", "list", "dict", "odict", "ddict", "tuple", "nt", "set", "onp", "oa", "holder", "bytearray", "rotensor", "ronp", "param"] if depth < 3 else ["leaf"])
    sub = lambda: rand_graph(ctx, pool, depth + 1)
    n = ctx.randint(1, 3)
    if k == "leaf":
        x = rand_obj(ctx, 2)
    elif k == "list":
        x = [sub() for _ in range(n)]
    elif k == "dict":
        x = {ctx.choice(["a", 1, (2, "q")]): sub() for _ in range(n)}
    elif k == "odict":
        x = OrderedDict((str(i), sub()) for i in range(n, 0, -1))
    elif k == "ddict":
        x = defaultdict(list)
        x["z"] = sub()
    elif k == "tuple":
        x = tuple(sub() for _ in range(n))
    elif k == "nt":
        x = NT(sub(), sub())
    elif k == "set":
        x = {1, "a", (2, 3)}
    elif k == "onp":
        x = np.empty(n, dtype=object)
        for i in range(n):
            x[i] = sub()
    elif k == "oa":
        x = ObjectArray(n)
        for i in range(n):
            x[i] = rand_obj(ctx, 2)
        if ctx.flip(0.3):
            x = x.get_read_only_view()
    elif k == "holder":
        x = Holder(p=sub(), q=sub())
    elif k == "bytearray":
        x = bytearray(b"abc")
    elif k == "rotensor":
        x = torch.arange(4.0).as_subclass(ReadOnlyTensor)
    elif k == "ronp":
        x = ctx.choice([lambda: np.arange(3), lambda: np.array(2.5), lambda: np.arange(6).reshape(2, 3)[:, ::2], lambda: np.array([1, "a", None], dtype=object)])()
        x.flags.writeable = False
    else:
        x = torch.arange(20.0).reshape(4, 5)[1:3, ::2]
    if not isinstance(x, (int, float, str, bool, type(None))):
        pool.append(x)
    return x


def _strided_tensors(x):
    return [t for t in mutable_parts(x).values() if isinstance(t, torch.Tensor)]


@scenario("C21", quick=500, thorough=15000, needs=["graphs", "shared_inside", "clone_modified", "original_modified", "cyclic", "fallbacks"])
def object_graphs(ctx):
    pool = []
    x = [rand_graph(ctx, pool) for _ in range(ctx.randint(1, 4))]
    if ctx.flip(0.3):
        x.append(x)
        ctx.event("cyclic")
    if len(pool) > 1 and ctx.flip(0.3):
        holders = [p for p in pool if isinstance(p, (Holder,))]
        if holders:
            holders[0].me = holders[0]
            holders[0].root = x
            ctx.event("cyclic")
    before = graph(x)
    ctx.event("graphs")
    if "'ref'" in repr(before):
        ctx.event("shared_inside")
    hows = ["clone", "deep_clone", "holder.clone", "deepcopy-holder", "copy-holder"]
    if not any(isinstance(i, Holder) for i in pool):
        hows.append("pickle-holder")  # pickles of several library objects referring to each other: see nested_pickles
    how = ctx.choice(hows)
    if how == "clone":
        y = clone(x)
    elif how == "deep_clone":
        y = deep_clone(x, otherwise_deepcopy=True)
    else:
        h = Holder(x=x)
        y = {"holder.clone": lambda: h.clone(), "deepcopy-holder": lambda: copy.deepcopy(h), "copy-holder": lambda: copy.copy(h), "pickle-holder": lambda: pickle.loads(pickle.dumps(h))}[how]().x
    ctx.check(graph(x) == before, f"original-changed:{how}", "making a duplicate changed the original")
    got = graph(y)
    if how == "pickle-holder":
        # numpy does not keep the write protection of plain arrays in pickles
        strip = lambda g: re.sub(r"'ON', (\d+), (\([^)]*\)), (True|False)", r"'ON', \1, \2", re.sub(r"'N', (\d+), (True|False)", r"'N', \1", repr(g)))
        ctx.check(strip(got) == strip(before), f"content:{how}", lambda: f"{got} vs {before}")
    else:
        ctx.check(got == before, f"content:{how}", lambda: f"{got} vs {before}")
    a, b = mutable_parts(x), mutable_parts(y)
    common = [v for i, v in a.items() if i in b and b[i] is v]
    ctx.check(not common, f"shared:{how}", lambda: f"original and duplicate share {common[:3]}")
    ptrs = {t.as_subclass(torch.Tensor).untyped_storage().data_ptr() for t in _strided_tensors(x)}
    for t in _strided_tensors(y):
        ctx.check(t.as_subclass(torch.Tensor).untyped_storage().data_ptr() not in ptrs, f"shared-memory:{how}", "original and duplicate share tensor memory")
    for i, v in list(b.items()):
        attack(ctx, v, depth=9)
    ctx.event("clone_modified")
    ctx.check(graph(x) == before, f"leaks-to-original:{how}", lambda: f"{graph(x)} vs {before}")
    y2 = clone(x)
    snap = graph(y2)
    for i, v in list(a.items()):
        attack(ctx, v, depth=9)
    ctx.event("original_modified")
    ctx.check(graph(y2) == snap, "leaks-to-clone", lambda: f"{graph(y2)} vs {snap}")
    # fallbacks for unknown objects
    ctx.event("fallbacks")
    u = Plain([1])
    c = deep_clone([u, u], otherwise_deepcopy=True)
    ctx.check(c[0] is c[1] and c[0] is not u and c[0].x == [1] and c[0].x is not u.x, "fallback:deepcopy", "")
    ctx.check(deep_clone([u], otherwise_return=True)[0] is u, "fallback:return", "")
    ctx.raises(TypeError, lambda: deep_clone([u], otherwise_fail=True), "fallback:fail", "")
    ctx.raises(ValueError, lambda: deep_clone([u]), "fallback:none", "")
    ctx.raises(ValueError, lambda: deep_clone([u], otherwise_return=True, otherwise_fail=True), "fallback:two", "")
    ctx.state(how, before)
    ctx.sample(how=how, graph=before)


@scenario("C21", quick=150, thorough=3000, needs=["members_compared", "as_keys", "in_sets", "empty_containers"])
def hashed_members(ctx):
    """objects inside of sets and dictionary keys, and containers which are empty"""
    kind = ctx.choice([Holder, Plain])
    members = []
    for i in range(ctx.randint(1, 4)):
        h = kind(x=[i, torch.tensor([float(i)])])
        members.append(h)

    def wrap(h):
        return ctx.choice([lambda: h, lambda: (h, 1), lambda: ("k", (h,)), lambda: NT(h, 2)])()

    empties = {"b": bytearray(), "l": [], "d": {}, "o": OrderedDict(), "s": set(), "a": np.empty(0, dtype=object), "dd": defaultdict(list), "oa": ObjectArray(0), "t": torch.empty(0)}
    x = {"set": {wrap(h) for h in members}, "keys": {wrap(h): [j] for j, h in enumerate(members)}, "members": list(members), "empties": empties}
    if ctx.flip():
        x["frozen"] = frozenset(wrap(h) for h in members)
    how = ctx.choice(["clone", "deep_clone", "holder"])
    y = clone(x) if how == "clone" else deep_clone(x, otherwise_deepcopy=True) if how == "deep_clone" else Holder(x=x).clone().x

    def inner(k):
        while isinstance(k, tuple):
            k = [i for i in k if not isinstance(i, (int, str))][0]
        return k

    def shape(k):
        return type(k).__name__ + "(" + ",".join(shape(i) if isinstance(i, tuple) else repr(i) if isinstance(i, (int, str)) else f"m{i.x[0]}" for i in (k if isinstance(k, tuple) else [k])) + ")"

    ctx.check(set(x) == set(y), f"content:{how}", f"{list(y)}")
    for name in ("set", "keys", "frozen"):
        if name not in x:
            continue
        ctx.event("as_keys" if name == "keys" else "in_sets")
        ctx.check(type(y[name]) is type(x[name]) and y[name] is not x[name], f"content:{how}", f"{name}: {type(y[name])}")
        ctx.check(sorted(map(shape, y[name])) == sorted(map(shape, x[name])), f"content:{how}", lambda: f"{name}: {sorted(map(shape, y[name]))} for {sorted(map(shape, x[name]))}")
        for k in y[name]:
            m = inner(k)
            old = [h for h in members if h.x[0] == m.x[0]][0]
            ctx.event("members_compared")
            ctx.check(m is not old and m.x is not old.x and m.x[1].data_ptr() != old.x[1].data_ptr(), f"shared:{how}", f"{name}: the member {shape(k)} belongs to both original and duplicate")
            ctx.check(m is y["members"][m.x[0]], f"sharing:{how}", f"{name}: the member {shape(k)} is not the object found elsewhere in the duplicate")
            if name == "keys":
                ctx.check(y[name][k] == [m.x[0]], f"content:{how}", f"the value of {shape(k)} is {y[name][k]}")
    for name, e in empties.items():
        d = y["empties"][name]
        ctx.event("empty_containers")
        ctx.check(type(d) is type(e) and len(d) == 0, f"content:{how}", f"empty {name}: {d!r}")
        ctx.check(d is not e, f"shared:{how}", f"the empty {type(e).__name__} is shared by original and duplicate")
    ctx.state(how, kind.__name__, len(members), "frozen" in x)
    ctx.sample(how=how, kind=kind.__name__, keys=[shape(k) for k in x["keys"]])


def fit1(x):
    return torch.sum(x**2) + 1


@vectorized
def fitv(x):
    return torch.stack([torch.sum(x**2, dim=-1), torch.sum(x, dim=-1)], dim=-1)


def obj_fit(x):
    return float(len(repr(x)))


class ObjProblem(Problem):
    def __init__(self, **kw):
        super().__init__("max", dtype=object, **kw)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = {"k": [int(j) for j in self.make_randint(3, n=9, dtype=torch.int64)]}

    def _evaluate(self, s):
        s.set_evals(obj_fit(s.values))


class Rich(Problem):
    """a problem with attributes of its own, shared between themselves and referring back to the problem"""

    def __init__(self, n, seed, **kw):
        super().__init__(["min", "max"] if kw.pop("two") else "min", solution_length=n, seed=seed, **kw)
        self.log = []
        self.same_log = self.log
        self.table = defaultdict(int)
        self.weights = torch.arange(float(n))
        self.view_of_weights = self.weights
        self.me = self
        self.extra = np.array([[1], None], dtype=object)
        self.norm = RunningStat()

    def _evaluate_batch(self, batch):
        self.table["batches"] += 1
        self.log.append(len(batch))
        v = batch.access_values(keep_evals=True)
        f = torch.sum((v.to(torch.float64) - self.weights) ** 2, dim=-1)
        if len(self.senses) == 2:
            batch.set_evals(torch.stack([f, -2 * f], dim=-1).to(self.eval_dtype))
        else:
            batch.set_evals(f.to(self.eval_dtype))


HOOKED = []


def hook_fn(batch):
    return {"hooked": float(len(batch))}


def mk_problem(ctx):
    kind = ctx.choice(["fn", "vec2", "obj", "rich", "rich2", "int"])
    seed = ctx.randint(1, 10**6) if ctx.flip(0.8) else None
    n = ctx.randint(1, 4)
    if kind == "fn":
        b = ctx.choice([{"bounds": ([-3.0] * n, [2.0] * n)}, {"initial_bounds": (-1, 1)}, {"bounds": (-4.0, 5.0), "initial_bounds": (0.0, 1.0)}])
        p = Problem(ctx.choice(["min", "max"]), fit1, solution_length=n, seed=seed, dtype=ctx.choice([torch.float32, torch.float64]), **b)
    elif kind == "vec2":
        p = Problem(["max", "min"], fitv, solution_length=n, seed=seed, initial_bounds=(-2, 2), eval_dtype=torch.float64)
    elif kind == "obj":
        p = ObjProblem(seed=seed)
    elif kind == "int":
        p = Problem("min", fit1, solution_length=n, seed=seed, dtype=torch.int64, eval_dtype=torch.float32, bounds=(-5, 5))
    else:
        p = Rich(n, seed, two=kind == "rich2", initial_bounds=(-1, 1), store_solution_stats=True)
    return kind, p


def prob_state(p):
    d = {
        "senses": p.senses,
        "len": p.solution_length,
        "dtype": str(p.dtype),
        "eval_dtype": str(p.eval_dtype),
        "edl": p.eval_data_length,
        "device": str(p.device),
    }
    for k in ("lower_bounds", "upper_bounds", "initial_lower_bounds", "initial_upper_bounds"):
        v = getattr(p, k)
        d[k] = None if v is None else fingerprint(v)
    st = p.status
    for k in sorted(st.keys()):
        v = st[k]
        if isinstance(v, Solution):
            v = sol_state(v)
        elif isinstance(v, (list, tuple)):
            v = [sol_state(i) if isinstance(i, Solution) else repr(i) for i in v]
        else:
            v = repr(v)
        d["status:" + k] = v
    if isinstance(p, Rich):
        d["rich"] = graph([p.log, p.same_log, p.table, p.weights, p.view_of_weights, p.extra])
        d["me"] = p.me is p
    return d


def sol_state(s):
    return ("sol", fingerprint(np.asarray(0)) if s is None else repr(s.values) if not isinstance(s.values, torch.Tensor) else fingerprint(s.values), fingerprint(s.evals))


def batch_state(b):
    vals = [repr(v) for v in b.values] if b.dtype is object else fingerprint(b.values)
    return (len(b), repr(vals), fingerprint(b.evals), tuple(b.senses if hasattr(b, "senses") else ()), str(b.dtype), str(b.eval_dtype))


@scenario("C21", quick=250, thorough=6000, needs=["problems", "evaluated_before", "random_state", "used_for_search", "way:clone", "way:copy", "way:deepcopy", "way:pickle", "way:torch.save"])
def problems(ctx):
    kind, p = mk_problem(ctx)
    if ctx.flip(0.3):
        p.after_eval_hook.append(hook_fn)
    if ctx.flip(0.8):
        for _ in range(ctx.randint(1, 2)):
            p.evaluate(p.generate_batch(ctx.randint(1, 5)))
        ctx.event("evaluated_before")
    w, dup = ways(ctx)
    before = prob_state(p)
    gstate = None if p.generator is None else p.generator.get_state().clone()
    q = dup(p)
    ctx.event("problems")
    ctx.check(type(q) is type(p) and q is not p, "type", f"{type(q)}")
    ctx.check(prob_state(p) == before, f"original-changed:{w}", lambda: f"{prob_state(p)} vs {before}")
    got = prob_state(q)
    for k in before:
        ctx.check(got.get(k) == before[k], f"content:{k}:{w}", lambda: f"{k}: {got.get(k)} vs {before[k]}")
    ctx.check(set(got) == set(before), f"content:keys:{w}", f"{set(got) ^ set(before)}")
    ctx.check(len(q.after_eval_hook) == len(p.after_eval_hook), f"hooks:{w}", "")
    # random state
    ctx.check((q.generator is None) == (p.generator is None), f"generator:{w}", "")
    if p.generator is not None:
        ctx.event("random_state")
        ctx.check(q.generator is not p.generator, f"generator-shared:{w}", "")
        ctx.check(torch.equal(p.generator.get_state(), gstate), f"generator-advanced:{w}", "duplicating drew random numbers")
        a = q.generate_batch(4)
        ctx.check(torch.equal(p.generator.get_state(), gstate), f"generator-leaks:{w}", "drawing from the duplicate advanced the original")
        b = p.generate_batch(4)
        ctx.check(batch_state(a) == batch_state(b), f"random-sequence:{w}", lambda: f"{a.values} vs {b.values}")
    # the duplicate is usable, and what happens to it stays there
    before = prob_state(p)
    b = q.generate_batch(6)
    q.evaluate(b)
    if isinstance(p, Rich):
        q.weights += 100.0
        ctx.check(float(q.view_of_weights[0]) == 100.0, f"sharing-lost:{w}", "two attributes referring to one tensor do so in the duplicate too")
        q.extra[0].append(5)
        q.table["new"] += 1
    q.after_eval_hook.append(hook_fn)
    q.before_eval_hook.append(lambda b: None)
    n_hooks = len(p.before_eval_hook)
    ctx.check(n_hooks == 0, f"hooks-shared:{w}", "a hook added to the duplicate appeared in the original")
    ctx.check(prob_state(p) == before, f"leaks-to-original:{w}", lambda: f"{prob_state(p)} vs {before}")
    if p.solution_length is not None and kind != "int" and len(p.senses) == 1 and p.lower_bounds is None:
        alg = SNES(q, stdev_init=0.5, popsize=4)
        alg.run(2)
        ctx.check(alg.step_count == 2, "search", "")
        ctx.event("used_for_search")
    elif kind in ("vec2", "rich2") and p.solution_length > 1:
        alg = GeneticAlgorithm(q, operators=[OnePointCrossOver(q, tournament_size=2), GaussianMutation(q, stdev=0.1)], popsize=4)
        alg.run(2)
        ctx.event("used_for_search")
    ctx.check(prob_state(p) == before, f"leaks-to-original-search:{w}", lambda: f"{prob_state(p)} vs {before}")
    bq = prob_state(q)
    p.evaluate(p.generate_batch(3))
    if isinstance(p, Rich):
        p.weights -= 7
        p.log.append("x")
    ctx.check(prob_state(q) == bq, f"leaks-to-duplicate:{w}", lambda: f"{prob_state(q)} vs {bq}")
    ctx.state(kind, w, len(p.senses), gstate is None)
    ctx.sample(kind=kind, way=w, state=got)


@scenario("C21", quick=250, thorough=6000, needs=["batches", "solutions", "with_problem"])
def populations(ctx):
    kind, p = mk_problem(ctx)
    n = ctx.randint(1, 6)
    b = p.generate_batch(n)
    ev = ctx.choice(["all", "none", "part"])
    if ev == "all":
        p.evaluate(b)
    elif ev == "part" and n > 1:
        p.evaluate(b[: n // 2])
    form = ctx.choice(["whole", "slice", "step", "pick", "solution"])
    x = {"whole": lambda: b, "slice": lambda: b[n // 2 :], "step": lambda: b[::2], "pick": lambda: b[[n - 1, 0]], "solution": lambda: b[n - 1]}[form]()
    w, dup = ways(ctx)
    state = sol_state if form == "solution" else batch_state
    before, base = state(x), batch_state(b)
    y = dup(x)
    ctx.event("solutions" if form == "solution" else "batches")
    ctx.check(type(y) is type(x), "type", f"{type(y)}")
    ctx.check(state(y) == before, f"content:{form}:{w}", lambda: f"{state(y)} vs {before}")
    ctx.check(state(x) == before and batch_state(b) == base, f"original-changed:{w}", "")

    def scramble(z):
        if form == "solution":
            z.set_values(clone(z.values) if b.dtype is object else (torch.as_tensor(z.values).clone() + 1 if z.values is not None else z.values)) if b.dtype is not object else z.set_values([9, 9])
            z.set_evals(torch.full((len(z.evals),), 3.0, dtype=z.evals.dtype))
        else:
            if b.dtype is object:
                z.access_values()[0] = ["changed"]
            else:
                z.access_values().add_(1)
            z.access_evals().fill_(5.0)

    scramble(y)
    ctx.check(state(y) != before, "scramble", "")
    ctx.check(state(x) == before and batch_state(b) == base, f"leaks-to-original:{form}:{w}", "changing the duplicate changed the original")
    y = dup(x)
    scramble(x)
    ctx.check(state(y) == before, f"leaks-to-duplicate:{form}:{w}", "changing the original changed the duplicate")
    # the duplicate can be evaluated by the problem, in place
    if form == "solution":
        y.set_values([1] if b.dtype is object else torch.zeros(p.solution_length, dtype=p.dtype))
        p.evaluate(y)
        ctx.check(y.is_evaluated, "evaluate-duplicate", "")
    else:
        y.access_values()
        p.evaluate(y)
        ctx.check(not bool(torch.isnan(y.evals[:, : len(p.senses)]).any()), "evaluate-duplicate", "")
        both = SolutionBatch.cat([y, b])
        ctx.check(len(both) == len(y) + len(b), "cat", "")
    # duplicated together with other things
    ctx.event("with_problem")
    pair = Holder(problem=p, batch=b, same=b, sol=b[0])
    q = dup(pair) if w != "clone" else pair.clone()
    ctx.check(q.batch is q.same and q.batch is not b and q.problem is not p, f"pair-sharing:{w}", "")
    ctx.check(batch_state(q.batch) == batch_state(b), f"pair-content:{w}", "")
    ctx.state(kind, form, w, ev, n)
    ctx.sample(kind=kind, form=form, way=w, n=n)


@scenario("C21", quick=150, thorough=3000, needs=["distributions", "norms", "stats", "optimizer_kept"])
def distributions_and_statistics(ctx):
    n = ctx.randint(1, 4)
    mu = torch.tensor(ctx.np.normal(size=n))
    sg = torch.tensor(ctx.np.uniform(0.5, 2, size=n))
    C = ctx.choice([SeparableGaussian, SymmetricSeparableGaussian, ExpSeparableGaussian, ExpGaussian])
    if C is ExpGaussian:
        a = ctx.np.normal(size=(n, n))
        d = C({"mu": mu, "sigma": torch.tensor(a @ a.T + n * np.eye(n))}, dtype=torch.float64)
    else:
        d = C({"mu": mu, "sigma": sg}, dtype=torch.float64)
    w, dup = ways(ctx)
    st = lambda x: (type(x).__name__, x.solution_length, str(x.dtype), {k: fingerprint(v) for k, v in x.parameters.items()})
    before = st(d)
    e = dup(d)
    ctx.event("distributions")
    ctx.check(st(e) == before, f"distribution:{w}", f"{st(e)} vs {before}")
    g = torch.Generator().manual_seed(3)
    s1 = d.sample(4, generator=g)
    g = torch.Generator().manual_seed(3)
    s2 = e.sample(4, generator=g)
    ctx.same(s1, s2, f"distribution-sample:{w}", "")
    for v in e.parameters.values():
        if isinstance(v, torch.Tensor):
            try:
                v.fill_(99.0)
            except Exception:
                pass
    ctx.check(st(d) == before, f"distribution-leaks:{w}", "")
    # optimizer objects inside a cloned container keep their own state
    ctx.event("optimizer_kept")
    o = ctx.choice([lambda: Adam(solution_length=n, dtype="float64", stepsize=0.1), lambda: ClipUp(solution_length=n, dtype="float64", stepsize=0.1), lambda: SGD(solution_length=n, dtype="float64", stepsize=0.1, momentum=0.9)])()
    gr = [torch.tensor(ctx.np.normal(size=n)) for _ in range(3)]
    o.ascent(gr[0])
    o2 = clone(o)
    a2 = o2.ascent(gr[1])
    a1 = o.ascent(gr[1])
    ctx.close(a2, a1, "optimizer-clone", "the step after cloning an optimizer", rtol=1e-9, atol=1e-12)
    # running statistics
    r = RunningNorm(shape=n, dtype="float64", device="cpu")
    r.update(torch.tensor(ctx.np.normal(size=(5, n))))
    ctx.event("norms")
    w2, dup2 = ways(ctx, ("copy", "deepcopy", "pickle", "torch.save"))
    r2 = dup2(r)
    ctx.check(r2.count == r.count, f"norm-count:{w2}", "")
    ctx.same(r2.mean, r.mean, f"norm-mean:{w2}", "")
    ctx.same(r2.stdev, r.stdev, f"norm-stdev:{w2}", "")
    m, c = to_np(r.mean).copy(), r.count
    r2.update(torch.full((n,), 50.0, dtype=torch.float64))
    ctx.check(r.count == c and np.array_equal(to_np(r.mean), m), f"norm-leaks:{w2}", "updating the duplicate changed the original")
    s = RunningStat()
    for _ in range(ctx.randint(0, 4)):
        s.update(ctx.np.normal(size=n))
    ctx.event("stats")
    t = dup2(s)
    ctx.check(t.count == s.count, f"stat-count:{w2}", "")
    c = s.count
    if c:
        ctx.close(t.mean, s.mean, f"stat-mean:{w2}", "")
        m = s.mean.copy()
    t.update(np.full(n, 9.0))
    ctx.check(s.count == c and t.count == c + 1 and (not c or np.array_equal(s.mean, m)), f"stat-leaks:{w2}", "")
    ctx.state(C.__name__, w, w2, n, type(o).__name__)
    ctx.sample(distribution=C.__name__, way=w, n=n)


@scenario("C21", quick=4, thorough=4, needs=["nested"])
def nested_pickles(ctx):
    """library objects inside library objects within one pickle"""
    ctx.event("nested")
    if ctx.index % 2 == 0:
        t = torch.arange(3.0)
        y = pickle.loads(pickle.dumps(Holder(t=t, inner=Holder(t=t))))
        ctx.check(torch.equal(y.t, y.inner.t), "pickle:nested-content", "")
        ctx.check(y.t is y.inner.t, "pickle:nested-sharing", "a tensor shared by an object and a serializable object inside it is two tensors after unpickling")
    else:
        a, b = Holder(), Holder()
        a.other, b.other = b, a
        try:
            y = pickle.loads(pickle.dumps(a))
        except RecursionError:
            ctx.fail("pickle:cycle", "two serializable objects referring to each other cannot be pickled")
        ctx.check(y.other.other is y, "pickle:cycle", "")


def net_fit(net):
    return sum((k + 1) * p.sum() for k, p in enumerate(net.parameters()))


def ne_problem(ctx):
    from evotorch.neuroevolution import GymNE, NEProblem, SupervisedNE

    kind = ctx.choice(["ne-string", "ne-module", "ne-callable", "supervised", "gym"])
    seed = ctx.choice([None, 11])
    if kind == "supervised":
        data = torch.utils.data.TensorDataset(torch.randn(12, 3), torch.randn(12, 2))
        return kind, SupervisedNE(data, "Linear(3, 2)", torch.nn.MSELoss(), minibatch_size=12, common_minibatch=ctx.flip())
    if kind == "gym":
        return kind, GymNE("CartPole-v1", "Linear(obs_length, act_length, bias=False)", observation_normalization=ctx.flip(), env_config={}, episode_length=6)
    net = {"ne-string": "Linear(3, 2) >> Tanh() >> Linear(2, 1)", "ne-module": torch.nn.Linear(3, 2), "ne-callable": make_module}[kind]
    return kind, NEProblem(ctx.choice(["min", "max"]), net, net_fit, seed=seed)


def make_module():
    return torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.ReLU())


@scenario("C21", quick=40, thorough=800, needs=["ne-string", "ne-module", "ne-callable", "supervised", "gym", "used_before"])
def neuroevolution(ctx):
    """copies of neuro-evolution problems can be used like the original, also when made after an evaluation"""
    kind, p = ne_problem(ctx)
    ctx.event(kind)
    b = p.generate_batch(3)
    vals = to_np(b.values).copy()
    used = ctx.flip(0.7)
    if used:
        p.evaluate(b)
        ctx.event("used_before")
    b2 = p.generate_batch(3)
    b2.set_values(torch.as_tensor(vals))
    for name, fn in [ways(ctx), ways(ctx)]:
        q = fn(p)
        ctx.note(kind, name)
        c = q.generate_batch(3)
        c.set_values(torch.as_tensor(vals))
        q.evaluate(c)
        p.evaluate(b2)
        if kind != "gym":
            ctx.close(c.evals, to_np(b2.evals), "ne-fitness", f"fitnesses computed by a copy ({name}) of a {kind} problem", rtol=1e-4, atol=1e-4)
        else:
            ctx.check(bool(torch.isfinite(c.evals).all()), "ne-fitness", "")
        ctx.check(q.solution_length == p.solution_length, "ne-length", "")
        n1, n2 = p.make_net(vals[0]), q.make_net(vals[0])
        for (k1, v1), (k2, v2) in zip(n1.state_dict().items(), n2.state_dict().items()):
            ctx.same(v2, to_np(v1), "ne-network", f"parameter {k1} of the network made by a copy")
        ctx.state(kind, name, used)
    ctx.sample(kind=kind, used=used)
