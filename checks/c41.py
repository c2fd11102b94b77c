"""C41: a neuroevolution problem scores each solution by a network which has exactly its parameters."""

import copy
import pickle

import numpy as np
import torch
from evotorch import Solution
from evotorch.algorithms import PGPE, SNES, GeneticAlgorithm
from evotorch.decorators import pass_info
from evotorch.neuroevolution import NEProblem
from evotorch.operators import GaussianMutation
from torch import nn

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C41", "A case is one NEProblem (network, evaluator, senses, extra data): every network handed to the evaluator is compared with the solution it was made for, every stored fitness with what the evaluator returned for it.")
ASSUMPTIONS = ["devices other than cpu are not available here", "an evaluator may change the network it gets, but does not keep it"]


class Tied(nn.Module):
    """the same weights used twice"""

    def __init__(self, n=2):
        super().__init__()
        self.a = nn.Linear(n, n)
        self.b = self.a
        self.c = nn.Linear(n, 1)
        self.register_buffer("shift", torch.ones(1))

    def forward(self, x):
        return self.c(torch.tanh(self.b(torch.tanh(self.a(x))))) + self.shift


class Sized(nn.Module):
    """made from arguments"""

    def __init__(self, n, *, hidden=3, bias=True):
        super().__init__()
        self.l1, self.l2 = nn.Linear(n, hidden, bias=bias), nn.Linear(hidden, 1)

    def forward(self, x):
        return self.l2(torch.tanh(self.l1(x)))


@pass_info
class Informed(nn.Module):
    def __init__(self, width, *, hidden=2, **kw):
        super().__init__()
        self.l1, self.l2 = nn.Linear(width, hidden), nn.Linear(hidden, 1)

    def forward(self, x):
        return self.l2(torch.relu(self.l1(x)))


@pass_info
class Informed2(nn.Sequential):
    def __init__(self, width, out):
        super().__init__(nn.Linear(2, width), nn.Linear(width, out))


class WithInfo(NEProblem):
    """offers information to networks which ask for it, and constants to strings"""

    @property
    def _network_constants(self):
        return {"width": 2}

    @property
    def _str_network_constants(self):
        return {"height": 3}


def networks(ctx):
    """-> (argument, keyword arguments, class of the problem, a fresh network of the same shape)"""
    kind = ctx.choice(["string", "string_args", "module", "module64", "class", "class_args", "function", "lambda_args", "informed", "string_info", "tied", "args_win"])
    h = ctx.randint(1, 4)
    bias = ctx.flip()
    if kind == "string":
        return kind, f"Linear(2, {h}) >> Tanh() >> Linear({h}, 1)", {}, NEProblem, nn.Sequential(nn.Linear(2, h), nn.Tanh(), nn.Linear(h, 1))
    if kind == "string_args":
        return kind, "Linear(n, m, bias=b) >> ReLU() >> Linear(m, 1)", {"network_args": {"n": 2, "m": h, "b": bias}}, NEProblem, nn.Sequential(nn.Linear(2, h, bias=bias), nn.ReLU(), nn.Linear(h, 1))
    if kind in ("module", "module64"):
        net = nn.Sequential(nn.Linear(2, h), nn.Sigmoid(), nn.Linear(h, 1))
        if kind == "module64":
            net = net.double()
        return kind, net, {}, NEProblem, copy.deepcopy(net)
    if kind == "class":
        return kind, Tied, {}, NEProblem, Tied()
    if kind == "class_args":
        return kind, Sized, {"network_args": {"n": 2, "hidden": h, "bias": bias}}, NEProblem, Sized(2, hidden=h, bias=bias)
    if kind == "function":
        return kind, (lambda: Sized(2, hidden=h)), {}, NEProblem, Sized(2, hidden=h)
    if kind == "lambda_args":
        return kind, (lambda k, hidden: Sized(k, hidden=hidden)), {"network_args": {"k": 2, "hidden": h}}, NEProblem, Sized(2, hidden=h)
    if kind == "informed":
        return kind, Informed, {"network_args": {"hidden": h}}, WithInfo, Informed(2, hidden=h)
    if kind == "args_win":
        # what the user says has priority over what the problem knows
        return kind, ctx.choice(["Linear(2, width) >> Linear(width, out)", Informed2]), {"network_args": {"width": h, "out": 1}}, WithInfo, nn.Sequential(nn.Linear(2, h), nn.Linear(h, 1))
    if kind == "string_info":
        return kind, "Linear(width, height) >> Tanh() >> Linear(height, out)", {"network_args": {"out": 1}}, WithInfo, nn.Sequential(nn.Linear(2, 3), nn.Tanh(), nn.Linear(3, 1))
    return kind, Tied(), {}, NEProblem, Tied()


def flat(net):
    return np.concatenate([np.array(to_np(p.detach()), dtype=float).reshape(-1) for p in net.parameters()])


PROBE = torch.tensor([[0.5, -1.0], [2.0, 0.25], [0.0, 0.0]], dtype=torch.float64)


def outputs(template, row):
    """reference: the network of this shape with these parameters, in float64"""
    net = copy.deepcopy(template).double()
    at = 0
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.as_tensor(row[at : at + p.numel()]).reshape(p.shape))
            at += p.numel()
        return to_np(net(PROBE)).reshape(-1)


@scenario(
    "C41",
    quick=400,
    thorough=6000,
    needs=["evaluated", "multi", "extra_data", "tuple", "python_float", "overridden", "tampering", "string", "string_args", "module", "module64", "class", "class_args", "function", "lambda_args", "informed", "string_info", "tied", "made_net", "cloned", "pickled", "reevaluated", "single", "searched", "arguments_changed", "arguments_win", "eval_mode"],
)
def scored(ctx):
    kind, network, kw, cls, template = networks(ctx)
    ctx.event("arguments_win" if kind == "args_win" else kind)
    nobj = ctx.choice([1, 1, 2, 3])
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    edl = ctx.choice([0, 0, 2])
    dtype = next(template.parameters()).dtype
    ev = ctx.choice([None, torch.float32, torch.float64])
    if ev is not None:
        kw["eval_dtype"] = ev
    if edl or ctx.flip():
        kw["eval_data_length"] = edl
    length = sum(p.numel() for p in template.parameters())
    bounds = None
    if ctx.flip(0.8):
        lo, hi = ctx.choice([(-1.0, 1.0), (0.5, 2.0), (-3.0, -1.0)])
        if ctx.flip(0.3):
            lo, hi = [lo] * length, [hi] * length
        kw["initial_bounds"] = bounds = (lo, hi)
    form = ctx.choice(["tensor", "python", "detached"]) if nobj == 1 and not edl else "tuple" if edl else "tensor"
    tamper = ctx.choice([None, None, "zero", "train", "grad"])
    if tamper:
        ctx.event("tampering")
    seen, returned = [], []

    def score(net):
        """records the network, answers with numbers which depend on its outputs"""
        with torch.no_grad():
            y = to_np(net(PROBE.to(dtype)).detach()).astype(float).reshape(-1)
        seen.append((flat(net), y.copy(), id(net)))
        fits = [float(y.sum() + (k + 1) * y[0] ** 2) for k in range(nobj)]
        data = [float(y[1]), float(len(seen))][:edl]
        returned.append((fits, data))
        if tamper == "zero":
            with torch.no_grad():
                for p in net.parameters():
                    p.zero_()
        elif tamper == "train":
            opt = torch.optim.SGD(net.parameters(), lr=0.1)
            net(PROBE.to(dtype)).pow(2).sum().backward()
            opt.step()
        elif tamper == "grad":
            net(PROBE.to(dtype)).sum().backward()
        if form == "python":
            ctx.event("python_float")
            return fits[0]
        t = torch.tensor(fits, dtype=torch.float64)
        t = t[0] if nobj == 1 else t
        if form == "tuple":
            ctx.event("tuple")
            return t, torch.tensor(data, dtype=torch.float64)
        return t

    own = ctx.flip(0.35)
    if own:
        base = cls

        class Scored(base):
            def _evaluate_network(self, net):
                return score(net)

        ctx.event("overridden")
        p = Scored(senses if nobj > 1 else senses[0], network, seed=ctx.randint(0, 999), **kw)
    else:
        p = cls(senses if nobj > 1 else senses[0], network, score, seed=ctx.randint(0, 999), **kw)
    ctx.note(kind, f"nobj={nobj} edl={edl} form={form} tamper={tamper} own={own}")

    if "network_args" in kw and ctx.flip():
        # the caller goes on using its dictionary
        kw = {**kw, "network_args": dict(given_args := kw["network_args"])}
        for k in given_args:
            given_args[k] = 9
        given_args["more"] = 1
        ctx.event("arguments_changed")

    # the declaration
    ctx.check(p.solution_length == length, "length", f"{p.solution_length} instead of {length} parameters")
    ctx.check(p.dtype == dtype, "dtype", f"{p.dtype}, the network has {dtype}")
    want_ev = ev or (dtype if dtype in (torch.float64, torch.float16) else torch.float32)
    ctx.check(p.eval_dtype == want_ev, "eval_dtype", f"{p.eval_dtype} instead of {want_ev}")
    ctx.check(list(p.senses) == senses and p.eval_data_length == edl, "declaration", f"{p.senses} {p.eval_data_length}")
    ctx.check(p.lower_bounds is None and p.upper_bounds is None, "bounds", "a problem without limits")
    b = p.generate_batch(ctx.randint(1, 5))
    lo, hi = bounds or (-0.00001, 0.00001)
    vals = np.array(to_np(b.values), dtype=float)
    ctx.check((vals >= np.asarray(lo) - 1e-6).all() and (vals <= np.asarray(hi) + 1e-6).all(), "initial", lambda: f"initial parameters {vals.min()}..{vals.max()} out of {lo}..{hi}")
    if bounds is None:
        ctx.check((np.abs(vals) <= 1.1e-5).all(), "initial", "default initial parameters")
    b.set_values(torch.tensor(ctx.np.normal(size=vals.shape), dtype=dtype))
    vals = np.array(to_np(b.values), dtype=float)

    def judge(batch, rows, what):
        """everything the evaluator saw and returned since the last call, against the population"""
        ctx.check(len(seen) == len(rows), "calls", f"{what}: {len(seen)} evaluations of {len(rows)} solutions")
        for i, (row, (w, y, _), (fits, data)) in enumerate(zip(rows, seen, returned)):
            ctx.same(w, row, "parameters", f"{what}: the network of solution {i}")
            ctx.close(y, outputs(template, row), "outputs", f"{what}: outputs of the network of solution {i}", rtol=1e-3, atol=1e-4)
            e = np.array(to_np(batch.evals), dtype=float).reshape(len(rows), -1)[i]
            ctx.close(e, fits + data, "fitness", f"{what}: stored for solution {i}", rtol=1e-6 if want_ev is torch.float64 else 1e-5)
            ctx.event("evaluated")
        ctx.same(np.array(to_np(batch.values), dtype=float).reshape(rows.shape), rows, "values", f"{what}: parameters of the population")
        seen.clear()
        returned.clear()

    p.evaluate(b)
    judge(b, vals, "first evaluation")
    if nobj > 1:
        ctx.event("multi")
    if edl:
        ctx.event("extra_data")
    if ctx.flip():
        v = torch.tensor(ctx.np.normal(size=vals.shape), dtype=dtype)
        b.set_values(v)
        p.evaluate(b)
        judge(b, np.array(to_np(v), dtype=float), "new values")
        vals = np.array(to_np(v), dtype=float)
        ctx.event("reevaluated")
    if ctx.flip():
        i = ctx.randint(0, len(b) - 1)
        one = b[i]
        p.evaluate(one)
        judge(one, vals[i : i + 1], "one solution")
        ctx.event("single")

    # networks for the user
    i = ctx.randint(0, len(b) - 1)
    given = ctx.choice([lambda: b[i], lambda: b.values[i], lambda: torch.tensor(vals[i], dtype=dtype), lambda: vals[i].copy(), lambda: list(map(float, vals[i]))])()
    with Frozen(ctx, "given", given=given if not isinstance(given, Solution) else 0, values=b.values, evals=b.evals):
        net = p.make_net(given)
        ctx.same(flat(net), vals[i], "made", "make_net")
        again = p.make_net(vals[0])
        with torch.no_grad():
            for q in again.parameters():
                q.fill_(7.0)
        ctx.same(flat(net), vals[i], "made", "a network made earlier, after another was made and changed")
        filled = p.parameterize_net(torch.tensor(vals[i], dtype=dtype))
        ctx.same(flat(filled), vals[i], "made", "parameterize_net")
        with torch.no_grad():
            for q in filled.parameters():
                q.zero_()
        ctx.same(flat(net), vals[i], "made", "a network made earlier, after parameterize_net")
        if ctx.flip():
            p.parameterize_net(torch.tensor(vals[i], dtype=dtype)).eval()
            ctx.event("eval_mode")
            one, two = p.make_net(vals[i]), p.make_net(vals[0])
            ctx.same(flat(one), vals[i], "made", "the first of two networks made after one was put into evaluation mode")
            p.parameterize_net(torch.zeros(length, dtype=dtype))
            ctx.same(flat(two), vals[0], "made", "a network made earlier, after parameterize_net")
    with torch.no_grad():
        ctx.close(to_np(net(PROBE.to(dtype))).reshape(-1), outputs(template, vals[i]), "made", "outputs of make_net", rtol=1e-3, atol=1e-4)
    ctx.raises(Exception, lambda: p.make_net(torch.zeros(length + 1, dtype=dtype)), "too-long", "too many parameters")
    if length > 1:
        ctx.raises(Exception, lambda: p.make_net(torch.zeros(length - 1, dtype=dtype)), "too-short", "too few parameters")
    ctx.event("made_net")
    consts = p.network_constants()
    ctx.check(consts == {**({"width": 2} if cls is WithInfo else {}), **kw.get("network_args", {})}, "constants", f"{consts}")

    # copies of the problem
    which = ctx.choice(["clone", "deepcopy", "pickle", "search"])
    if which in ("clone", "deepcopy") or (which == "pickle" and not own and kind in ("string", "string_args")):
        if which == "pickle":
            q = pickle.loads(pickle.dumps(NEProblem(senses if nobj > 1 else senses[0], network, None, seed=1, **kw)))
            net = q.make_net(vals[0])
            ctx.same(flat(net), vals[0], "made", "make_net of an unpickled problem")
            ctx.event("pickled")
        else:
            q = p.clone() if which == "clone" else copy.deepcopy(p)
            b2 = q.generate_batch(2)
            q.evaluate(b2)
            judge(b2, np.array(to_np(b2.values), dtype=float), which)
            first = p.make_net(vals[0])
            q.parameterize_net(torch.zeros(length, dtype=dtype))
            ctx.same(flat(first), vals[0], "made", "networks of the original, after using the copy")
            ctx.event("cloned")
    elif which == "search" and nobj == 1:
        algo = ctx.choice(["pgpe", "snes", "ga"])
        s = {
            "pgpe": lambda: PGPE(p, popsize=4, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=0.3),
            "snes": lambda: SNES(p, popsize=4, stdev_init=0.3),
            "ga": lambda: GeneticAlgorithm(p, popsize=4, operators=[GaussianMutation(p, stdev=0.2)], elitist=False, re_evaluate=False),
        }[algo]()
        for _ in range(3):
            s.step()
            pop = s.population
            rows = {r.tobytes(): e for r, e in zip(np.array(to_np(pop.values), dtype=float), np.array(to_np(pop.evals), dtype=float))}
            matched = 0
            for (w, y, _), (fits, data) in zip(seen, returned):
                ctx.close(y, outputs(template, w), "outputs", f"{algo}: outputs", rtol=1e-3, atol=1e-4)
                e = rows.get(w.tobytes())
                if e is not None:
                    matched += 1
                    ctx.close(e[0], fits[0], "fitness", f"{algo}: stored fitness", rtol=1e-5)
            ctx.check(matched >= len(pop), "calls", f"{algo}: {matched} of {len(pop)} members were evaluated by a network of theirs")
            seen.clear()
            returned.clear()
        ctx.event("searched")
    ctx.state(kind, nobj, edl, form, tamper, own, str(ev))
    ctx.sample(network=kind, senses=senses, extra=edl, returns=form, tampering=tamper)


def remote_score(net):
    with torch.no_grad():
        y = net(PROBE.to(next(net.parameters()).dtype)).reshape(-1)
    return torch.stack([y.sum(), y[0] - y[1]]), y[:1]


@scenario("C41", quick=40, thorough=300, ray="local", needs=["workers", "main_net"])
def workers(ctx):
    kind, network, kw, cls, template = networks(ctx)
    n = ctx.randint(2, 3)
    dtype = next(template.parameters()).dtype
    p = cls(["min", "max"], network, remote_score, eval_data_length=1, num_actors=n, seed=3, **kw, **ctx.choice([{}, {"num_subbatches": 4}, {"subbatch_size": 2}]))
    b = p.generate_batch(ctx.randint(1, 7))
    b.set_values(torch.tensor(ctx.np.normal(size=tuple(b.values.shape)), dtype=dtype))
    vals = np.array(to_np(b.values), dtype=float)
    p.evaluate(b)
    for i, row in enumerate(vals):
        y = outputs(template, row)
        ctx.close(np.array(to_np(b.evals[i]), dtype=float), [y.sum(), y[0] - y[1], y[0]], "fitness", f"stored for solution {i} by workers", rtol=1e-3, atol=1e-4)
        ctx.event("workers")
    net = p.make_net(b[0])
    ctx.same(flat(net), vals[0], "made", "make_net in the main process")
    ctx.event("main_net")
    p.kill_actors()
    ctx.state(kind, n, len(b))


@scenario("C41", quick=60, thorough=300, needs=["refused"])
def refused(ctx):
    which = ctx.index % 6
    if which == 0:
        p = NEProblem("max", nn.Linear(2, 1))
        ctx.raises(NotImplementedError, lambda: p.evaluate(p.generate_batch(1)), "no-evaluator", "neither a function nor a method evaluates the network")
    elif which == 1:
        ctx.raises(Exception, lambda: NEProblem("max", "Linear(n, 1)", lambda net: 0.0), "constant", "a string with an undefined constant")
    elif which == 2:
        ctx.raises(TypeError, lambda: NEProblem("max", Sized, lambda net: 0.0, network_args={"n": 2, "nonsense": 1}), "argument", "an argument which the network does not take")
    elif which == 3:
        p = NEProblem("max", nn.Linear(2, 1), lambda net: torch.zeros(2))
        ctx.raises(Exception, lambda: p.evaluate(p.generate_batch(1)), "too-many", "two fitnesses for one objective")
    elif which == 4:
        p = NEProblem(["max", "min"], nn.Linear(2, 1), lambda net: torch.zeros(3))
        ctx.raises(Exception, lambda: p.evaluate(p.generate_batch(1)), "too-many", "three fitnesses for two objectives")
    else:
        p = NEProblem("max", nn.Linear(2, 1), lambda net: (torch.tensor(1.0), torch.zeros(3)), eval_data_length=2)
        ctx.raises(Exception, lambda: p.evaluate(p.generate_batch(1)), "too-many", "three extra numbers instead of two")
    ctx.event("refused")
    ctx.state(which)
