"""C19: loggers record exactly the scheduled generations with true values."""

import contextlib
import importlib
import io
import os
import pickle
import re
import shutil
import sys
import tempfile
import types
from datetime import datetime

import evotorch.logging
import mlflow
import numpy as np
import torch
import wandb
from evotorch import Problem, Solution, SolutionBatch
from evotorch.algorithms import SNES, GeneticAlgorithm, SearchAlgorithm
from evotorch.algorithms.searchalgorithm import SinglePopulationAlgorithmMixin
from evotorch.neuroevolution import NEProblem
from evotorch.operators import GaussianMutation
from evotorch.tools import make_tensor

from vmon import zoo
from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import fingerprint

if not hasattr(evotorch.logging, "SacredLogger"):
    # sacred cannot be imported here, so its names are stand-ins
    try:
        import sacred  # noqa: F401
    except ImportError:
        fake = types.ModuleType("sacred")
        fake.Experiment = type("Experiment", (), {})
        fake.run = types.ModuleType("sacred.run")
        fake.run.Run = type("Run", (), {})
        sys.modules["sacred"], sys.modules["sacred.run"] = fake, fake.run
    importlib.reload(evotorch.logging)

from evotorch.logging import Logger, MlflowLogger, NeptuneLogger, PandasLogger, PicklingLogger, SacredLogger, StdOutLogger, WandbLogger  # noqa: E402

rule("C19", "A case is one search with several loggers attached at several moments; the generations and values each of them recorded are compared with an own trace of the status, after all generations have been made.")
ASSUMPTIONS = ["the services behind the sacred, mlflow, neptune and wandb loggers are replaced by recorders with the same calls"]


class Box:
    """a mutable object without length, which prints its value"""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Box({self.v})"

    __str__ = __repr__

    def __eq__(self, other):
        return isinstance(other, Box) and other.v == self.v

    __hash__ = None


def is_scalar(v):
    if isinstance(v, (str, bytes)):
        return True
    if isinstance(v, (torch.Tensor, np.ndarray)):
        return v.ndim == 0
    return not isinstance(v, (list, tuple, dict, set, Solution, SolutionBatch)) and not hasattr(type(v), "__iter__")


def plain(v):
    """a value which later changes do not reach"""
    if isinstance(v, Box):
        return ("box", v.v)
    if isinstance(v, (torch.Tensor, np.ndarray)) and v.ndim == 0:
        return v.item()
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    return v


def scalars(status):
    return {k: plain(v) for k, v in status.items() if is_scalar(v)}


def same(a, b):
    return type(a) is type(b) and (a == b or a != a and b != b)


class Scripted(SearchAlgorithm, SinglePopulationAlgorithmMixin):
    """a search whose status has items of every kind, some of them changed in place"""

    def __init__(self, problem, start):
        SearchAlgorithm.__init__(self, problem, number=lambda: self._k * 2, word=lambda: f"w{self._k}", zero=self._zero, vector=lambda: torch.ones(3) * self._k, pieces=lambda: [self._k], pair=lambda: (1, 2), table=lambda: {"a": self._k}, truth=lambda: self._k % 2 == 0, nothing=lambda: None, box=lambda: self._box, array=lambda: np.zeros(2), npnum=lambda: np.float64(self._k / 2), several=lambda: self._pop, setting=lambda: {self._k})
        self._k = start
        self._t = torch.tensor(float(start))
        self._box = Box(start)
        self._pop = problem.generate_batch(4)
        SinglePopulationAlgorithmMixin.__init__(self)

    def _zero(self):
        return self._t

    @property
    def population(self):
        return self._pop

    def _step(self):
        self._k += 1
        # in place
        self._t += 1
        self._box.v += 1
        self._pop.access_values()[:] += 0.5
        self.problem.evaluate(self._pop)


class Mine(Logger):
    def __init__(self, *args, **kw):
        self.got = []
        super().__init__(*args, **kw)

    def _log(self, status):
        self.got.append((status["iter"], sorted(map(str, status.keys())), scalars(status)))


class Sink:
    """stands for a sacred run, a neptune run and a mlflow client"""

    def __init__(self):
        self.rows, self.cur, self.result, self.all, self.steps = [], {}, None, {}, {}

    # sacred
    def log_scalar(self, name, value, step=None):
        self.put(name, value)

    # neptune
    def __getitem__(self, key):
        outer = self

        class Channel:
            def log(self, v, **kw):
                outer.put(key, v)

            append = log

        return Channel()

    # mlflow
    def log_metric(self, run_id, key, value, timestamp=None, step=None):
        self.run_id = run_id
        self.put(key, value, step)

    def put(self, k, v, step=None):
        self.cur[k] = plain(v)
        self.all.setdefault(k, []).append(plain(v))
        self.steps.setdefault(k, []).append(step)

    def flush(self):
        if self.cur:
            self.rows.append((self.cur, getattr(self, "step", None)))
            self.cur = {}


def attach(ctx, kind, s, kw, out):
    """make a logger; returns (the logger, how to take the records it has made so far)"""
    if kind == "mine":
        lg = Mine(s, **kw)
        return lg, lambda: [g[2] for g in lg.got]
    if kind == "pandas":
        lg = PandasLogger(s, **kw)
        return lg, lambda: lg
    sink = Sink()
    if kind == "sacred":
        sink.wanted = ctx.choice([None, "mean_eval", "iter"])
        lg = SacredLogger(s, sink, *([] if sink.wanted is None else [sink.wanted]), **kw)
    elif kind == "neptune":
        sink.group = ctx.choice([None, "g", "some/where"])
        lg = NeptuneLogger(s, sink, **kw, **({} if sink.group is None else {"group": sink.group}))
    elif kind == "mlflow_client":
        lg = MlflowLogger(s, sink, "run7", **kw)
    elif kind == "mlflow":
        lg = MlflowLogger(s, **kw)
    elif kind == "wandb":
        sink.group = ctx.choice([None, "g"])
        sink.made = len(out["wandb_inits"])
        lg = WandbLogger(s, **kw, **({} if sink.group is None else {"group": sink.group}), project="p")
        ctx.check(out["wandb_inits"][sink.made :] == [{"project": "p"}], "wandb-init", f"{out['wandb_inits']}")
    return lg, lambda: sink


def schedule(n, interval, first):
    """which of n steps since the attachment are recorded, counting from 1"""
    return [i for i in range(1, n + 1) if (i % interval == 0 if not first else (i - 1) % interval == 0)]


SINKS = ["sacred", "neptune", "mlflow_client"]


@scenario("C19", quick=400, thorough=8000, needs=["generations", "records", "values_compared", "skipped_generations", "attached_later", "first_step", "printed", "framed", "scalars_only", "changed_later", "detached", "extra_items"] + [f"logger:{k}" for k in ["mine", "pandas", "stdout", "wandb", "mlflow", *SINKS]])
def scheduled(ctx):
    p = Problem("min", zoo.columns(ctx, 2, 1), solution_length=2, initial_bounds=(-1, 1), vectorized=True, seed=3)
    real = ctx.flip(0.3)
    s = SNES(p, stdev_init=1.0, popsize=6) if real else Scripted(p, ctx.randint(-3, 5))
    truth = []

    def own(status):
        truth.append((scalars(status), sorted(map(str, status))))

    s.log_hook.append(own)
    held = torch.tensor(0.0)
    if ctx.flip(0.6):

        def extra():
            held.add_(1.5)
            d = {"held": held, "even": 1} if s.step_count % 2 == 0 else {"held": held}
            return {**d, "grouped/item": s.step_count, "/odd name": 1.5, "lst": [1], "deep": {"a": 1}}

        s.after_step_hook.append(extra)
        ctx.event("extra_items")
    out = {"wandb": [], "wandb_inits": [], "mlflow": []}
    made = []  # (kind, logger, take, kwargs, generation of attachment)
    kinds = ctx.rng.sample(["mine", "pandas", "pandas", *SINKS, "wandb", "mlflow", "stdout"], ctx.randint(1, 4))
    olds = wandb.log, wandb.init, mlflow.log_metrics

    def wandb_log(data, *a, **k):
        out["wandb"].append({k: plain(v) for k, v in data.items()})

    def mlflow_log(metrics, step=None, *a, **k):
        out["mlflow"].append(({k: plain(v) for k, v in metrics.items()}, step))

    wandb.log, wandb.init, mlflow.log_metrics = wandb_log, lambda **kw: out["wandb_inits"].append(kw), mlflow_log
    stop = {}
    text = io.StringIO()
    stdout_lead = None
    try:
        waiting = list(kinds)
        gen = 0
        rounds = ctx.randint(2, 4)
        for r in range(rounds):
            now = [k for k in waiting if ctx.flip(0.6)] if r < rounds - 1 else []
            for kind in now:
                waiting.remove(kind)
                kw = {}
                if ctx.flip(0.8):
                    kw["interval"] = ctx.choice([1, 2, 3, 4, 7])
                if ctx.flip():
                    kw["after_first_step"] = ctx.flip()
                    if kw["after_first_step"]:
                        ctx.event("first_step")
                if kind == "stdout":
                    stdout_lead = ctx.choice([None, ["number", "iter"], [], ["absent", "word"], ["best_eval"]])
                    lg = StdOutLogger(s, **kw, **({} if stdout_lead is None else {"leading_keys": stdout_lead}))
                    take = None
                else:
                    lg, take = attach(ctx, kind, s, kw, out)
                made.append((kind, lg, take, kw, gen))
                ctx.event(f"logger:{kind}")
                if gen:
                    ctx.event("attached_later")
            n = ctx.randint(1, 6)
            one = ctx.flip()
            for _ in range(n if one else 1):
                with contextlib.redirect_stdout(text):
                    s.run(n if not one else 1) if ctx.flip() or not one else s.step()
            gen += n
            if made and ctx.flip(0.2):
                i = ctx.randint(0, len(made) - 1)
                lg = made[i][1]
                if i not in stop and made[i][0] != "stdout":
                    hook = s.log_hook
                    hook.remove(lg)
                    stop[i] = gen
                    ctx.event("detached")
    finally:
        wandb.log, wandb.init, mlflow.log_metrics = olds
    ctx.event("generations", gen)
    ctx.check(len(truth) == gen, "log-hook", f"{len(truth)} log calls after {gen} generations")
    for i, (kind, lg, take, kw, at) in enumerate(made):
        until = stop.get(i, gen)
        interval, first = kw.get("interval", 1), kw.get("after_first_step", False)
        gens = [at + j for j in schedule(until - at, interval, first)]
        if len(gens) < until - at:
            ctx.event("skipped_generations")
        want = [truth[g - 1][0] for g in gens]
        ctx.state(kind, interval, first, at > 0, len(gens), real)
        what = f"{kind} logger, interval {interval}, after_first_step {first}, attached after generation {at} of {gen}"
        if kind == "mine":
            ctx.check([g[0] for g in lg.got] == gens, f"generations:{kind}", f"{what}: recorded generations {[g[0] for g in lg.got]}, expected {gens}")
            for (_, keys, vals), g in zip(lg.got, gens):
                ctx.check(keys == truth[g - 1][1], f"keys:{kind}", f"{what}: {keys} != {truth[g - 1][1]}")
                compare(ctx, vals, truth[g - 1][0], kind, f"{what}, generation {g}")
        elif kind == "pandas":
            if not gens:
                continue
            idx = ctx.choice(["iter", None, "default"])
            df = lg.to_dataframe() if idx == "default" else lg.to_dataframe(index=idx)
            if idx is not None:
                ctx.check(df.index.name == "iter" and list(df.index) == gens, f"generations:{kind}", f"{what}: index {list(df.index)}, expected {gens}")
            ctx.check(len(df) == len(gens), f"generations:{kind}", f"{what}: {len(df)} rows, expected {gens}")
            cols = {"iter", *df.columns} if idx is not None else set(df.columns)
            ctx.check(cols == set().union(*want), f"keys:{kind}", f"{what}: columns {sorted(cols)}, expected {sorted(set().union(*want))}")
            ctx.event("scalars_only")
            for row, w in zip(range(len(df)), want):
                for k, v in w.items():
                    if k == "iter" and idx is not None:
                        continue
                    x = plain(df[k].iloc[row])
                    ok = (x is None or x != x) if v is None or v != v else x == v
                    ctx.check(ok, f"value:{kind}:{k}", f"{what}, generation {gens[row]}: {k} is {x!r}, it was {v!r}")
                    ctx.event("values_compared")
                    if k in ("zero", "held", "box") and gens[row] < gen:
                        ctx.event("changed_later")
            ctx.event("framed")
        elif kind == "stdout":
            blocks = [b for b in text.getvalue().split("\n\n") if b.strip()]
            ctx.check(len(blocks) == len(gens), f"generations:{kind}", f"{what}: {len(blocks)} blocks printed, expected {gens}")
            lead = ["iter"] if stdout_lead is None else stdout_lead
            for b, w, g in zip(blocks, want, gens):
                pairs = [tuple(x.strip() for x in line.split(" : ", 1)) for line in b.split("\n") if line.strip()]
                keys = [k for k, _ in pairs]
                here = [k for k in lead if k in w]
                ctx.check(keys[: len(here)] == here, f"leading:{kind}", f"{what}: keys {keys}, leading {lead}")
                ctx.check(sorted(keys) == sorted(w), f"keys:{kind}", f"{what}: printed {sorted(keys)}, expected {sorted(w)}")
                for k, txt in pairs:
                    v = w[k]
                    if isinstance(v, tuple):
                        ctx.check(txt == f"Box({v[1]})", f"value:{kind}:{k}", f"{what}: {k} printed as {txt}, was {v}")
                    elif isinstance(v, float):
                        shown = float(re.search(r"-?(\d[\d.]*(e[-+]?\d+)?|inf|nan)", txt.split("(")[-1]).group(0))
                        ctx.close(shown, v, f"value:{kind}:{k}", k, rtol=1e-3, atol=1e-3)
                    else:
                        ctx.check(txt == str(v), f"value:{kind}:{k}", f"{what}: {k} printed as {txt}, was {v}")
                    ctx.event("values_compared")
                ctx.event("printed")
        else:
            if kind == "wandb":
                rows, steps = out["wandb"], None
            elif kind == "mlflow":
                rows, steps = [r[0] for r in out["mlflow"]], [r[1] for r in out["mlflow"]]
            else:
                # one value after another: the last record, and how often each item arrived
                sink = take()
                g = getattr(sink, "group", None)
                got = {k if g is None else k[len(g) + 1 :]: v for k, v in sink.cur.items()}
                if g is not None:
                    ctx.check(all(k.startswith(g + "/") for k in sink.cur), f"group:{kind}", f"{list(sink.cur)}")
                ctx.check(set(got) == set().union(set(), *want), f"keys:{kind}", f"{what}: {sorted(got)}")
                for k in got:
                    vs = [w[k] for w in want if k in w]
                    seen = sink.all[k if g is None else g + "/" + k]
                    ctx.check(len(seen) == len(vs) and all(same(a, b) for a, b in zip(seen, vs)), f"value:{kind}:{k}", f"{what}: values of {k} are {seen!r}, expected {vs!r}")
                    ctx.event("values_compared", len(vs))
                if kind == "sacred" and gens and sink.wanted:
                    ctx.check(sink.result == want[-1][sink.wanted], "sacred-result", f"{sink.result}, expected {want[-1][sink.wanted]}")
                if kind == "mlflow_client" and gens:
                    ctx.check(sink.run_id == "run7", "mlflow-run", f"{sink.run_id}")
                    if at == 0:
                        ctx.check(sink.steps["iter"] == gens, "mlflow-step", f"{what}: steps {sink.steps['iter']} for generations {gens}")
                ctx.event("records", len(gens))
                continue
            ctx.check(len(rows) == len(gens), f"generations:{kind}", f"{what}: {len(rows)} records, expected {gens}")
            g = getattr(take(), "group", None)
            for r, (row, w) in enumerate(zip(rows, want)):
                if g is not None:
                    ctx.check(all(k.startswith(g + "/") for k in row), f"group:{kind}", f"{list(row)}")
                    row = {k[len(g) + 1 :]: v for k, v in row.items()}
                compare(ctx, row, w, kind, f"{what}, generation {gens[r]}")
                if steps is not None and at == 0:
                    ctx.check(steps[r] == gens[r], "mlflow-step", f"{what}: step {steps[r]} for generation {gens[r]}")
        ctx.event("records", len(gens))
    ctx.sample(loggers=[m[0] for m in made], generations=gen)


def compare(ctx, got, want, kind, what):
    ctx.check(set(got) == set(want), f"keys:{kind}", lambda: f"{what}: {sorted(got)}, expected {sorted(want)}")
    for k, v in want.items():
        ctx.check(same(got[k], v), f"value:{kind}:{k}", f"{what}: {k} is {got[k]!r}, it was {v!r}")
        ctx.event("values_compared")


class Counting(Scripted):
    """like Scripted, with items worth saving"""

    def __init__(self, problem, start):
        super().__init__(problem, start)
        self._center = torch.zeros(2)
        self.add_status_getters({"center": lambda: self._center})

    def _step(self):
        super()._step()
        self._center += 1


class NormProblem(NEProblem):
    """a problem whose networks come with statistics of the observations"""

    def __init__(self, *args, norm, **kw):
        super().__init__(*args, **kw)
        self.observation_normalization = norm
        self.k = 0

    def to_policy(self, x):
        return self.parameterize_net(x.values if isinstance(x, Solution) else x)

    def get_observation_stats(self):
        outer = self

        class Stats:
            def to(self, device):
                return ("stats", outer.k, str(device))

        return Stats()


@scenario("C19", quick=240, thorough=5000, needs=["files", "contents_compared", "final_saves", "no_second_save", "by_hand", "policies", "observation_stats", "default_items", "own_items", "missing_items", "said", "silent", "own_directory", "current_directory", "changed_later", "first_step", "attached_later", "solutions_saved", "times"])
def pickling(ctx):
    scratch = tempfile.mkdtemp(prefix="vmon-c19-")
    back = os.getcwd()
    try:
        os.chdir(scratch)
        _pickling(ctx, scratch)
    finally:
        os.chdir(back)
        shutil.rmtree(scratch, ignore_errors=True)


def _pickling(ctx, scratch):
    ne = ctx.flip(0.35)
    if ne:
        norm = ctx.choice([None, True, True, False])

        def score(net):
            return float(sum(q.sum() for q in net.parameters()).detach())

        net = "Linear(2, 1) >> Tanh()"
        if norm is None:
            p = NEProblem("max", net, score, seed=ctx.randint(1, 1000))
        else:
            p = NormProblem("max", net, score, norm=norm, seed=ctx.randint(1, 1000))
        s = SNES(p, stdev_init=0.5, popsize=4) if ctx.flip() else GeneticAlgorithm(p, popsize=4, operators=[GaussianMutation(p, stdev=0.2)])
    else:
        norm = None
        p = Problem("min", zoo.columns(ctx, 2, 1), solution_length=2, initial_bounds=(-1, 1), vectorized=True, seed=3)
        s = ctx.choice([lambda: SNES(p, stdev_init=1.0, popsize=6), lambda: Scripted(p, 0), lambda: Counting(p, 0)])()
    history = {}

    def look():
        st = s.status
        d = {}
        for k in ("center", "best", "pop_best", "median_eval", "mean_eval", "pop_best_eval", "iter", "vector", "word", "zero", "worst"):
            if k in st:
                v = st[k]
                d[k] = to_np(v.values).copy() if isinstance(v, Solution) else to_np(v).copy() if isinstance(v, torch.Tensor) else v
        if hasattr(p, "k"):
            p.k += 1
            d["#stats"] = p.k
        d["#begin"] = s.first_step_datetime
        history[s.step_count] = d
        return None

    s.after_step_hook.append(look)
    gen = 0
    if ctx.flip(0.3):
        gen = ctx.randint(1, 3)
        s.run(gen)
        ctx.event("attached_later")
    kw = {"interval": ctx.choice([1, 2, 3, 5])}
    interval = kw["interval"]
    first = False
    if ctx.flip(0.4):
        first = kw["after_first_step"] = True
        ctx.event("first_step")
    prefix = None
    if ctx.flip(0.8):
        prefix = kw["prefix"] = ctx.choice(["run", "a.b", "x_y"])
    zfill = 6
    if ctx.flip():
        zfill = kw["zfill"] = ctx.choice([0, 1, 3, 8])
    items = ("center", "best", "pop_best", "median_eval", "mean_eval", "pop_best_eval")
    c = ctx.choice(["default", "one", "many"])
    if c == "one":
        items = ("pop_best_eval",)
        kw["items_to_save"] = "pop_best_eval"
    elif c == "many":
        items = tuple(ctx.rng.sample(["center", "best", "worst", "pop_best", "iter", "vector", "word", "zero", "absent"], 4))
        kw["items_to_save"] = list(items) if ctx.flip() else iter(items)
    ctx.event("default_items" if c == "default" else "own_items")
    folder = scratch
    if ctx.flip(0.7):
        folder = os.path.join(scratch, ctx.choice(["d", "d/e"]))
        kw["directory"] = folder if ctx.flip() else os.path.relpath(folder, scratch)
        ctx.event("own_directory")
    else:
        ctx.event("current_directory")
    verbose = True
    if ctx.flip():
        verbose = kw["verbose"] = False
    source = None
    if ne and ctx.flip(0.4):
        source = kw["make_policy_from"] = ctx.choice(["best", "pop_best"])
    ctx.note({k: str(v) for k, v in kw.items()}, type(s).__name__, type(p).__name__)
    lg = PicklingLogger(s, **kw)
    ctx.check(lg.last_generation is None and lg.last_file_name is None, "before", "a fresh logger names a file")
    ctx.check(os.path.isdir(folder), "directory", "the directory was not made")
    saved = []  # generations, in the order of saving
    names = {}
    since = 0
    text = io.StringIO()
    last = None

    def note_save(g, name=None):
        nonlocal last
        last = g
        saved.append(g)
        names.setdefault(name or "auto", []).append(g)

    for r in range(ctx.randint(1, 4)):
        how = ctx.choice(["run", "run", "step", "hand", "run0"])
        with contextlib.redirect_stdout(text):
            if how == "hand" and gen > 0:
                name = ctx.choice([None, "mine.pickle"])
                res = lg.save() if name is None else lg.save(name)
                ctx.check(os.path.basename(res) == (name or os.path.basename(res)) and os.path.exists(res), "save-returns", f"{res}")
                ctx.check(lg.last_file_name == res, "last-file", f"{lg.last_file_name}, returned {res}")
                note_save(gen, name)
                if name:
                    content(ctx, res, history[gen], items, ne, s, p, source, norm)
                ctx.event("by_hand")
                continue
            n = 1 if how == "step" else 0 if how == "run0" and gen > 0 else ctx.randint(1, 5)
            if how == "step":
                s.step()
            else:
                s.run(n)
                if n == 0:
                    # this forgets the time of the first step
                    history[gen]["#begin"] = None
        for _ in range(n):
            since += 1
            gen += 1
            if since in schedule(since, interval, first):
                note_save(gen)
        if how != "step":
            if last is None or gen > last:
                note_save(gen)
                ctx.event("final_saves")
            else:
                ctx.event("no_second_save")
    files = sorted(f for f in os.listdir(folder) if f.endswith(".pickle") and f != "mine.pickle")
    want = sorted({f"generation{str(g).zfill(zfill)}.pickle" for g in names.get("auto", [])})
    got = sorted(f[f.rindex("generation") :] for f in files)
    ctx.check(got == want, "files", f"files {files}, expected generations {sorted(set(names.get('auto', [])))} (interval {interval}, after_first_step {first}, {gen} generations)")
    ctx.check(all(f.startswith((prefix if prefix is not None else type(p).__name__) + "_") for f in files), "names", f"{files}, prefix {prefix}")
    ctx.check(("mine.pickle" in os.listdir(folder)) == ("mine.pickle" in names), "files", "the file saved by hand")
    for f in files:
        g = int(f[f.rindex("generation") + 10 : -7])
        content(ctx, os.path.join(folder, f), history[g], items, ne, s, p, source, norm)
        if g < gen:
            ctx.event("changed_later")
        ctx.event("files")
    ctx.check(lg.last_generation == last, "last-generation", f"{lg.last_generation}, expected {last}")
    if last is not None:
        again = lg.unpickle_last_file()
        with open(lg.last_file_name, "rb") as fh:
            ctx.check(sorted(again) == sorted(pickle.load(fh)), "unpickle", "")
    said = [line for line in text.getvalue().split("\n") if line.strip()]
    ctx.check(len(said) == (len(saved) if verbose else 0), "verbose", f"{len(said)} lines printed for {len(saved)} files (verbose {verbose})")
    ctx.event("said" if verbose and said else "silent")
    ctx.state(interval, first, tuple(saved), gen, c, verbose, zfill, type(s).__name__, type(p).__name__)
    ctx.sample(generations=gen, saved=saved, interval=interval)


def content(ctx, path, truth, items, ne, s, p, source, norm):
    with open(path, "rb") as f:
        data = pickle.load(f)
    have = {k for k in items if k in truth}
    if len(have) < len(set(items)):
        ctx.event("missing_items")
    ne = ne and norm is not None
    extra = {"policy"} if ne else set()
    if ne and ("elapsed" in data or truth["#begin"] is not None):
        extra |= {"beginning_time", "now", "elapsed"}
    if norm:
        extra.add("obs_stats")
        ctx.check(data["obs_stats"] == ("stats", truth["#stats"], "cpu"), "obs-stats", f"{data['obs_stats']}, expected {truth['#stats']}")
        ctx.event("observation_stats")
    ctx.check(set(data) == have | extra, "items", f"{os.path.basename(path)} has {sorted(data)}, expected {sorted(have | extra)}")
    for k in have:
        v, w = data[k], truth[k]
        if isinstance(w, np.ndarray):
            ctx.check(type(v) is torch.Tensor and np.array_equal(v.numpy(), w), f"content:{k}", f"{os.path.basename(path)}: {k} is {v!r}, it was {w!r}")
            if k in ("best", "pop_best", "worst"):
                ctx.event("solutions_saved")
        else:
            ctx.check(type(v) is type(w) and v == w, f"content:{k}", f"{os.path.basename(path)}: {k} is {v!r}, it was {w!r}")
        ctx.event("contents_compared")
    if ne:
        k = source or ("center" if "center" in truth else "pop_best")
        net = p.parameterize_net(make_tensor(torch.as_tensor(truth[k]), dtype=torch.float32))
        x = torch.tensor([[0.3, -0.7], [1.0, 2.0]])
        ctx.close(to_np(data["policy"](x)), to_np(net(x)), "policy", f"{os.path.basename(path)}: outputs of the saved policy (from {k})", rtol=1e-6, atol=1e-6)
        if "elapsed" in data:
            ctx.check(isinstance(data["now"], datetime) and data["elapsed"] == data["now"] - data["beginning_time"], "times", "elapsed is not the difference of the two times")
            if truth["#begin"] is not None:
                ctx.check(data["beginning_time"] == truth["#begin"], "times", "another beginning time")
                ctx.event("times")
        ctx.event("policies")


class Keeper(Logger):
    """keeps the whole status, as it is given"""

    def __init__(self, *args, **kw):
        self.kept = []
        super().__init__(*args, **kw)

    def _log(self, status):
        self.kept.append((status, freeze(status)))


def freeze(status):
    return {k: frozen(v) for k, v in status.items() if not isinstance(v, dict) and not hasattr(v, "keys")}


def frozen(v):
    if isinstance(v, (Solution, SolutionBatch)):
        return ("solution", fingerprint(v.values), fingerprint(v.evals))
    return fingerprint(v)


@scenario("C19", quick=180, thorough=3600, needs=["kept_records", "kept_items", "solutions_kept"] + [f"kept:{k}" for k in zoo.KINDS])
def kept(ctx):
    """records which a logger keeps as they are stay as they were, with every algorithm"""
    kind = zoo.KINDS[ctx.index % len(zoo.KINDS)]

    def problem(senses, f, n, dtype, **kw):
        return zoo.make_problem(senses, f, n, dtype, seed=7, **kw)

    m = zoo.make(ctx, problem, kind)
    s = m.search
    lg = Keeper(s, interval=ctx.choice([1, 1, 2]))
    s.run(ctx.randint(2, 5))
    ctx.event(f"kept:{kind}")
    for i, (status, then) in enumerate(lg.kept):
        now = freeze(status)
        for k, v in then.items():
            ctx.check(now[k] == v, f"kept:{k}", lambda: f"{kind}: the item {k} of record {i} of {len(lg.kept)} changed after it was logged; now {status[k]!r:.300}")
            ctx.event("kept_items")
            if isinstance(status[k], Solution):
                ctx.event("solutions_kept")
        ctx.event("kept_records")
    ctx.state(m.about)
    ctx.sample(algorithm=kind, records=len(lg.kept))
