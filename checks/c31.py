"""C31: the fitness of a supervised problem is the loss on the minibatches which were drawn."""

import copy
import pickle

import numpy as np
import torch
from evotorch.algorithms import SNES
from evotorch.neuroevolution import SupervisedNE
from torch import nn
from torch.utils.data import DataLoader, Dataset, TensorDataset

from checks.c29 import assign, plain_policy
from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.refnet import Ref, random_net

rule("C31", "A case is one history of evaluations of a supervised problem whose dataset logs every access and whose loss function logs every call; passes over the data, sharing of minibatches, outputs and fitnesses are recomputed from the log with float64 models of the networks.")
ASSUMPTIONS = [
    "networks are compared with float64 numpy models within rtol 1e-3",
    "with workers, minibatches are shared by the solutions which one worker evaluates together",
    "workers run inside the process (local mode of ray), so that their accesses are seen",
]
TOL = dict(rtol=2e-3, atol=1e-3)


class Log:
    reads = []  # (dataset, index)
    losses = []  # (minibatch indices, output, loss)
    sizes = []  # solutions evaluated together

    @classmethod
    def clear(cls):
        cls.reads, cls.losses, cls.sizes = [], [], []


class Data(Dataset):
    """the label of each sample starts with its index"""

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        Log.reads.append((self, int(i)))
        return self.x[i], self.y[i]


def value_of(y_hat, y):
    """a loss which is not the same for different samples or outputs"""
    t = y[:, 1:]
    return (((y_hat - t) ** 2) * (1 + 0.1 * y[:, :1])).mean()


def logging_loss(y_hat, y):
    v = value_of(y_hat, y)
    Log.losses.append((to_np(y[:, 0]).astype(int).tolist(), to_np(y_hat).copy(), float(v)))
    return v


def float_loss(y_hat, y):
    return float(logging_loss(y_hat, y))


class Watched(SupervisedNE):
    def _evaluate_batch(self, batch):
        Log.sizes.append((len(Log.losses), len(batch)))
        super()._evaluate_batch(batch)


class OwnLoss(Watched):
    def _loss(self, y_hat, y):
        return logging_loss(y_hat, y)


class OwnLoader(Watched):
    def _make_dataloader(self):
        return DataLoader(self.dataset, shuffle=False, batch_size=3, drop_last=True)


class OwnStep(Watched):
    def _evaluate_using_minibatch(self, network, batch):
        x, y = batch
        with torch.no_grad():
            return self.loss(network(2 * x), y)


class Model:
    def __init__(self, ctx, data, ref, size, count, common, kind):
        self.ctx, self.data, self.ref = ctx, data, ref
        self.size, self.count, self.common, self.kind = size, count, common, kind
        self.fresh = True

    def evaluated(self, values, evals, sizes):
        """check the evaluation of one population by the log of the loss function; sizes: solutions evaluated together"""
        ctx, k = self.ctx, self.count
        calls = Log.losses
        ctx.check(len(calls) == len(values) * k, "calls", f"{len(calls)} losses computed, expected {len(values)} times {k}")
        found = []
        at = 0
        x = self.data.x.numpy().astype(np.float64) * (2 if self.kind == "step" else 1)
        for size in sizes:
            group = None
            for _ in range(size):
                mine = calls[at : at + k]
                at += k
                able, why = [], None
                for i in range(len(values)):
                    net = Ref(self.ref, values[i])
                    ok = True
                    for idx, out, _ in mine:
                        want = np.stack([np.atleast_1d(net(x[j])) for j in idx])
                        if out.shape != want.shape or not np.allclose(out, want, **TOL):
                            ok, why = False, why or f"output {out} for the samples {idx}, expected {want}"
                            break
                    if ok:
                        able.append(i)
                if not able:
                    ctx.fail("outputs", f"outputs which none of the solutions explains: {why}")
                found.append((able, np.mean([c[2] for c in mine])))
                ctx.event("explained")
                seen = [c[0] for c in mine]
                if self.common:
                    if group is None:
                        group = seen
                    else:
                        ctx.check(seen == group, "shared", f"solutions evaluated together used the minibatches {group} and {seen}")
                        ctx.event("shared")
                for idx in seen:
                    ctx.check(len(idx) <= self.size and len(set(idx)) == len(idx), "minibatch", f"minibatch {idx} of at most {self.size}")
        mine = assign([able for able, _ in found])
        ctx.check(mine is not None, "not-run", f"losses computed for the solutions {[able for able, _ in found]} of {len(values)}")
        if assign([[i for i in able if np.allclose(evals[i], want, **TOL)] for able, want in found]) is None:
            for (_, want), i in zip(found, mine):
                ctx.close(evals[i], want, "fitness", f"fitness of solution {i}", **TOL)
            ctx.fail("fitness", f"fitnesses {evals} for {found}")
        ctx.event("fitness", len(found))

    def passes(self, reads, partial=True):
        """each pass over the data uses every sample once"""
        ctx, n = self.ctx, len(self.data)
        per = n if self.kind != "loader" else n - n % 3
        orders = []
        for at in range(0, len(reads), per):
            one = reads[at : at + per]
            ctx.check(len(set(one)) == len(one), "pass", f"samples used twice in one pass over the data: {one}")
            if len(one) == per:
                if self.kind != "loader":
                    ctx.check(sorted(one) == list(range(n)), "pass-complete", f"a pass used {sorted(one)} of {n} samples")
                else:
                    ctx.check(one == list(range(per)), "own-order", f"{one}")
                ctx.event("passes")
                orders.append(tuple(one))
        return orders


def setup(ctx, **more):
    n, f = ctx.choice([1, 3, 5, 8, 12, 13]), ctx.randint(1, 4)
    m = ctx.randint(1, 3)
    x = torch.randn(n, f, generator=ctx.gen)
    y = torch.cat([torch.arange(n)[:, None].float(), torch.randn(n, m, generator=ctx.gen)], dim=1)
    data = Data(x, y)
    how = ctx.choice(["module", "string", "callable"])
    kw = dict(more)
    if how == "module":
        net, out = random_net(ctx, f, recurrent=False, special=False, top=3)
        net = nn.Sequential(net, nn.Linear(out, m))
        ref = copy.deepcopy(net)
    elif how == "string":
        net, kw["network_args"] = "Linear(f, 2) >> Tanh() >> Linear(2, m)", dict(f=f, m=m)
        ref = nn.Sequential(nn.Linear(f, 2), nn.Tanh(), nn.Linear(2, m))
    else:
        net, kw["network_args"] = plain_policy, dict(n=f, hidden=2, m=m)
        ref = plain_policy(f, 2, m)
    size = ctx.choice([1, 2, 3, 4, 5, n, n + 3])
    count = ctx.choice([None, 1, 2, 3, 7])
    common = ctx.choice([None, True, False])
    kind = ctx.choice(["plain", "plain", "plain", "float", "loss", "loader", "step"])
    if n < 3 and kind == "loader":
        kind = "plain"
    if kind == "loader":
        size = 3
    else:
        kw["minibatch_size"] = size
    if count is not None:
        kw["num_minibatches"] = count
    if common is not None:
        kw["common_minibatch"] = common
    if kind != "loss":
        kw["loss_func"] = float_loss if kind == "float" else logging_loss
    cls = dict(loss=OwnLoss, loader=OwnLoader, step=OwnStep).get(kind, Watched)
    Log.clear()
    p = cls(data, net, **kw)
    ctx.event("kind_" + kind)
    ctx.event("common" if common is not False else "own_minibatches")
    m = Model(ctx, data, ref, size, count or 1, common is not False, kind)
    return p, m, kw


def population(ctx, p, n):
    b = p.generate_batch(n)
    v = torch.randn(n, p.solution_length, generator=ctx.gen) * 0.6
    b.set_values(v)
    return b, v.numpy()


@scenario("C31", quick=600, thorough=12000, needs=["fitness", "explained", "shared", "common", "own_minibatches", "passes", "reshuffled", "kind_plain", "kind_float", "kind_loss", "kind_loader", "kind_step", "drawn", "restored", "searched", "single"])
def histories(ctx):
    p, m, kw = setup(ctx)
    ctx.check(p.senses == ["min"], "sense", f"{p.senses}")
    reads, orders = [], []
    n_loads = 0
    for _ in range(ctx.randint(2, 5)):
        op = ctx.choice(["evaluate", "evaluate", "evaluate", "single", "draw", "restore", "search"])
        Log.clear()
        if op in ("evaluate", "single"):
            k = 1 if op == "single" else ctx.randint(1, 4)
            b, v = population(ctx, p, k)
            p.evaluate(b[0] if op == "single" else b)
            m.evaluated(v, to_np(b.evals)[:, 0], [k])
            n_loads += m.count if m.common else m.count * k
            if op == "single":
                ctx.event("single")
        elif op == "draw":
            x, y = p.get_minibatch()
            idx = to_np(y[:, 0]).astype(int).tolist()
            ctx.check(torch.equal(x, m.data.x[idx]) and torch.equal(y, m.data.y[idx]), "drawn", f"the minibatch differs from the samples {idx}")
            ctx.check([i for _, i in Log.reads] == idx, "drawn-reads", f"{Log.reads}")
            n_loads += 1
            ctx.event("drawn")
        elif op == "restore":
            orders += m.passes(reads)
            reads, n_loads = [], 0
            p = pickle.loads(pickle.dumps(p)) if ctx.flip() else p.clone()
            ctx.event("restored")
        elif op == "search":
            s = SNES(p, stdev_init=0.3, popsize=3)
            for _ in range(2):
                Log.losses.clear()
                s.step()
                m.evaluated(to_np(s.population.values), to_np(s.population.evals)[:, 0], [3])
                n_loads += m.count if m.common else m.count * 3
            ctx.event("searched")
        reads += [i for _, i in Log.reads]
        # no samples beyond those of the minibatches
        per = -(-len(m.data) // m.size) if m.kind != "loader" else len(m.data) // 3
        full, rest = divmod(n_loads, per)
        want = full * (len(m.data) if m.kind != "loader" else per * 3) + min(rest * m.size, len(m.data))
        ctx.check(len(reads) == want, "reads", f"{len(reads)} samples read for {n_loads} minibatches of {m.size} from {len(m.data)}, expected {want}")
    orders += m.passes(reads)
    if m.kind != "loader" and len(m.data) >= 12 and len(orders) > 1:
        ctx.check(len(set(orders)) > 1 and tuple(range(len(m.data))) not in orders, "shuffle", f"passes over the data in the same order: {orders[:2]}")
        ctx.event("reshuffled")
    ctx.state((len(m.data), m.size, m.count, m.common, m.kind))
    ctx.sample(samples=len(m.data), minibatch=m.size, settings=repr(kw), losses=len(Log.losses))


@scenario("C31", quick=80, thorough=1600, ray="local", needs=["fitness", "explained", "shared", "own_minibatches", "passes", "several_workers"])
def workers(ctx):
    k = ctx.randint(2, 3)
    p, m, kw = setup(ctx, num_actors=k, **ctx.choice([{}, {}, dict(num_subbatches=4), dict(subbatch_size=2)]))
    reads = {}
    for _ in range(ctx.randint(1, 3)):
        Log.clear()
        n = ctx.randint(4, 7)
        b, v = population(ctx, p, n)
        p.evaluate(b)
        sizes = [s for _, s in Log.sizes]
        ctx.check(sum(sizes) == n, "pieces", f"pieces {sizes} of {n} solutions")
        m.evaluated(v, to_np(b.evals)[:, 0], sizes)
        for d, i in Log.reads:
            reads.setdefault(id(d), [d]).append(i)
        ctx.event("several_workers")
    for d, *one in reads.values():
        m.passes(one)
    ctx.check(1 < len(reads) <= k, "datasets", f"{len(reads)} datasets used by {k} workers")
    p.kill_actors()
    ctx.state((k, len(m.data), m.size, m.count, m.common))


@scenario("C31", quick=40, thorough=400, needs=["standard"])
def standard_losses(ctx):
    """losses of torch on tensor datasets"""
    n, f, c = ctx.randint(4, 9), ctx.randint(1, 3), ctx.randint(2, 3)
    x = torch.randn(n, f, generator=ctx.gen)
    if ctx.flip():
        y, loss = torch.randint(0, c, (n,), generator=ctx.gen), nn.CrossEntropyLoss()
    else:
        y, loss = torch.randn(n, c, generator=ctx.gen), nn.MSELoss()
    net = nn.Linear(f, c)
    p = SupervisedNE(TensorDataset(x, y), net, loss, minibatch_size=n, num_minibatches=ctx.randint(1, 3))
    b, v = population(ctx, p, 3)
    p.evaluate(b)
    for i in range(3):
        ref = Ref(net, v[i])
        out = np.stack([ref(r) for r in x.numpy()])
        if y.ndim == 1:
            e = np.log(np.exp(out).sum(axis=1)) - out[np.arange(n), y.numpy()]
        else:
            e = (out - y.numpy()) ** 2
        ctx.close(float(b.evals[i, 0]), e.mean(), "standard", f"{loss} over the whole dataset", **TOL)
    ctx.event("standard")
