"""C26: running normalisation."""

import copy
import pickle

import numpy as np
import torch
from evotorch.neuroevolution.net.runningnorm import ObsNormLayer, RunningNorm
from evotorch.neuroevolution.net.runningstat import RunningStat

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen, fingerprint

rule("C26", "A case is one history of single, batched, masked, empty and merged updates, resets and copies, compared with direct statistics over the recorded observations.")
ASSUMPTIONS = ["the mean of the observations is not much larger than their deviation (float32 sums of squares)"]


class _Ref:
    def __init__(self, shape, minvar, clip):
        self.rows = []
        self.shape, self.minvar, self.clip = shape, minvar, clip

    def copy(self):
        r = _Ref(self.shape, self.minvar, self.clip)
        r.rows = list(self.rows)
        return r

    def mean_std(self):
        a = np.stack(self.rows).astype(np.float64)
        var = np.maximum(a.var(axis=0), self.minvar)
        return a.mean(axis=0), np.sqrt(var)

    def normalize(self, x):
        m, s = self.mean_std()
        y = (np.asarray(x, dtype=np.float64) - m) / s
        if self.clip is not None:
            y = np.clip(y, *self.clip)
        return y


@scenario("C26", quick=700, thorough=20000, needs=["move", "move_without_data", "single", "batch", "masked", "masked_out_nan", "empty_mask", "merge", "reset", "copy", "layer", "normalize"])
def running_norm_histories(ctx):
    shape = ctx.choice([(3,), (1,), (2, 2), (5,)])
    dtype = ctx.choice(["float32", "float64", torch.float32])
    tt = torch.float64 if dtype == "float64" else torch.float32
    npd = np.float64 if tt is torch.float64 else np.float32
    minvar = ctx.choice([None, 1e-2, 1e-6, 0.5, 4.0])
    clip = ctx.choice([None, None, (-1.0, 1.0), (-0.5, 2.0)])
    kw = dict(shape=shape if len(shape) > 1 or ctx.flip() else shape[0], dtype=dtype)
    if minvar is not None:
        kw["min_variance"] = minvar
    if clip is not None:
        kw["clip"] = clip
    pairs = [(RunningNorm(**kw), _Ref(shape, minvar if minvar is not None else 1e-2, clip))]
    if ctx.flip(0.6):
        pairs.append((RunningNorm(**kw), _Ref(shape, minvar if minvar is not None else 1e-2, clip)))
    loc, scale = ctx.choice([0.0, 2.0, -1.0]), ctx.choice([1.0, 3.0, 0.1])
    given = []

    def draw(*lead):
        return (loc + scale * ctx.np.normal(size=lead + shape)).astype(npd)

    def handed(x):
        k = ctx.randint(0, 3)
        if k == 0:
            return x.tolist()
        if k == 1:
            a = x.copy()
        else:
            a = torch.tensor(x)
        given.append((a, fingerprint(a)))
        return a

    for step in range(ctx.randint(4, 16)):
        j = ctx.randint(0, len(pairs) - 1)
        rn, ref = pairs[j]
        op = ctx.choice(["single", "single", "batch", "batch", "masked", "masked", "empty_mask", "merge", "reset", "copy", "normalize", "un", "layer", "empty_batch", "move"])
        if op == "reset" and ctx.flip(0.6):
            op = "single"
        ctx.state(op, shape, clip is None, minvar, len(ref.rows) == 0, str(tt))
        ctx.note(op, "object", j, "rows", len(ref.rows))
        if op == "single":
            x = draw()
            rn.update(handed(x))
            ref.rows.append(x)
        elif op == "batch":
            x = draw(ctx.randint(1, 5))
            rn.update(handed(x))
            ref.rows.extend(x)
        elif op == "empty_batch":
            rn.update(torch.tensor(draw(0)).reshape((0,) + shape))
        elif op in ("masked", "empty_mask"):
            x = draw(ctx.randint(1, 5))
            mask = ctx.np.uniform(size=len(x)) < 0.5
            if op == "empty_mask":
                mask[:] = False
            if ctx.flip(0.4) and not np.all(mask):
                x[~mask] = ctx.choice([np.nan, np.inf, -np.inf])
                ctx.event("masked_out_nan")
            rn.update(handed(x), mask=ctx.choice([mask, mask.tolist(), torch.tensor(mask)]))
            ref.rows.extend(x[mask])
        elif op == "merge":
            o, oref = ctx.choice(pairs)
            src = copy.deepcopy(o) if o is rn else o
            rows = list(oref.rows)
            rn.update(src)
            ref.rows.extend(rows)
        elif op == "reset":
            rn.reset()
            ref.rows = []
        elif op == "copy":
            c = ctx.choice([copy.copy, copy.deepcopy, lambda a: pickle.loads(pickle.dumps(a))])(rn)
            if len(pairs) < 4:
                pairs.append((c, ref.copy()))
        elif op == "move":
            ctx.check(rn.to("cpu") is rn, "moved-to-own-device", "another object")
            away = rn.to("meta")
            ctx.check(away is not rn and str(away.device) == "meta" and str(rn.device) == "cpu", "moved-device", f"{away.device}")
            ctx.check((away.count, away.shape, away.dtype, away.min_variance, away.low, away.high) == (rn.count, rn.shape, rn.dtype, rn.min_variance, rn.low, rn.high), "moved-attributes", "")
            if ref.rows:
                ctx.check(away.sum.device.type == "meta" and away.sum_of_squares.device.type == "meta" and away.mean.shape == away.shape, "moved-data", "")
            else:
                ctx.event("move_without_data")
        elif op in ("normalize", "layer"):
            x = draw(ctx.randint(1, 4)) if ctx.flip() else draw()
            if not ref.rows:
                if op == "normalize":
                    ctx.raises(ValueError, lambda: rn.normalize(torch.tensor(x)), "normalize-without-data", "")
                continue
            exp = ref.normalize(x)
            if op == "normalize":
                a = torch.tensor(x) if ctx.flip() else x.copy()
                with Frozen(ctx, "normalize-modified-input", x=a):
                    got = rn.normalize(a)
                ctx.check(isinstance(got, torch.Tensor) == isinstance(a, torch.Tensor), "normalize-type", str(type(got)))
            else:
                lay = rn.to_layer()
                ctx.check(isinstance(lay, ObsNormLayer), "layer-type", str(type(lay)))
                got = lay(torch.tensor(x))
            ctx.close(got, exp, f"{op}-value", f"{len(ref.rows)} rows", rtol=2e-3, atol=2e-3)
            if clip is not None:
                g = to_np(got)
                ctx.check(g.min() >= clip[0] - 1e-6 and g.max() <= clip[1] + 1e-6, "not-clipped", str(g))
        else:
            x = draw(ctx.randint(1, 4))
            mask = None
            if ctx.flip(0.5):
                mask = ctx.np.uniform(size=len(x)) < 0.7
                mask[0] = True
            a = torch.tensor(x) if ctx.flip() else x.copy()
            with Frozen(ctx, "update-and-normalize-modified-input", x=a):
                got = rn.update_and_normalize(a) if mask is None else rn.update_and_normalize(a, mask)
            ref.rows.extend(x if mask is None else x[mask])
            ctx.close(got, ref.normalize(x), "update-and-normalize", "", rtol=2e-3, atol=2e-3)
        ctx.event(op)
        for q, (r2, f2) in enumerate(pairs):
            ctx.check(r2.count == len(f2.rows), "count", f"after {op}: object {q} counts {r2.count}, accepted {len(f2.rows)}")
            if f2.rows:
                m, s = f2.mean_std()
                ctx.close(r2.mean, m, "mean", f"after {op} on object {j}: object {q}", rtol=1e-3, atol=1e-4)
                ctx.close(r2.stdev, s, "stdev", f"after {op} on object {j}: object {q}", rtol=5e-3, atol=2e-3)
                st = r2.stats
                ctx.close(st.mean, m, "stats-mean", "", rtol=1e-3, atol=1e-4)
                ctx.close(st.stdev, s, "stats-stdev", "", rtol=5e-3, atol=2e-3)
                ctx.close(r2.sum, np.sum(np.stack(f2.rows).astype(np.float64), axis=0), "sum", "", rtol=1e-3, atol=1e-3)
                ctx.close(r2.sum_of_squares, np.sum(np.stack(f2.rows).astype(np.float64) ** 2, axis=0), "sum-of-squares", "", rtol=1e-3, atol=1e-3)
        for a, f in given:
            ctx.event("immutability_checks")
            ctx.check(fingerprint(a) == f, "observation-modified", f"an observation handed over earlier changed during {op}")
    bad = torch.zeros((shape[0] + 1,) + shape[1:])
    rn, ref = pairs[0]
    for b in (bad, torch.stack([bad, bad]), torch.zeros((2, 2) + shape)):
        ctx.raises(ValueError, lambda: rn.update(b), "wrong-shape-accepted", f"{tuple(b.shape)} for {shape}")
    ctx.raises(ValueError, lambda: rn.update(torch.zeros((2,) + shape), mask=[True]), "wrong-mask-accepted", "a mask shorter than the batch")
    ctx.raises(ValueError, lambda: rn.update(torch.zeros((2,) + shape), mask=[[True, True]]), "wrong-mask-accepted", "a two-dimensional mask")
    ctx.raises(ValueError, lambda: rn.update(torch.zeros(shape), mask=[True]), "wrong-mask-accepted", "a mask for one observation")
    other = RunningNorm(shape=(shape[0] + 1,) + shape[1:], dtype=tt)
    other.update(bad)
    ctx.raises(ValueError, lambda: rn.update(other), "wrong-shape-merged", "")
    ctx.check(rn.count == len(ref.rows), "count-after-refusals", f"{rn.count}, accepted {len(ref.rows)}")
    ctx.sample(shape=shape, clip=clip, min_variance=minvar, objects=len(pairs), rows=[len(f.rows) for _, f in pairs])


@scenario("C26", quick=200, thorough=5000, needs=["merge", "normalize", "layer"])
def running_stat_histories(ctx):
    shape = ctx.choice([(3,), (1,), (2, 2)])
    pairs = [(RunningStat(), _Ref(shape, 1e-2, None)) for _ in range(ctx.randint(1, 3))]
    given = []
    for step in range(ctx.randint(4, 14)):
        j = ctx.randint(0, len(pairs) - 1)
        rs, ref = pairs[j]
        op = ctx.choice(["single", "single", "single", "merge", "copy", "reset", "normalize", "layer", "to"])
        if op == "reset" and ctx.flip(0.6):
            op = "single"
        ctx.state(op, shape, len(ref.rows) == 0, len(pairs))
        x = ctx.np.normal(size=shape).astype("float32")
        if op == "single":
            a = ctx.choice([x.copy(), x.tolist(), x.astype("float64")])
            given.append((a, fingerprint(a)))
            rs.update(a)
            ref.rows.append(x)
        elif op == "merge":
            o, oref = ctx.choice(pairs)
            rows = list(oref.rows)
            rs.update(copy.deepcopy(o) if o is rs else o)
            ref.rows.extend(rows)
        elif op == "copy" and len(pairs) < 4:
            pairs.append((ctx.choice([copy.copy, copy.deepcopy, lambda a: pickle.loads(pickle.dumps(a))])(rs), ref.copy()))
        elif op == "reset":
            rs.reset()
            ref.rows = []
        elif op == "to":
            ctx.check(rs.to("cpu").count == len(ref.rows), "to-cpu", "")
        elif op == "normalize":
            got = rs.normalize(x)
            ctx.close(got, ref.normalize(x) if ref.rows else x, "stat-normalize", "", rtol=2e-3, atol=2e-3)
        elif op == "layer" and ref.rows:
            ctx.close(rs.to_layer()(torch.tensor(x)), ref.normalize(x), "stat-layer", "", rtol=2e-3, atol=2e-3)
        ctx.event(op)
        for q, (r2, f2) in enumerate(pairs):
            ctx.check(r2.count == len(f2.rows), "stat-count", f"after {op}: {r2.count} vs {len(f2.rows)}")
            if f2.rows:
                m, s = f2.mean_std()
                ctx.close(r2.mean, m, "stat-mean", f"after {op}", rtol=1e-3, atol=1e-4)
                ctx.close(r2.stdev, s, "stat-stdev", f"after {op}", rtol=5e-3, atol=2e-3)
        for a, f in given:
            ctx.check(fingerprint(a) == f, "stat-observation-modified", op)
    ctx.sample(shape=shape, rows=[len(f.rows) for _, f in pairs])
