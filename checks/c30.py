"""C30: vectorised evaluation of policies equals running them one by one."""

import os
import pickle
import tempfile

import gymnasium as gym
import numpy as np
import torch
from evotorch.neuroevolution import VecGymNE
from evotorch.neuroevolution.net import layers
from evotorch.neuroevolution.net.runningnorm import RunningNorm
from evotorch.neuroevolution.net.vecrl import SyncVectorEnv, TorchWrapper, make_gym_env, make_vector_env
from gymnasium.spaces import Box, Discrete, MultiBinary
from torch import nn

from checks.c29 import TOL, Scripted, Stats, World, bonus_at, policy_of
from vmon.compare import to_np
from vmon.engine import Violation, rule, scenario
from vmon.refnet import Ref, is_recurrent

rule("C30", "A case is one history of evaluations in vectorised scripted environments which log every reset, action, observation, reward and end; each policy is replayed alone by a float64 model along the log of its own environment, and fitnesses, counters and statistics are recomputed.")
ASSUMPTIONS = [
    "policies are compared with float64 numpy models within rtol 1e-3",
    "the environment number i of a vectorised environment is used for the policy number i of the population piece",
    "with observation normalisation the statistics are those of all observations acted upon so far by the policies running together",
    "workers run inside the process (local mode of ray), so that their events are seen",
]
NAME = "VmonScripted-v0"
gym.register(id=NAME, entry_point=Scripted)


def make_sync(num_envs, key, extra=0.0, limit=None, empty=False):
    """a vectorised environment given as a function"""
    kw = {}
    if limit is not None:
        kw["num_episodes"] = limit
    return SyncVectorEnv([lambda: Scripted(key, extra)] * num_envs, empty_info=empty, **kw)


class Model:
    """what should have happened, according to the log"""

    def __init__(self, ctx, w, ref, schedule, decrease, episodes, norm, limit=None):
        self.ctx, self.w, self.ref = ctx, w, ref
        self.schedule, self.decrease, self.episodes, self.norm, self.limit = schedule, decrease, episodes, norm, limit
        self.stats, self.collected = Stats(), Stats()
        self.n_steps = self.n_episodes = 0
        self.at = 0

    def piece(self, values, evals, start):
        """consume one piece of the population from the log; returns what it observed"""
        ctx, log = self.ctx, self.w.log
        envs, obs = [], []
        while self.at < len(log) and log[self.at][1] == "reset" and (not envs or log[self.at][0] == envs[-1] + 1):
            envs.append(log[self.at][0])
            obs.append(log[self.at][2])
            self.at += 1
        n = len(values)
        ctx.check(len(envs) >= n, "environments", f"{len(envs)} environments were reset for {n} policies")
        if self.limit is not None:
            ctx.check(len(envs) <= self.limit, "limit", f"{len(envs)} environments used together, the limit is {self.limit}")
            ctx.event("limited")
        if len(envs) > n:
            ctx.event("more_environments")
        nets = [Ref(self.ref, v) for v in values]
        eps, score, t = [0] * n, np.zeros(n), [0] * n
        stats, seen, steps = start.copy(), [], 0
        while True:
            active = [i for i in range(n) if eps[i] < self.episodes]
            if not active:
                break
            rows = [np.asarray(obs[i], dtype=np.float32) for i in active]
            seen += rows
            if self.norm:
                stats.add(rows)
            want = {}
            for i, x in zip(active, rows):
                x = stats.normalize(x) if self.norm else x
                want[i] = (nets[i](x), x)
            stepped = set()
            for i, number in enumerate(envs):
                if self.at >= len(log) or log[self.at][:2] != (number, "step"):
                    continue
                e = log[self.at]
                self.at += 1
                stepped.add(i)
                done = e[5]
                obs[i] = e[2]
                if done and self.at < len(log) and log[self.at][:2] == (number, "reset"):
                    obs[i] = log[self.at][2]
                    self.at += 1
                    if i in want and eps[i] + 1 < self.episodes:
                        done = "again"
                if i not in want:
                    ctx.event("idle_steps")
                    continue
                wrong = self.differs(e[3], *want[i])
                ctx.check(wrong is None, "action", f"environment {i}, step {t[i] + 1} of episode {eps[i] + 1}: {wrong}")
                t[i] += 1
                steps += 1
                ctx.event("steps")
                score[i] += e[4] - self.decrease + bonus_at(self.schedule, t[i])
                if done:
                    eps[i] += 1
                    nets[i].h = None
                    t[i] = 0
                    ctx.event("episodes")
                    ctx.check(done == "again" or eps[i] == self.episodes, "no-reset", f"environment {i} was not reset after its episode {eps[i]} of {self.episodes}")
            ctx.check(set(want) <= stepped, "not-stepped", f"environments {sorted(set(want) - stepped)} were not stepped although their episodes go on")
            if len(want) < n:
                ctx.event("finished_early")
        ctx.close(evals, score / self.episodes, "fitness", f"fitness in {self.episodes} episodes", **TOL)
        ctx.event("fitness", n)
        self.n_steps += steps
        self.n_episodes += n * self.episodes
        return seen

    def differs(self, a, y, x):
        if self.w.discrete:
            if a.ndim or not 0 <= int(a) < len(y) or y[int(a)] < y.max() - 1e-3 * (1 + np.abs(y).max()):
                return f"action {a} where the policy gives {y} for {x}"
            return None
        want = np.clip(y, self.w.space.low, self.w.space.high)
        if a.shape != want.shape or not np.allclose(a, want, **TOL):
            return f"action {a}, expected {want} (policy output {y}) for {x}"
        return None

    def evaluated(self, values, evals, sizes):
        """check an evaluation of a population which was cut into pieces"""
        at = 0
        for k in sizes:
            seen = self.piece(values[at : at + k], evals[at : at + k], self.stats)
            at += k
            self.stats.add(seen)
            self.collected.add(seen)
        self.ctx.check(self.at == len(self.w.log), "more", f"{len(self.w.log) - self.at} further events in the environments")

    def counters(self, p, status=True):
        ctx = self.ctx
        ctx.check(p.interaction_count == self.n_steps, "interactions", f"{p.interaction_count} interactions reported, {self.n_steps} happened")
        ctx.check(p.episode_count == self.n_episodes, "episodes", f"{p.episode_count} episodes reported, {self.n_episodes} happened")
        if status:
            s = p.status
            ctx.check(s["total_interaction_count"] == self.n_steps and s["total_episode_count"] == self.n_episodes, "status", f"status {s}, expected {self.n_steps} interactions and {self.n_episodes} episodes")
        if self.norm:
            rs = p.get_observation_stats()
            if rs is None:
                ctx.check(self.stats.n == 0, "stats-count", f"no statistics, {self.stats.n} observations expected")
            else:
                self.compare(rs, self.stats, "stats")
            ctx.event("stats")
        ctx.event("counted")

    def compare(self, rs, stats, key):
        ctx = self.ctx
        ctx.check(rs.count == stats.n, key + "-count", f"statistics over {rs.count} observations, {stats.n} expected")
        if stats.n:
            m, d = stats.moments()
            ctx.close(to_np(rs.mean), m, key + "-mean", "mean of the observations", **TOL)
            ctx.close(to_np(rs.stdev), d, key + "-stdev", "deviation of the observations", **TOL)


def setup(ctx, w=None, **more):
    w = w or World(ctx)
    w.style, w.only_obs = "new", False
    net, args, ref = policy_of(ctx, w)
    if any(isinstance(q, nn.Dropout) for q in ref.modules()):
        net.eval()
    kw = dict(more)
    if args:
        kw["network_args"] = args
    schedule = ctx.choice([None, None, (2, 1.5), (1, 4, -2.0), (2, 5, 3.0), (3, 3, 1.0), (0, 4, 2.0), [1, 0.5]])
    decrease = ctx.choice([None, None, 0.5, -0.25])
    episodes = ctx.choice([1, 1, 2, 3])
    norm = ctx.flip(0.5)
    if schedule is not None:
        kw["alive_bonus_schedule"] = schedule
        ctx.event("bonus")
    if decrease is not None:
        kw["decrease_rewards_by"] = decrease
        ctx.event("decreased")
    if episodes != 1 or ctx.flip():
        kw["num_episodes"] = episodes
    if norm:
        kw["observation_normalization"] = True
        ctx.event("normalised")
    config = dict(key=w.key)
    if ctx.flip(0.3):
        config["extra"] = 2.0
    if ctx.flip(0.6):
        env = ctx.choice([NAME, "gym::" + NAME])
        config["disable_env_checker"] = True
        ctx.event("by_name")
    else:
        env = make_sync
        config["limit"] = ctx.choice([None, None, episodes])
        config["empty"] = ctx.flip()
        ctx.event("by_function")
    p = VecGymNE(env, net, env_config=config, **kw)
    config["key"] = None
    m = Model(ctx, w, ref, schedule, decrease or 0.0, episodes, norm)
    if w.discrete:
        ctx.event("discrete")
    return p, m, kw


def population(ctx, p, n):
    b = p.generate_batch(n)
    v = torch.randn(n, p.solution_length, generator=ctx.gen) * 0.6
    b.set_values(v)
    return b, v.numpy()


@scenario(
    "C30",
    quick=500,
    thorough=9000,
    needs=["steps", "episodes", "fitness", "counted", "stats", "normalised", "bonus", "decreased", "discrete", "limited", "more_environments", "finished_early", "idle_steps", "by_name", "by_function", "single", "stats_set", "stats_updated", "stats_popped", "stats_shared", "pickled", "cloned", "to_policy", "made_net", "saved", "network_string", "network_info", "network_callable", "policy_own"],
)
def histories(ctx):
    limit = ctx.choice([None, None, 1, 2, 3])
    p, m, kw = setup(ctx, **({} if limit is None else dict(max_num_envs=limit)))
    m.limit = limit
    ctx.check(p.max_num_envs == limit, "limit-property", f"{p.max_num_envs}")
    ctx.check(p.solution_length == sum(q.numel() for q in m.ref.parameters()), "length", f"{p.solution_length}")
    ctx.check(p.senses == ["max"], "sense", f"{p.senses}")
    m.at = len(m.w.log)
    done = False
    for _ in range(ctx.randint(2, 5)):
        op = ctx.choice(["evaluate", "evaluate", "evaluate", "evaluate", "single", "stats", "stats", "restore", "policy", "save"])
        if op in ("evaluate", "single"):
            n = 1 if op == "single" else ctx.randint(1, 5)
            b, v = population(ctx, p, n)
            p.evaluate(b[0] if op == "single" else b)
            sizes = [n] if limit is None else [len(q) for q in b.split(max_size=limit)]
            m.evaluated(v, to_np(b.evals)[:, 0], sizes)
            m.counters(p)
            done = True
            if op == "single":
                ctx.event("single")
        elif op == "stats" and m.norm:
            use_stats(ctx, p, m)
        elif op == "restore":
            if ctx.flip():
                p = pickle.loads(pickle.dumps(p))
                ctx.event("pickled")
            else:
                p = p.clone()
                ctx.event("cloned")
            m.counters(p, status=False)
        elif op == "policy":
            as_policy(ctx, p, m)
            m.at = len(m.w.log)
        elif op == "save":
            save(ctx, p, m, kw)
            m.at = len(m.w.log)
    ctx.state((m.w.discrete, m.norm, m.episodes, limit, m.n_steps))
    ctx.sample(episodes=m.n_episodes, steps=m.n_steps, settings=repr(kw))


def real(stats, dtype):
    rn = RunningNorm(shape=stats.rows[0].shape, dtype=dtype)
    for r in stats.rows:
        rn.update(torch.as_tensor(r))
    return rn


def use_stats(ctx, p, m):
    op = ctx.choice(["set", "update", "pop"])
    if op == "pop":
        rs = p.pop_observation_stats()
        if rs is None:
            ctx.check(m.collected.n == 0, "popped-count", f"nothing popped, {m.collected.n} observations expected")
        else:
            m.compare(rs, m.collected, "popped")
        m.collected = Stats()
        ctx.event("stats_popped")
    else:
        other = Stats()
        other.add([(ctx.np.normal(size=m.w.n_obs) * 2).astype(np.float32) for _ in range(ctx.randint(1, 6))])
        rs = real(other, "float64" if m.w.obs_type is np.float64 else "float32")
        if op == "set":
            p.set_observation_stats(rs)
            m.stats = other.copy()
            ctx.event("stats_set")
        else:
            p.update_observation_stats(rs)
            m.stats.add(other.rows)
            ctx.event("stats_updated")
        m.compare(p.get_observation_stats(), m.stats, "stats-" + op)
        # what was given stays as it was during evaluations, and later changes of it have no effect
        b, v = population(ctx, p, 2)
        p.evaluate(b)
        sizes = [2] if m.limit is None else [len(q) for q in b.split(max_size=m.limit)]
        m.evaluated(v, to_np(b.evals)[:, 0], sizes)
        m.compare(rs, other, "stats-argument")
        rs.update(torch.ones(m.w.n_obs))
        ctx.event("stats_shared")
    if m.stats.n:
        m.compare(p.get_observation_stats(), m.stats, "stats-after-" + op)


def as_policy(ctx, p, m):
    v = torch.randn(p.solution_length, generator=ctx.gen) * 0.6
    b = p.generate_batch(1)
    b.set_values(v[None])
    x = ctx.choice([v.clone(), b[0], [float(i) for i in v]])
    how = ctx.choice(["policy", "policy", "bare", "net"])
    if how == "policy":
        pol = p.to_policy(x)
    elif how == "bare":
        pol = p.to_policy(x, with_wrapper_modules=False)
    else:
        pol = p.make_net(x)
        ctx.event("made_net")
    check_policy(ctx, m, pol, v.numpy(), how == "policy", "to-policy")
    # the policy owns its parameters
    with torch.no_grad():
        for q in pol.parameters():
            q.add_(1.0)
    if isinstance(x, torch.Tensor):
        ctx.check(torch.equal(x, v), "policy-alias", "changing the parameters of the policy changed the given solution")
        ctx.event("policy_own")
    ctx.check(torch.equal(torch.as_tensor(b.values), v[None]), "policy-alias-batch", "changing the parameters of the policy changed the population")
    ctx.event("to_policy")


def check_policy(ctx, m, pol, v, wrapped, key):
    pol.eval()
    net, h = Ref(m.ref, v), None
    for t in range(3):
        x = (ctx.np.normal(size=m.w.n_obs) * 2).astype(np.float32)
        with torch.no_grad():
            out = pol(torch.as_tensor(x)) if h is None else pol(torch.as_tensor(x), h)
        ctx.check(isinstance(out, tuple) == is_recurrent(m.ref), key + ":kind", f"a policy {'with' if is_recurrent(m.ref) else 'without'} hidden state returned a {type(out).__name__}")
        if isinstance(out, tuple):
            out, h = out
        y = net(m.stats.normalize(x) if m.norm and wrapped else x)
        if wrapped and not m.w.discrete:
            y = np.clip(y, m.w.space.low, m.w.space.high)
        ctx.close(to_np(out), y, key, f"output {t} of the policy", **TOL)


def save(ctx, p, m, kw):
    v = (torch.randn(p.solution_length, generator=ctx.gen) * 0.6).numpy()
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "solution.pickle")
        b = p.generate_batch(1)
        b.set_values(torch.as_tensor(v)[None])
        x = ctx.choice([b[0], torch.as_tensor(v), [float(i) for i in v]])
        p.save_solution(x, f)
        with open(f, "rb") as fh:
            got = pickle.load(fh)
    ctx.check(type(got["solution"]) is torch.Tensor, "saved-type", f"{type(got['solution'])}")
    ctx.close(to_np(got["solution"]), v, "saved-solution", "saved solution", rtol=1e-6, atol=1e-7)
    check_policy(ctx, m, got["policy"], v, True, "saved-policy")
    ctx.check(got["interaction_count"] == m.n_steps and got["episode_count"] == m.n_episodes, "saved-counts", f"{got['interaction_count']}, {got['episode_count']}; expected {m.n_steps}, {m.n_episodes}")
    if m.norm and m.stats.n:
        a, s = m.stats.moments()
        ctx.close(to_np(got["obs_mean"]), a, "saved-mean", "saved mean", **TOL)
        ctx.close(to_np(got["obs_stdev"]), s, "saved-stdev", "saved deviation", **TOL)
        ctx.close(to_np(got["obs_sum"]), m.stats.s, "saved-sum", "saved sum", rtol=1e-3, atol=1e-2)
        ctx.close(to_np(got["obs_sum_of_squares"]), m.stats.q, "saved-squares", "saved squares", rtol=1e-3, atol=1e-2)
    else:
        ctx.check("obs_mean" not in got, "saved-extra", "")
    ctx.event("saved")


@scenario("C30", quick=150, thorough=3000, needs=["reset", "stepped", "finished", "auto_reset", "unlimited", "seeded", "infos", "infos_as_list", "tensors", "discrete", "closed", "rejected"])
def sync_vector_env(ctx):
    """stepping together is the same as stepping separately"""
    w = World(ctx)
    w.style, w.only_obs, w.reuse = "new", False, False
    n = ctx.randint(1, 4)
    limit = ctx.choice([None, 1, 2, 3])
    empty = ctx.flip(0.4)
    device = ctx.choice([None, None, "cpu"])
    kw = {}
    if limit is not None:
        kw["num_episodes"] = limit
    if empty:
        kw["empty_info"] = True
    if device is not None:
        kw["device"] = device
    made = []

    class Sub(Scripted):
        """tells who it is, and sometimes more"""

        def __init__(self, i):
            super().__init__(w.key)
            self.i, self.seeds, self.closed = i, [], False

        def reset(self, *, seed=None, options=None):
            self.seeds.append(seed)
            o, _ = super().reset()
            return o, {"who": self.i, "opt": options, "vec": np.full(2, self.i), "ragged": np.zeros(1 + self.i % 2)}

        def step(self, action):
            o, r, d, c, _ = super().step(action)
            info = {"who": self.i, "vec": np.full(2, self.i + 0.5), "ragged": np.ones((1 + self.i % 2, 2)), "text": f"env {self.i}"}
            if self.i == 1:
                info["rare"] = 3.0
            return o, r, d, c, info

        def close(self):
            self.closed = True

    def maker(i):
        def make():
            made.append(Sub(i))
            return made[-1]

        return make

    env = SyncVectorEnv([maker(i) for i in range(n)], **kw)
    ctx.check(env.num_envs == n and env.single_action_space == w.space and env.observation_space.shape == (n, w.n_obs), "spaces", f"{env.num_envs} {env.observation_space}")
    if w.discrete:
        ctx.event("discrete")
    twins = [Scripted(w.key) for _ in range(n)]
    for a, b in zip(made, twins):
        b.r = np.random.default_rng([w.seed, a.number])

    def conv(x):
        if device is not None:
            ctx.check(isinstance(x, torch.Tensor), "device-type", f"{type(x)}")
            ctx.event("tensors")
        else:
            ctx.check(isinstance(x, np.ndarray), "array-type", f"{type(x)}")
        return to_np(x)

    for _ in range(ctx.randint(1, 3)):
        seeded = ctx.flip(0.3)
        obs, info = env.reset(**(dict(seed=11) if seeded else {}))
        want = np.stack([t.reset()[0] for t in twins])
        ctx.check(np.array_equal(conv(obs), want), "reset-obs", f"{obs}, expected {want}")
        check_info(ctx, info, empty, [{"who": i, "opt": None, "vec": np.full(2, i), "ragged": np.zeros(1 + i % 2)} for i in range(n)], device)
        seeds = [a.seeds[-1] for a in made]
        if seeded:
            ctx.check(all(isinstance(s, int) for s in seeds) and len(set(seeds)) == n, "seeds", f"sub-environments got the seeds {seeds}")
            env.seed(11)
            env.reset()
            for t in twins:
                t.reset()
            ctx.check([a.seeds[-1] for a in made] == seeds, "seeds-repeat", f"same seed, sub-environments got {[a.seeds[-1] for a in made]} after {seeds}")
            env.reset()
            for t in twins:
                t.reset()
            ctx.check([a.seeds[-1] for a in made] == [None] * n, "seeds-once", "a seed was used again")
            ctx.event("seeded")
        ctx.event("reset")
        left = [limit] * n
        for t in range(ctx.randint(3, 12)):
            acts = [w.space.sample() for _ in range(n)]
            a = np.stack([np.asarray(q) for q in acts])
            obs, rew, term, trunc, info = env.step(torch.as_tensor(a) if ctx.flip() else a)
            obs, rew, term, trunc = (conv(q) for q in (obs, rew, term, trunc))
            infos = []
            for i in range(n):
                if left[i] == 0:
                    # a finished environment returns nothing usable and is not touched
                    infos.append({})
                    ctx.check(np.all(np.isnan(obs[i])) and np.isnan(rew[i]) and term[i] and trunc[i], "finished", f"finished environment {i} returned {obs[i]}, {rew[i]}, {term[i]}, {trunc[i]}")
                    ctx.event("finished")
                    continue
                o, r, d, c, _ = twins[i].step(acts[i])
                infos.append({"who": i, "vec": np.full(2, i + 0.5), "ragged": np.ones((1 + i % 2, 2)), "text": f"env {i}", **({"rare": 3.0} if i == 1 else {})})
                if d or c:
                    again = twins[i].reset()[0]
                    if left[i] is not None:
                        left[i] -= 1
                    if left[i] != 0:
                        o = again
                        infos[-1] = {"who": i, "opt": None, "vec": np.full(2, i), "ragged": np.zeros(1 + i % 2)}
                        ctx.event("auto_reset")
                ctx.check(np.array_equal(obs[i], o), "obs", f"environment {i}: {obs[i]}, expected {o}")
                ctx.check(float(rew[i]) == float(r), "reward", f"reward of environment {i}: {float(rew[i])!r}, expected {float(r)!r}")
                ctx.check(bool(term[i]) == bool(d) and bool(trunc[i]) == bool(c), "ends", f"environment {i}: {term[i]}, {trunc[i]}; expected {d}, {c}")
            check_info(ctx, info, empty, infos, device)
            ctx.event("stepped")
        if limit is None:
            ctx.event("unlimited")
    for bad in (np.zeros(()), np.zeros((n + 1, 2))):
        ctx.raises(ValueError, lambda: env.step(bad), "bad-action", "an action array of the wrong size")
    env.close()
    ctx.check(all(a.closed for a in made), "close", "sub-environments were left open")
    ctx.event("closed")
    ctx.raises(ValueError, lambda: SyncVectorEnv([]), "no-envs", "no sub-environments")
    ctx.raises(ValueError, lambda: SyncVectorEnv([maker(0)], num_episodes=0), "no-episodes", "num_episodes=0")
    other = World(ctx)
    WORLD2 = other

    def foreign():
        return Scripted(WORLD2.key)

    first = Scripted(other.key)
    for space in (Box(-1, 1, (7,)), Discrete(7)):
        q = Scripted(other.key)
        q.action_space = space
        ctx.raises((TypeError, ValueError), lambda: SyncVectorEnv([lambda: first, lambda: q]), "mixed-actions", f"sub-environments with the action spaces {first.action_space} and {space}")
    q = Scripted(other.key)
    q.observation_space = Box(-1, 1, (9,))
    ctx.raises(ValueError, lambda: SyncVectorEnv([lambda: first, lambda: q]), "mixed-observations", "sub-environments with different observations")
    q.observation_space = Discrete(3)
    ctx.raises(TypeError, lambda: SyncVectorEnv([lambda: q]), "discrete-observations", "discrete observations")
    q = Scripted(other.key)
    q.action_space = MultiBinary(3)
    ctx.raises(TypeError, lambda: SyncVectorEnv([lambda: q]), "unsupported-actions", "binary actions")
    ctx.event("rejected")


def check_info(ctx, info, empty, per_env, device):
    """infos are collected by key; arrays where all environments have the same shape"""
    if empty:
        ctx.check(info == {}, "info-empty", f"{info}")
        return
    keys = set().union(*[set(d) for d in per_env])
    ctx.check(set(info) == keys, "info-keys", f"{sorted(info)}, expected {sorted(keys)}")
    for k in keys:
        vals = [d.get(k) for d in per_env]
        stack = all(k in d and isinstance(d[k], (int, float, np.ndarray)) and np.shape(d[k]) == np.shape(vals[0]) for d in per_env)
        if stack:
            ctx.check(isinstance(info[k], torch.Tensor if device else np.ndarray), "info-type", f"{k}: {type(info[k])}")
            ctx.check(np.array_equal(to_np(info[k]), np.stack(vals)), "info", f"{k}: {info[k]}, expected {vals}")
            ctx.event("infos")
        else:
            ctx.check(isinstance(info[k], list) and len(info[k]) == len(vals) and all(np.array_equal(x, y) if y is not None else x is None for x, y in zip(info[k], vals)), "info-list", f"{k}: {info[k]}, expected {vals}")
            ctx.event("infos_as_list")


class Batched(gym.vector.VectorEnv):
    """a vectorised environment which repeats prepared answers"""

    def __init__(self, w, n, kind, answers):
        self.num_envs = n
        self.single_observation_space = Box(-np.inf, np.inf, (w.n_obs,), np.float32)
        self.single_action_space = w.space
        self.observation_space = Box(-np.inf, np.inf, (n, w.n_obs), np.float32)
        if w.discrete:
            self.action_space = gym.spaces.MultiDiscrete([w.n_act] * n)
        else:
            self.action_space = Box(np.stack([w.space.low] * n), np.stack([w.space.high] * n), dtype=np.float32)
        self.kind, self.answers, self.got = kind, answers, []

    def reset(self, **kw):
        o = self.answers["obs"]
        return o if self.answers["bare"] else (o, {"a": 1})

    def step(self, action):
        self.got.append(action)
        a = self.answers
        if a["ends"] == 4:
            return a["obs"], a["rew"], a["done"], {"a": 2}
        return a["obs"], a["rew"], a["done"], a["done2"], {"a": 2}


@scenario("C30", quick=300, thorough=6000, needs=["wrapped", "numpy", "torch", "single_env", "vectorised", "argmax", "integers", "clipped", "unclipped", "classic", "new_api", "float_ends", "before_reset"])
def torch_wrapper(ctx):
    w = World(ctx)
    n = ctx.randint(1, 4)
    classic, conv, clip = ctx.flip(), ctx.flip(), ctx.flip()
    kw = {}
    if classic:
        kw["force_classic_api"] = True
    if conv:
        kw["discrete_to_continuous_act"] = True
    if clip:
        kw["clip_actions"] = True
    vec = ctx.flip(0.7)
    kind = ctx.choice(["numpy", "torch"]) if vec else "numpy"
    lead = (n,) if vec else ()
    obs = ctx.np.normal(size=lead + (w.n_obs,)).astype(np.float32)
    rew = ctx.np.normal(size=lead).astype(np.float32)
    done, done2 = ctx.np.random(size=lead) < 0.4, ctx.np.random(size=lead) < 0.4
    dt = ctx.choice([bool, bool, np.float32, np.int64])
    if dt is np.float32:
        f = ctx.choice([1.0, 0.25, -1.0, 5.0])
        done, done2, true_done, true_done2 = done * f, done2 * f, done, done2
    else:
        true_done, true_done2 = done, done2
    tens = torch.as_tensor if kind == "torch" else (lambda x: x)
    ans = dict(bare=ctx.flip(), ends=ctx.choice([4, 5]), obs=tens(obs), rew=tens(rew), done=tens(np.asarray(done, dtype=dt)), done2=tens(np.asarray(done2, dtype=dt)))
    if dt is not bool:
        ctx.event("float_ends")
    if vec:
        env = Batched(w, n, kind, ans)
        ctx.event("vectorised")
        ctx.event(kind)
    else:
        env = Scripted(w.key)
        got = []
        env.got = got
        env.reset = lambda **kw: ans["obs"] if ans["bare"] else (ans["obs"], {"a": 1})

        def step(a):
            got.append(a)
            return (ans["obs"], float(rew), bool(done), {"a": 2}) if ans["ends"] == 4 else (ans["obs"], float(rew), bool(done), bool(done2), {"a": 2})

        env.step = step
        ctx.event("single_env")
    t = TorchWrapper(env, **kw)
    if vec:
        ctx.check(t.num_envs == n and t.single_observation_space.shape == (w.n_obs,), "wrapper-spaces", f"{t.single_observation_space}")
    y = torch.randn(*lead, w.n_act, generator=ctx.gen) * 2
    direct = w.discrete and not conv
    action = torch.argmax(y, dim=-1) if direct else y
    ctx.raises(ValueError, lambda: t.step(action), "before-reset", "a step before reset")
    ctx.event("before_reset")
    r = t.reset()
    if classic or ans["bare"]:
        ctx.check(isinstance(r, torch.Tensor), "reset-type", f"{type(r)}")
    else:
        ctx.check(isinstance(r, tuple) and len(r) == 2 and r[1] == {"a": 1}, "reset-type", f"{r}")
        r = r[0]
    ctx.check(isinstance(r, torch.Tensor) and np.array_equal(to_np(r), obs), "reset", f"{r}, expected {obs}")
    before = action.clone()
    out = t.step(action)
    ctx.check(torch.equal(action, before), "action-changed", "the given actions were changed")
    given = env.got[-1]
    ctx.check(isinstance(given, torch.Tensor if kind == "torch" else (np.ndarray, np.generic)), "given-type", f"the environment got {type(given)}")
    given = to_np(given)
    if w.discrete:
        ctx.check(np.array_equal(given, np.argmax(y.numpy(), axis=-1)) and np.issubdtype(given.dtype, np.integer), "argmax", f"the environment got {given} for {y}")
        ctx.event("integers" if direct else "argmax")
    elif clip:
        ctx.close(given, np.clip(y.numpy(), w.space.low, w.space.high), "clipped", "clipped actions")
        ctx.event("clipped")
    else:
        ctx.close(given, y.numpy(), "unclipped", "actions")
        ctx.event("unclipped")
    two = ans["ends"] == 5
    ctx.check(len(out) == (4 if classic or not two else 5), "api", f"{len(out)} results")
    ctx.check(np.array_equal(to_np(out[0]), obs) and np.allclose(to_np(out[1]), rew), "results", f"{out}")
    ctx.check(out[-1] == {"a": 2} and all(isinstance(q, torch.Tensor) for q in out[:-1]), "result-types", f"{out}")
    if classic:
        want = [true_done | true_done2] if two else [true_done]
        ctx.event("classic")
    else:
        want = [true_done, true_done2] if two else [true_done]
        ctx.event("new_api")
    for got, ex in zip(out[2:-1], want):
        ctx.check(got.dtype == torch.bool and np.array_equal(to_np(got), ex), "ends", f"{got}, expected {ex}")
    ctx.event("wrapped")
    ctx.state((vec, kind, classic, conv, clip, w.discrete, two))


@scenario("C30", quick=120, thorough=2000, ray="local", needs=["steps", "episodes", "fitness", "counted", "stats", "normalised", "several_workers", "limited", "pickled", "killed", "few_solutions"])
def workers(ctx):
    k = ctx.randint(2, 3)
    limit = ctx.choice([None, 3, 5, 6])
    more = dict(num_actors=k)
    if limit is not None:
        more["max_num_envs"] = limit
    p, m, kw = setup(ctx, **more)
    if m.norm and m.w.discrete:
        # which policy acted is not always clear from integers
        return
    m.at = len(m.w.log)
    for _ in range(ctx.randint(1, 3)):
        n = ctx.randint(1, 6)
        if n < k:
            ctx.event("few_solutions")
        b, v = population(ctx, p, n)
        p.evaluate(b)
        evals = to_np(b.evals)[:, 0]
        parts(ctx, m, v, evals, limit, k)
        m.counters(p)
        ctx.check(len(p.actors) == k, "actors", f"{len(p.actors)}")
        ctx.event("several_workers")
        ctx.state((k, n, limit, m.episodes))
        if ctx.flip(0.3):
            p2 = pickle.loads(pickle.dumps(p))
            m.counters(p2, status=False)
            p.kill_actors()
            p = p2
            ctx.event("pickled")
        elif ctx.flip(0.3):
            p.kill_actors()
            m.counters(p, status=False)
            ctx.event("killed")
    p.kill_actors()
    ctx.sample(workers=k, limit=limit, episodes=m.n_episodes, steps=m.n_steps)


def parts(ctx, m, v, evals, limit, k):
    """each worker ran parts of the population in its own environments, starting with the statistics of the main problem"""
    log, left, known, seen = m.w.log, list(range(len(v))), [], []
    while m.at < len(log):
        envs, at = [], m.at
        while at < len(log) and log[at][1] == "reset" and (not envs or log[at][0] == envs[-1] + 1):
            envs.append(log[at][0])
            at += 1
        if limit is not None:
            share = -(-limit // k)
            ctx.check(len(envs) <= share, "limit", f"a worker used {len(envs)} environments together; {limit} environments for {k} workers")
            ctx.event("limited")
        starts = [m.stats]
        if m.norm:
            starts = [s for e, s in known if e == envs] + [m.stats] + [s for e, s in known if e != envs]
        # consecutive solutions whose actions and fitnesses explain the log
        ok, why = None, None
        for size in range(min(len(envs), len(left)), 0, -1):
            for i in range(len(left) - size + 1):
                idx = left[i : i + size]
                if idx[-1] - idx[0] != size - 1:
                    continue
                for start in starts:
                    trial = (m.at, m.n_steps, m.n_episodes)
                    try:
                        rows = m.piece(v[idx], evals[idx], start)
                        ok = idx
                        break
                    except Violation as e:
                        why = why or e
                        m.at, m.n_steps, m.n_episodes = trial
                if ok:
                    break
            if ok:
                break
        if ok is None:
            raise why
        seen += rows
        mine = start.copy()
        mine.add(rows)
        known = [(e, s) for e, s in known if s is not start] + [(envs, mine)]
        left = [q for q in left if q not in ok]
    m.stats.add(seen)
    ctx.check(not left, "not-run", f"no episodes for the solutions {left}")


@scenario("C30", quick=8, thorough=80, needs=["noise"])
def noise(ctx):
    s = ctx.choice([0.2, 1.0, 2.5])
    w = World(ctx, n_obs=2)
    w.style, w.only_obs, w.discrete, w.longest = "new", False, False, 40
    w.space = Box(-np.inf, np.inf, (w.n_act,), np.float32)
    net = nn.Linear(2, w.n_act)
    p = VecGymNE(make_sync, net, env_config=dict(key=w.key), action_noise_stdev=s, num_episodes=5)
    n = 8
    b, v = population(ctx, p, n)
    p.evaluate(b)
    # what is added to the output of the policies, with their own model
    out, at, seen = [], 0, {}
    first = w.log[0][0]
    for e in w.log:
        i = e[0] - first
        if e[1] == "step":
            out.append(e[3] - Ref(net, v[i])(seen[i]))
        seen[i] = e[2]
    r = np.stack(out)
    n = len(r)
    ctx.check(n > 300, "noise-steps", f"{n} steps")
    ctx.check(np.all(np.abs(r.mean(axis=0)) < 6 * s / np.sqrt(n)), "noise-mean", f"mean of the noise {r.mean(axis=0)} (stdev {s}, {n} steps)")
    ctx.check(np.all(np.abs(r.std(axis=0) / s - 1) < 6 / np.sqrt(2 * n)), "noise-stdev", f"deviation of the noise {r.std(axis=0)}, asked for {s}")
    c = np.corrcoef(np.concatenate([r[1:], r[:-1]], axis=1).T)
    np.fill_diagonal(c, 0)
    ctx.check(np.abs(c).max() < 6.5 / np.sqrt(n), "noise-correlation", f"noise correlated over time or components: {c}")
    ctx.event("noise")


@scenario("C30", quick=12, thorough=48, ray="local", needs=["cartpole", "pendulum", "named_actors", "rejected", "made"])
def named(ctx):
    k = ctx.index % 4
    if k == 0:
        limit = ctx.choice([None, 1, 3])
        p = VecGymNE("CartPole-v1", "Linear(obs_length, act_length)", max_num_envs=limit, num_episodes=2, env_config=dict(max_episode_steps=20))
        b, v = population(ctx, p, 5)
        p.evaluate(b)
        f = to_np(b.evals)[:, 0] * 2
        ctx.check(np.all(f >= 2) and np.all(f <= 40) and abs(f.sum() - p.interaction_count) < 1e-3 and p.episode_count == 10, "cartpole", f"rewards {f}, {p.interaction_count} interactions, {p.episode_count} episodes")
        ctx.event("cartpole")
    elif k == 1:
        p = VecGymNE("gym::Pendulum-v1", "Linear(obs_length, act_length)", env_config=dict(max_episode_steps=7), num_episodes=3, observation_normalization=True)
        b, v = population(ctx, p, 4)
        p.evaluate(b)
        f = to_np(b.evals)[:, 0]
        ctx.check(np.all(f <= 0) and p.interaction_count == 4 * 3 * 7 == p.get_observation_stats().count and p.episode_count == 12, "pendulum", f"fitnesses {f}, {p.interaction_count} interactions")
        ctx.event("pendulum")
    elif k == 2:
        p = VecGymNE("CartPole-v1", "Linear(obs_length, act_length)", num_actors=ctx.choice(["max", "num_cpus", 2]), env_config=dict(max_episode_steps=9))
        b, v = population(ctx, p, 4)
        p.evaluate(b)
        f = to_np(b.evals)[:, 0]
        ctx.check(np.all(f >= 1) and f.sum() == p.interaction_count and len(p.actors) >= 2, "named-actors", f"{f}, {p.interaction_count} interactions, {len(p.actors)} actors")
        p.kill_actors()
        ctx.event("named_actors")
    else:
        for bad in ((1,), (1, 2, 3, 4)):
            ctx.raises(ValueError, lambda: VecGymNE("CartPole-v1", "Linear(4, 2)", alive_bonus_schedule=bad), "bonus-length", f"the alive bonus schedule {bad}")
        p = VecGymNE("CartPole-v1", "Linear(4, 2)")
        rn = RunningNorm(shape=4, dtype="float32")
        for f in (p.get_observation_stats, p.pop_observation_stats, lambda: p.set_observation_stats(rn), lambda: p.update_observation_stats(rn)):
            ctx.raises(ValueError, f, "no-stats", "observation statistics without normalisation")
        ctx.raises(ValueError, lambda: make_vector_env("nowhere::CartPole-v1", num_envs=2), "registry", "an unknown registry")
        for kw in (dict(empty_info=True), dict(num_episodes=2), dict(device="cpu")):
            ctx.raises(ValueError, lambda: make_gym_env("CartPole-v1", **kw), "single-options", f"{kw} without num_envs")
        env = make_gym_env("CartPole-v1", num_envs=3, force_classic_api=True)
        o = env.reset()
        ctx.check(o.shape == (3, 4) and len(env.step(torch.tensor([0, 1, 0]))) == 4, "made", "")
        env = make_gym_env("CartPole-v1")
        o, _ = env.reset()
        ctx.check(o.shape == (4,) and len(env.step(torch.tensor(1))) == 5, "made-single", "")
        ctx.event("made")
        ctx.event("rejected")


@scenario("C30", quick=6, thorough=24, needs=["locomotor"])
def locomotor(ctx):
    """policies whose output depends on the time since the beginning of the episode"""
    w = World(ctx, n_obs=2)
    w.style, w.only_obs, w.discrete, w.longest, w.reuse = "new", False, False, 4, False
    w.space = Box(-np.inf, np.inf, (w.n_act,), np.float32)
    net = layers.LocomotorNet(in_features=2, out_features=w.n_act, num_sinusoids=1)
    p = VecGymNE(make_sync, net, env_config=dict(key=w.key), num_episodes=2)
    b, v = population(ctx, p, 3)
    p.evaluate(b)
    first = w.log[0][0]
    ctx.event("locomotor")
    seen, t, eps = {}, {}, {}
    m = w.n_act
    for e in w.log:
        i = e[0] - first
        if e[1] == "reset":
            t[i] = 0
            eps[i] = eps.get(i, 0) + 1
        elif t[i] is not None:
            W, c, A, om, ph = np.split(v[i].astype(np.float64), np.cumsum([2 * m, m, m, m]))
            y = W.reshape(m, 2) @ seen[i] + c + A * np.sin(om * t[i] + ph)
            ctx.check(np.allclose(e[3], y, **TOL), "locomotor:first-episode" if eps[i] == 1 else "locomotor:vectorized", f"environment {i}, step {t[i] + 1} of episode {eps[i]}: action {e[3]}, expected {y}")
            t[i] += 1
        seen[i] = e[2]
