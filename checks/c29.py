"""C29: fitness, counters and observation statistics equal what happened in the environment."""

import copy
import itertools
import os
import pickle
import tempfile

import gymnasium as gym
import numpy as np
import torch
from evotorch.algorithms import SNES
from evotorch.decorators import pass_info
from evotorch.neuroevolution import GymNE
from evotorch.neuroevolution.net import layers
from evotorch.neuroevolution.net.multilayered import MultiLayered
from evotorch.neuroevolution.net.rl import AliveBonusScheduleWrapper
from evotorch.neuroevolution.net.runningstat import RunningStat
from gymnasium.spaces import Box, Discrete
from torch import nn

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.refnet import Ref, described, is_recurrent, random_net

rule("C29", "A case is one history of evaluations and runs of policies in scripted environments which log every reset, action, observation, reward and end; fitnesses, counters and statistics are recomputed from the log, actions from float64 models of the policies.")
ASSUMPTIONS = [
    "policies are compared with float64 numpy models within rtol 1e-3",
    "the mean of the observations is not much larger than their deviation",
    "workers run inside the process (local mode of ray), so that their events are seen",
]
TOL = dict(rtol=2e-3, atol=1e-3)
WORLDS = {}
ids = itertools.count()


class World:
    """what environments of one case look like, and the log they share"""

    def __init__(self, ctx, n_obs=None, endless=False):
        self.key = next(ids)
        self.log = []
        self.made = 0
        self.seed = ctx.randint(0, 10**6)
        self.n_obs = n_obs or ctx.randint(1, 4)
        self.n_act = ctx.randint(2, 4)
        self.discrete = ctx.flip(0.3)
        lim = ctx.choice([0.4, 1.0, 3.0])
        if self.discrete:
            self.space = Discrete(self.n_act)
        elif ctx.flip(0.4):
            self.space = Box(-lim, lim / 2, (self.n_act,), np.float32)
        elif ctx.flip(0.3):
            # limited on one side only
            self.space = Box(*ctx.choice([(-lim, np.inf), (-np.inf, lim / 2)]), (self.n_act,), np.float32)
            ctx.event("half_limited")
        else:
            low = np.array([-lim * (i + 1) / 2 for i in range(self.n_act)], dtype=np.float32)
            self.space = Box(low, -0.5 * low, dtype=np.float32)
        self.longest = None if endless else ctx.randint(1, 7)
        self.style = ctx.choice(["old", "new", "new"])
        self.only_obs = ctx.flip(0.3)
        self.reuse = ctx.flip(0.4)
        self.obs_type = ctx.choice([np.float32, np.float32, np.float64])
        self.scale = ctx.choice([0.3, 1.0, 2.0])
        self.loc = ctx.choice([0.0, 0.5, -1.0])
        self.reward_type = ctx.choice([float, np.float64, np.float32])
        self.zero_rewards = ctx.choice([0.0, 0.0, 0.5])
        self.shown = []
        WORLDS.clear()
        WORLDS[self.key] = self


class Scripted(gym.Env):
    metadata = {"render_modes": ["human"], "render_fps": 30}

    def __init__(self, key, extra=0.0, render_mode=None):
        self.w = w = WORLDS[key]
        self.render_mode = render_mode
        self.extra = extra
        self.number = w.made
        w.made += 1
        self.r = np.random.default_rng([w.seed, self.number])
        self.observation_space = Box(-np.inf, np.inf, (w.n_obs,), w.obs_type)
        self.action_space = w.space
        self.buffer = np.zeros(w.n_obs, dtype=w.obs_type)

    def _obs(self):
        x = (self.r.normal(size=self.w.n_obs) * self.w.scale + self.w.loc).astype(self.w.obs_type)
        if self.w.reuse:
            self.buffer[:] = x
            return self.buffer
        return x

    def render(self):
        self.w.shown.append((self.number, self.render_mode))

    def reset(self, *, seed=None, options=None):
        self.left = None if self.w.longest is None else int(self.r.integers(1, self.w.longest + 1))
        o = self._obs()
        self.w.log.append((self.number, "reset", o.copy()))
        return o if self.w.only_obs else (o, {"step": 0})

    def step(self, action):
        a = np.array(action, copy=True)
        o = self._obs()
        reward = float(self.r.normal()) + 0.3 * float(np.sum(a)) + self.extra
        if self.r.random() < self.w.zero_rewards:
            reward = 0.0
        reward = self.w.reward_type(reward)
        done = False
        if self.left is not None:
            self.left -= 1
            done = self.left <= 0
        self.w.log.append((self.number, "step", o.copy(), a, float(reward), done))
        if self.w.style == "old":
            return o, reward, done, {}
        how = int(self.r.integers(0, 3)) if done else 3
        return o, reward, how in (0, 2), np.bool_(how in (1, 2)), {"step": 1}


@pass_info
def make_policy(obs_length, act_length, obs_space, act_space, obs_shape, act_shape, hidden):
    assert obs_space.shape == (obs_length,) == tuple(obs_shape) and act_space.shape == (act_length,) == tuple(act_shape)
    return MultiLayered(nn.Linear(obs_length, hidden), nn.Tanh(), described(layers.RNN(hidden, act_length), "default"))


def plain_policy(n, hidden, m):
    return nn.Sequential(nn.Linear(n, hidden), nn.ReLU(), nn.Linear(hidden, m))


def policy_of(ctx, w):
    """(what is given as network, its arguments, an equal module)"""
    k = ctx.choice(["module", "module", "module", "string", "info", "callable"])
    n, m, hidden = w.n_obs, w.n_act, ctx.randint(1, 3)
    if k == "module":
        net, out = random_net(ctx, n, special=ctx.flip(), top=3)
        net = MultiLayered(net, nn.Linear(out, m))
        if ctx.flip(0.3):
            # only quiet while evaluating
            net = MultiLayered(nn.Dropout(0.9), net)
        ref = copy.deepcopy(net)
        return net, {}, ref
    ctx.event("network_" + k)
    if k == "string":
        s, ref = ctx.choice(
            [
                ("Linear(obs_length, hidden) >> Tanh() >> Linear(hidden, act_length)", MultiLayered(nn.Linear(n, hidden), nn.Tanh(), nn.Linear(hidden, m))),
                ("RNN(obs_length, hidden) >> Linear(hidden, act_space[0])", MultiLayered(described(layers.RNN(n, hidden), "default"), nn.Linear(hidden, m))),
                ("LSTM(obs_shape[0], act_shape[0])", layers.LSTM(n, m)),
                ("Linear(obs_space[0], act_length, bias=False)", nn.Linear(n, m, bias=False)),
            ]
        )
        return s, dict(hidden=hidden), ref
    if k == "info":
        return make_policy, dict(hidden=hidden), MultiLayered(nn.Linear(n, hidden), nn.Tanh(), described(layers.RNN(hidden, m), "default"))
    return plain_policy, dict(n=n, hidden=hidden, m=m), plain_policy(n, hidden, m)


class Stats:
    """statistics over recorded rows"""

    def __init__(self):
        self.rows = []
        self.n, self.s, self.q = 0, 0.0, 0.0

    def copy(self):
        c = Stats()
        c.add(self.rows)
        return c

    def add(self, rows):
        for r in rows:
            r = np.asarray(r, dtype=np.float64)
            self.rows.append(r)
            self.n += 1
            self.s = self.s + r
            self.q = self.q + r * r

    def moments(self):
        m = self.s / self.n
        return m, np.sqrt(np.maximum(self.q / self.n - m * m, 1e-2))

    def normalize(self, x):
        if self.n == 0:
            return np.asarray(x, dtype=np.float64)
        m, d = self.moments()
        return (np.asarray(x, dtype=np.float64) - m) / d

    def compare(self, ctx, rs, key):
        ctx.check(rs.count == self.n, key + "-count", f"statistics over {rs.count} observations, {self.n} expected")
        if self.n:
            m, d = self.moments()
            ctx.close(rs.mean, m, key + "-mean", "mean of the observations", **TOL)
            ctx.close(rs.stdev, d, key + "-stdev", "deviation of the observations", **TOL)
            ctx.close(rs.sum, self.s, key + "-sum", "sum", rtol=1e-3, atol=1e-2)
            ctx.close(rs.sum_of_squares, self.q, key + "-squares", "sum of squares", rtol=1e-3, atol=1e-2)

    def real(self, ctx):
        rs = RunningStat()
        for r in self.rows:
            rs.update(np.asarray(r, dtype=np.float32))
        return rs


def bonus_at(schedule, t):
    if schedule is None:
        return 0.0
    t0, t1, b = schedule if len(schedule) == 3 else (schedule[0], schedule[0], schedule[1])
    if t >= t1:
        return b
    if t1 > t0 and t >= t0:
        return b * (t - t0) / (t1 - t0)
    return 0.0


def assign(able):
    """one solution for each group of episodes, None if there is no such assignment"""
    of = {}

    def place(g, tried):
        for i in able[g]:
            if i not in tried:
                tried.add(i)
                if i not in of or place(of[i], tried):
                    of[i] = g
                    return True
        return False

    if not all(place(g, set()) for g in range(len(able))):
        return None
    return [i for _, i in sorted((g, i) for i, g in of.items())]


class Model:
    """what the problem should have counted, according to the log"""

    def __init__(self, ctx, w, ref, length, schedule, decrease, episodes, norm, noise=None):
        self.ctx, self.w, self.ref = ctx, w, ref
        self.length, self.schedule, self.decrease, self.episodes, self.norm = length, schedule, decrease, episodes, norm
        self.noise = noise
        self.stats, self.collected = Stats(), Stats()
        self.n_steps = self.n_episodes = 0
        self.mark = 0

    def take(self):
        """the new part of the log, as episodes of each environment"""
        ctx, new = self.ctx, self.w.log[self.mark :]
        self.mark = len(self.w.log)
        per = {}
        for e in new:
            eps = per.setdefault(e[0], [])
            if e[1] == "reset":
                eps.append([e])
                continue
            ctx.check(bool(eps), "step-before-reset", "an environment was stepped without having been reset")
            ctx.check(len(eps[-1]) == 1 or not eps[-1][-1][5], "step-after-end", "an environment was stepped after its episode had ended")
            eps[-1].append(e)
            ctx.event("steps")
        for eps in per.values():
            for ep in eps:
                t = len(ep) - 1
                ctx.check(t > 0, "empty-episode", "an environment was reset and never stepped")
                ctx.check(self.length is None or t <= self.length, "too-long", f"{t} steps, the limit is {self.length}")
                ended = ep[-1][5]
                ctx.check(ended or t == self.length, "stopped-early", f"an episode was stopped after {t} steps (limit {self.length}) before its end")
                ctx.event("ended" if ended else "cut")
                ctx.event("episodes")
        return per

    def actions_of(self, values, eps, stats):
        """what a solution would do in these episodes; stats: changed along the way when given"""
        wrong = None
        for ep in eps:
            net = Ref(self.ref, values)
            obs = ep[0][2]
            if stats is not None and stats[1]:
                stats[0].add([np.asarray(obs, dtype=np.float32)])
            for e in ep[1:]:
                x = np.asarray(obs, dtype=np.float32) if stats is None else stats[0].normalize(np.asarray(obs, dtype=np.float32))
                y = net(x)
                a = e[3]
                if self.noise is None:
                    wrong = wrong or self.differs(a, y, x)
                else:
                    self.noise.append(np.asarray(a, dtype=np.float64) - y)
                obs = e[2]
                if stats is not None and stats[1]:
                    stats[0].add([np.asarray(obs, dtype=np.float32)])
        return wrong

    def differs(self, a, y, x):
        if self.w.discrete:
            if a.ndim or not 0 <= int(a) < len(y) or y[int(a)] < y.max() - 1e-3 * (1 + np.abs(y).max()):
                return f"action {a} where the policy gives {y} for {x}"
            return None
        want = np.clip(y, self.w.space.low, self.w.space.high)
        if a.shape != want.shape or not np.allclose(a, want, **TOL):
            return f"action {a}, expected {want} (policy output {y}) for {x}"
        return None

    def score(self, eps, decrease=None):
        d = self.decrease if decrease is None else decrease
        return float(np.mean([sum(e[4] - d + bonus_at(self.schedule, t) for t, e in enumerate(ep[1:], 1)) for ep in eps]))

    def evaluated(self, values, evals, workers=False):
        """check the evaluation of a population"""
        ctx, k = self.ctx, self.episodes
        per = self.take()
        groups = []
        start = self.stats.copy()
        for eps in per.values():
            ctx.check(len(eps) % k == 0, "episode-count", f"{len(eps)} episodes, {k} per policy")
            mine = start.copy()
            for g in range(0, len(eps), k):
                group, first, able, after = eps[g : g + k], None, [], None
                want = self.score(group)
                for i in range(len(values)):
                    after = mine.copy() if self.norm else None
                    wrong = self.actions_of(values[i], group, None if after is None else [after, True])
                    if wrong is None:
                        able.append(i)
                    first = first or wrong
                if not able:
                    ctx.fail("actions", f"episodes which none of the solutions explains: {first}")
                if after is not None:
                    mine = after  # depends on the episodes only
                ctx.event("explained")
                groups.append((able, want))
            seen = [e[2] for ep in eps for e in ep]
            self.stats.add([np.asarray(o, dtype=np.float32) for o in seen])
            if not workers:
                self.collected.add([np.asarray(o, dtype=np.float32) for o in seen])
            self.n_episodes += len(eps)
            self.n_steps += sum(len(ep) - 1 for ep in eps)
        # several solutions may do the same: each must have episodes of its own
        mine = assign([able for able, _ in groups])
        ctx.check(mine is not None and len(groups) == len(values), "not-run", f"{len(groups)} groups of episodes, explained by the solutions {[able for able, _ in groups]}, for {len(values)} solutions")
        same = assign([[i for i in able if np.allclose(evals[i], want, **TOL)] for able, want in groups])
        if same is None:
            for g, i in enumerate(mine):
                ctx.close(evals[i], groups[g][1], "fitness", f"fitness of solution {i} in {k} episodes", **TOL)
            ctx.fail("fitness", f"fitnesses {evals} for the episodes {groups}")
        ctx.event("fitness", len(groups))

    def counters(self, problem, status=True):
        ctx = self.ctx
        ctx.check(problem.interaction_count == self.n_steps, "interactions", f"{problem.interaction_count} interactions reported, {self.n_steps} happened")
        ctx.check(problem.episode_count == self.n_episodes, "episodes", f"{problem.episode_count} episodes reported, {self.n_episodes} happened")
        if status:
            s = problem.status
            ctx.check(s["total_interaction_count"] == self.n_steps and s["total_episode_count"] == self.n_episodes, "status", f"status {s}, expected {self.n_steps} interactions and {self.n_episodes} episodes")
        if self.norm:
            self.stats.compare(ctx, problem.get_observation_stats(), "stats")
            ctx.event("stats")
        ctx.event("counted")


class Pieces(GymNE):
    """notes how many solutions it is given at once"""

    def _evaluate_batch(self, batch):
        SIZES.append(len(batch))
        super()._evaluate_batch(batch)


SIZES = []


def setup(ctx, cls=GymNE, noise=None, **more):
    endless = ctx.flip(0.2)
    w = World(ctx, endless=endless)
    net, args, ref = policy_of(ctx, w)
    length = ctx.randint(1, 6) if endless or ctx.flip(0.6) else None
    schedule = ctx.choice([None, None, (2, 1.5), (1, 4, -2.0), (2, 5, 3.0), (3, 3, 1.0), (0, 4, 2.0), [1, 0.5]])
    decrease = ctx.choice([None, None, 0.5, -0.25])
    episodes = ctx.choice([1, 1, 2, 3])
    norm = ctx.flip(0.6)
    kw = dict(more)
    if args:
        kw["network_args"] = args
    if length is not None:
        kw["episode_length"] = length
    if schedule is not None:
        kw["alive_bonus_schedule"] = schedule
        ctx.event("bonus")
    if decrease is not None:
        kw["decrease_rewards_by"] = decrease
        ctx.event("decreased")
    if episodes != 1 or ctx.flip():
        kw["num_episodes"] = episodes
    if norm:
        kw["observation_normalization"] = True
        ctx.event("normalised")
    if noise is not None:
        kw["action_noise_stdev"] = noise
    if ctx.flip():
        kw["initial_bounds"] = (-0.7, 0.7)
    config = dict(key=w.key)
    if ctx.flip(0.3):
        config["extra"] = 2.0
    if ctx.flip(0.2):
        kw["env_name"] = Scripted
    else:
        kw["env"] = Scripted
    p = cls(network=net, env_config=config, **kw)
    config["key"] = None
    m = Model(ctx, w, ref, length, schedule, decrease or 0.0, episodes, norm, None if noise is None else [])
    if w.discrete:
        ctx.event("discrete")
    if w.style == "old":
        ctx.event("four_results")
    return p, m, kw


def population(ctx, p, n):
    b = p.generate_batch(n)
    v = torch.randn(n, p.solution_length, generator=ctx.gen) * 0.6
    b.set_values(v)
    return b, v.numpy()


@scenario(
    "C29",
    quick=500,
    thorough=9000,
    needs=["steps", "episodes", "ended", "cut", "explained", "fitness", "counted", "stats", "normalised", "bonus", "decreased", "discrete", "four_results", "runs", "visualized", "runs_counted", "runs_uncounted", "single", "stats_set", "stats_updated", "stats_popped", "pickled", "cloned", "to_policy", "policy_clipped", "policy_unclipped", "saved", "network_string", "network_info", "network_callable", "searched"],
)
def histories(ctx):
    p, m, kw = setup(ctx)
    w = m.w
    ctx.check(p.solution_length == sum(q.numel() for q in m.ref.parameters()), "length", f"{p.solution_length}")
    ctx.check(p.senses == ["max"], "sense", f"{p.senses}")
    ctx.check(p.observation_normalization is m.norm, "norm-flag", "")
    evaluated = False
    m.mark = len(w.log)
    for _ in range(ctx.randint(2, 5)):
        op = ctx.choice(["evaluate", "evaluate", "evaluate", "single", "run", "run", "run", "stats", "restore", "policy", "save", "search"])
        if op == "evaluate":
            b, v = population(ctx, p, ctx.randint(1, 4))
            p.evaluate(b)
            m.evaluated(v, to_np(b.evals)[:, 0])
            evaluated = True
            m.counters(p)
        elif op == "single":
            b, v = population(ctx, p, 1)
            p.evaluate(b[0])
            m.evaluated(v, to_np(b.evals)[:, 0])
            evaluated = True
            m.counters(p)
            ctx.event("single")
        elif op == "run":
            run_policy(ctx, p, m, evaluated)
        elif op == "stats" and m.norm:
            p = use_stats(ctx, p, m)
        elif op == "restore":
            if ctx.flip():
                p = pickle.loads(pickle.dumps(p))
                ctx.event("pickled")
            else:
                p = p.clone()
                ctx.event("cloned")
            m.counters(p, status=False)
        elif op == "policy":
            as_policy(ctx, p, m)
        elif op == "save":
            save(ctx, p, m, kw)
        elif op == "search" and not evaluated:
            s = SNES(p, stdev_init=0.3, popsize=3)
            for _ in range(2):
                s.step()
                m.evaluated(to_np(s.population.values), to_np(s.population.evals)[:, 0])
                evaluated = True
                m.counters(p)
                ctx.check(s.status["total_interaction_count"] == m.n_steps and s.status["total_episode_count"] == m.n_episodes, "search-status", f"{s.status['total_interaction_count']}, {s.status['total_episode_count']}")
            ctx.event("searched")
    ctx.state((w.discrete, m.norm, m.episodes, m.length, m.n_steps))
    ctx.sample(episodes=m.n_episodes, steps=m.n_steps, settings=repr({k: v for k, v in kw.items() if k not in ("env", "env_name")}))


def run_policy(ctx, p, m, evaluated):
    v = (torch.randn(p.solution_length, generator=ctx.gen) * 0.6).numpy()
    form = ctx.choice(["tensor", "list", "module", "solution"])
    if form == "tensor":
        x = torch.as_tensor(v)
    elif form == "list":
        x = [float(i) for i in v]
    elif form == "module":
        x = p.make_net(v)
    else:
        b = p.generate_batch(1)
        b.set_values(torch.as_tensor(v)[None])
        x = b[0]
    count = ctx.flip(0.4)
    kw = {}
    if count or ctx.flip(0.3):
        kw["update_stats"] = count
    k = m.episodes
    if ctx.flip(0.4):
        k = kw["num_episodes"] = ctx.randint(1, 3)
    d = None
    if ctx.flip(0.3):
        d = kw["decrease_rewards_by"] = ctx.choice([0.0, 1.0, -0.5])
    m.mark = len(m.w.log)
    m.w.shown.clear()
    show = ctx.flip(0.25)
    if show:
        # one episode unless told otherwise
        k = kw.get("num_episodes", 1)
        if ctx.flip(0.2):
            kw["num_episodes"] = None
            k = m.episodes
        out = p.visualize(x, **kw)
        ctx.event("visualized")
    else:
        out = p.run(x, **kw)
    shown = list(m.w.shown)
    per = m.take()
    if show:
        want = sorted((i, "human") for i, e in per.items() for ep in e for _ in ep)
        ctx.check(sorted(shown) == want, "run-shown", lambda: f"rendered (environment, mode) {shown}, expected {want}")
    else:
        ctx.check(not shown, "run-shown", lambda: f"rendered without being asked: {shown}")
    eps = [ep for e in per.values() for ep in e]
    ctx.check(len(eps) == k, "run-episodes", f"{len(eps)} episodes, {k} asked for")
    stats = m.stats if count else m.stats.copy()
    wrong = m.actions_of(v, eps, [stats, count] if m.norm else None)
    ctx.check(wrong is None, "run-actions", f"{wrong}")
    steps = sum(len(ep) - 1 for ep in eps)
    ctx.close(out["cumulative_reward"], m.score(eps, d), "run-reward", f"reward over {k} episodes", **TOL)
    ctx.check(out["interaction_count"] == steps, "run-interactions", f"{out['interaction_count']} reported, {steps} happened")
    if count:
        m.n_steps += steps
        m.n_episodes += len(eps)
        m.collected.add([np.asarray(e[2], dtype=np.float32) for ep in eps for e in ep])
        ctx.event("runs_counted")
    else:
        ctx.event("runs_uncounted")
    m.counters(p, status=False)
    ctx.event("runs")


def use_stats(ctx, p, m):
    op = ctx.choice(["set", "update", "pop"])
    if op == "pop":
        m.collected.compare(ctx, p.pop_observation_stats(), "popped")
        m.collected = Stats()
        ctx.event("stats_popped")
    else:
        other = Stats()
        other.add([(ctx.np.normal(size=m.w.n_obs) * 2).astype(np.float32) for _ in range(ctx.randint(1, 6))])
        rs = other.real(ctx)
        if op == "set":
            p.set_observation_stats(rs)
            m.stats = other.copy()
            ctx.event("stats_set")
        else:
            p.update_observation_stats(rs)
            m.stats.add(other.rows)
            ctx.event("stats_updated")
        # what was given stays as it was, and later changes of it have no effect
        m.stats.compare(ctx, p.get_observation_stats(), "stats-" + op)
        other.compare(ctx, rs, "stats-argument")
        rs.update(np.ones(m.w.n_obs, dtype=np.float32))
    m.stats.compare(ctx, p.get_observation_stats(), "stats-" + op)
    return p


def as_policy(ctx, p, m):
    v = (torch.randn(p.solution_length, generator=ctx.gen) * 0.6).numpy()
    clip = ctx.choice([None, True, False])
    pol = p.to_policy(torch.as_tensor(v), **({} if clip is None else {"clip_actions": clip}))
    check_policy(ctx, m, pol, v, clip is not False, m.stats, "to-policy")
    ctx.event("to_policy")
    if not m.w.discrete:
        ctx.event("policy_unclipped" if clip is False else "policy_clipped")


def check_policy(ctx, m, pol, v, clip, stats, key):
    pol.eval()
    net, h = Ref(m.ref, v), None
    for t in range(3):
        x = (ctx.np.normal(size=m.w.n_obs) * 2).astype(np.float32)
        with torch.no_grad():
            out = pol(torch.as_tensor(x)) if h is None else pol(torch.as_tensor(x), h)
        ctx.check(isinstance(out, tuple) == is_recurrent(m.ref), key + ":kind", f"a policy {'with' if is_recurrent(m.ref) else 'without'} hidden state returned a {type(out).__name__}")
        if isinstance(out, tuple):
            out, h = out
        y = net(stats.normalize(x) if m.norm else x)
        if clip and not m.w.discrete:
            y = np.clip(y, m.w.space.low, m.w.space.high)
        ctx.close(to_np(out), y, key, f"output {t} of the policy", rtol=2e-3, atol=1e-3)


def save(ctx, p, m, kw):
    v = (torch.randn(p.solution_length, generator=ctx.gen) * 0.6).numpy()
    if m.norm and m.stats.n == 0:
        return
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "solution.pickle")
        b = p.generate_batch(1)
        b.set_values(torch.as_tensor(v)[None])
        x = ctx.choice([b[0], torch.as_tensor(v), [float(i) for i in v]])
        p.save_solution(x, f)
        with open(f, "rb") as fh:
            got = pickle.load(fh)
    ctx.check(type(got["solution"]) is torch.Tensor, "saved-type", f"{type(got['solution'])}")
    ctx.close(to_np(got["solution"]), v, "saved-solution", "saved solution", rtol=1e-6, atol=1e-7)
    check_policy(ctx, m, got["policy"], v, True, m.stats, "saved-policy")
    ctx.check(got["interaction_count"] == m.n_steps and got["episode_count"] == m.n_episodes, "saved-counts", f"{got['interaction_count']}, {got['episode_count']}; expected {m.n_steps}, {m.n_episodes}")
    if m.norm:
        a, s = m.stats.moments()
        ctx.close(to_np(got["obs_mean"]), a, "saved-mean", "saved mean", **TOL)
        ctx.close(to_np(got["obs_stdev"]), s, "saved-stdev", "saved deviation", **TOL)
        ctx.close(to_np(got["obs_sum"]), m.stats.s, "saved-sum", "saved sum", rtol=1e-3, atol=1e-2)
        ctx.close(to_np(got["obs_sum_of_squares"]), m.stats.q, "saved-squares", "saved squares", rtol=1e-3, atol=1e-2)
    else:
        ctx.check("obs_mean" not in got, "saved-extra", "")
    ctx.event("saved")


@scenario("C29", quick=120, thorough=2000, ray="local", needs=["steps", "episodes", "ended", "cut", "explained", "fitness", "counted", "stats", "normalised", "bonus", "several_workers", "subbatches", "subbatch_size", "pickled", "killed", "sizes", "stats_set"])
def workers(ctx):
    k = ctx.randint(2, 3)
    more = dict(num_actors=k)
    how = ctx.choice(["default", "number", "number", "size", "size"])
    if how == "number":
        more["num_subbatches"] = ctx.randint(2, 6)
        ctx.event("subbatches")
    elif how == "size":
        more["subbatch_size"] = ctx.randint(1, 3)
        ctx.event("subbatch_size")
    p, m, kw = setup(ctx, cls=Pieces, **more)
    m.mark = len(m.w.log)
    for t in range(ctx.randint(1, 3)):
        n = ctx.randint(3, 7)
        if how == "number":
            n = max(n, more["num_subbatches"])
        b, v = population(ctx, p, n)
        SIZES.clear()
        if m.norm and ctx.flip(0.2):
            other = Stats()
            other.add([(ctx.np.normal(size=m.w.n_obs) * 2).astype(np.float32) for _ in range(ctx.randint(1, 6))])
            p.set_observation_stats(other.real(ctx))
            m.stats = other
            ctx.event("stats_set")
        p.evaluate(b)
        m.evaluated(v, to_np(b.evals)[:, 0], workers=True)
        m.counters(p)
        sizes = sorted(SIZES)
        ctx.check(sum(sizes) == n, "pieces-sum", f"workers got {sizes} solutions of {n}")
        if how == "number":
            ctx.check(len(sizes) == more["num_subbatches"] and sizes[-1] - sizes[0] <= 1, "pieces-number", f"workers got pieces of {sizes}; {more['num_subbatches']} pieces asked for")
        elif how == "size":
            ctx.check(sizes[-1] <= more["subbatch_size"], "pieces-size", f"workers got pieces of {sizes}; at most {more['subbatch_size']} asked for")
        ctx.event("sizes")
        ctx.check(len(p.actors) == k, "actors", f"{len(p.actors)}")
        ctx.event("several_workers")
        ctx.state((how, k, n, m.norm, m.episodes))
        if ctx.flip(0.3):
            p2 = pickle.loads(pickle.dumps(p))
            m.counters(p2, status=False)
            p.kill_actors()
            p = p2
            ctx.event("pickled")
        elif ctx.flip(0.2):
            p.kill_actors()
            m.counters(p, status=False)
            ctx.event("killed")
    p.kill_actors()
    ctx.sample(workers=k, settings=repr(more), episodes=m.n_episodes, steps=m.n_steps)


@scenario("C29", quick=16, thorough=120, needs=["noise", "seeded_noise", "noisy_argmax", "noisy_clipped"])
def noise(ctx):
    s = ctx.choice([0.2, 1.0, 2.5])
    w = World(ctx, n_obs=2, endless=True)
    discrete = ctx.index % 4 == 2
    limited = ctx.index % 4 == 3
    w.discrete = discrete
    w.style = "new"
    w.space = Discrete(w.n_act) if discrete else Box(np.full(w.n_act, -0.1, dtype=np.float32), np.arange(1, w.n_act + 1, dtype=np.float32) / 10) if limited else Box(-np.inf, np.inf, (w.n_act,), np.float32)
    ref = nn.Linear(2, w.n_act, bias=ctx.flip())
    v = np.zeros(sum(q.numel() for q in ref.parameters()), dtype=np.float32) if discrete else (torch.randn(sum(q.numel() for q in ref.parameters()), generator=ctx.gen) * 0.5).numpy()
    p = GymNE(Scripted, ref, env_config=dict(key=w.key), action_noise_stdev=s, episode_length=500)
    m = Model(ctx, w, copy.deepcopy(ref), 500, None, 0.0, 1, False, noise=[])

    def one(seed):
        p.manual_seed(seed)
        m.mark = len(w.log)
        p.run(torch.as_tensor(v), num_episodes=4)
        return [e for e in w.log[m.mark :] if e[1] == "step"]

    a = one(5)
    if discrete:
        n = np.bincount([int(e[3]) for e in a], minlength=w.n_act)
        want = len(a) / w.n_act
        ctx.check(np.all(np.abs(n - want) < 6 * np.sqrt(want)), "argmax-noise", f"with pure noise the actions were {n}")
        ctx.event("noisy_argmax")
        return
    if limited:
        acts = np.stack([e[3] for e in a])
        ctx.check(np.all(acts >= w.space.low) and np.all(acts <= w.space.high), "noise-limits", f"actions between {acts.min(axis=0)} and {acts.max(axis=0)} were sent to an environment with the action space {w.space}")
        hit = np.mean((acts == w.space.low) | (acts == w.space.high))
        ctx.check(hit > 0.05, "noise-before-limits", f"only {hit} of the noisy actions were at a limit")
        ctx.event("noisy_clipped")
        return
    m.mark = 0
    eps = [ep for e in m.take().values() for ep in e]
    m.actions_of(v, eps, None)
    r = np.stack(m.noise)
    n = len(r)
    ctx.check(np.all(np.abs(r.mean(axis=0)) < 6 * s / np.sqrt(n)), "noise-mean", f"mean of the noise {r.mean(axis=0)} (stdev {s}, {n} steps)")
    ctx.check(np.all(np.abs(r.std(axis=0) / s - 1) < 6 / np.sqrt(2 * n)), "noise-stdev", f"deviation of the noise {r.std(axis=0)}, asked for {s}")
    tail = np.mean(np.abs(r) > 2 * s)
    ctx.check(0.02 < tail < 0.08, "noise-tail", f"{tail} of the noise beyond two deviations")
    c = np.corrcoef(np.concatenate([r[1:], r[:-1]], axis=1).T)
    np.fill_diagonal(c, 0)
    ctx.check(np.abs(c).max() < 6 / np.sqrt(n), "noise-correlation", f"noise correlated over time or components: {c}")
    ctx.event("noise")
    b1, b2 = one(7), one(7)
    m.noise = []
    m.mark = 0
    m.take()
    for e1, e2 in zip(b1, b2):
        pass
    # environments differ between the two runs, so compare what remains after the policy
    both = []
    for es in (b1, b2):
        m.noise = []
        at = next(i for i, e in enumerate(w.log) if e is es[0]) - 1
        seq = w.log[at : at + len(es) + 4]
        eps = []
        for e in seq:
            if e[1] == "reset":
                eps.append([e])
            else:
                eps[-1].append(e)
        m.actions_of(v, eps, None)
        both.append(np.stack(m.noise))
    ctx.close(both[0], both[1], "noise-seed", "noise with the same seed", rtol=1e-3, atol=1e-3)
    ctx.event("seeded_noise")


@scenario("C29", quick=80, thorough=1500, needs=["wrapped", "linear_part", "rejected"])
def bonus(ctx):
    w = World(ctx, endless=True)
    sched = ctx.choice([(ctx.randint(0, 4), ctx.uniform(-2, 2)), (ctx.randint(0, 3), ctx.randint(0, 7), ctx.uniform(-2, 2))])
    env = AliveBonusScheduleWrapper(Scripted(w.key), sched)
    for _ in range(ctx.randint(1, 3)):
        env.reset()
        for t in range(1, ctx.randint(2, 9)):
            a = w.space.sample()
            out = env.step(a)
            raw = w.log[-1]
            ctx.close(out[1], raw[4] + bonus_at(sched, t), "bonus", f"reward at step {t} with the schedule {sched}")
            ctx.check(np.array_equal(out[0], raw[2]) and len(out) == (4 if w.style == "old" else 5), "bonus-rest", f"{out}")
            if len(sched) == 3 and sched[0] <= t < sched[1]:
                ctx.event("linear_part")
        ctx.event("wrapped")
    ctx.raises(ValueError, lambda: AliveBonusScheduleWrapper(Scripted(w.key), (1, 2, 3, 4)), "bonus-length", "a schedule of four numbers")
    ctx.raises(ValueError, lambda: AliveBonusScheduleWrapper(Scripted(w.key), (1,)), "bonus-length", "a schedule of one number")
    ctx.event("rejected")


@scenario("C29", quick=9, thorough=40, needs=["named", "rejected"])
def named(ctx):
    k = ctx.index % 3
    if k == 0:
        n = ctx.choice([None, 5, 30])
        p = GymNE("CartPole-v1", "Linear(obs_length, act_length)", **({} if n is None else dict(episode_length=n)), initial_bounds=(-1, 1))
        b = p.generate_batch(4)
        p.evaluate(b)
        f = to_np(b.evals)[:, 0]
        ctx.check(np.all(f >= 1) and np.all(f <= (n or 500)) and f.sum() == p.interaction_count and p.episode_count == 4, "cartpole", f"fitnesses {f}, {p.interaction_count} interactions, {p.episode_count} episodes")
        ctx.event("named")
    elif k == 1:
        p = GymNE("Pendulum-v1", "Linear(obs_length, act_length)", env_config=dict(g=1.0), num_episodes=2, episode_length=20, initial_bounds=(-1, 1))
        ctx.check(p.get_env().unwrapped.g == 1.0, "config", "the environment did not get its configuration")
        b = p.generate_batch(3)
        p.evaluate(b)
        f = to_np(b.evals)[:, 0]
        ctx.check(np.all(f <= 0) and p.interaction_count == 3 * 2 * 20 and p.episode_count == 6, "pendulum", f"fitnesses {f}, {p.interaction_count} interactions")
    else:
        w = World(ctx)
        ctx.raises(ValueError, lambda: GymNE(network="Linear(2, 2)"), "no-env", "no environment")
        ctx.raises(ValueError, lambda: GymNE(env=Scripted, env_name=Scripted, network="Linear(2, 2)", env_config=dict(key=w.key)), "two-envs", "two environments")
        ctx.raises(ValueError, lambda: GymNE(env=Scripted, env_config=dict(key=w.key)), "no-network", "no network")
        p = GymNE(env=Scripted, network=nn.Linear(w.n_obs, w.n_act), env_config=dict(key=w.key))
        for f in (p.get_observation_stats, p.pop_observation_stats, lambda: p.set_observation_stats(RunningStat()), lambda: p.update_observation_stats(RunningStat())):
            ctx.raises(ValueError, f, "no-stats", "observation statistics without normalisation")
        ctx.event("rejected")
