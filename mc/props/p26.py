"""P26  instances do not influence each other and seeded runs repeat exactly.

Two objects (agents, replay buffers, explorers, wrappers, ...) are driven by
programs of a few atomic calls each. The programs are executed alone (twice) and
in every interleaving within bounds; each object has its own state of the global
random number generators, swapped in before each of its calls. Every returned
value and the final parameters of each object have to be those of its solo run.
Arguments must come back unchanged, and global settings of torch and numpy must
stay as they are.
"""
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import zoo as Z

RULE = "one case per (pair of objects, programs, interleaving); non-trivial outcomes = distinct final states of the objects"
BOUNDS = {
    "quick": "28 agents (alone, with a twin, and next to another kind; single and batch interface), programs of 5-7 calls, all interleavings with at most 1-3 preemptions; 27 other components, programs of 4-6 calls, at most 3 preemptions; all sequences of three out of 6 training runs",
    "thorough": "agents with up to 4 preemptions and more scripts (batch: all interleavings), components in all interleavings next to every one of their family",
}
ASSUMPTIONS = ["the global random number generators are inputs: each object owns a state of them, swapped in by the harness"]
OUT = [(False, False), (True, False), (False, True)]


def freeze(x):
    """A comparable, immutable copy of a returned value."""
    import torch

    if isinstance(x, torch.Tensor):
        return ("t", str(x.dtype), tuple(x.shape), x.detach().numpy().tobytes())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("o",) + tuple(freeze(v) for v in x)
        return ("a", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, np.generic):
        return ("s", str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ("d",) + tuple((repr(k), freeze(v)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0])))
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(freeze(v) for v in x)
    if hasattr(x, "_frames"):
        return freeze(np.asarray(x))
    return repr(x)


def settings():
    import torch

    return (
        torch.is_grad_enabled(),
        torch.get_default_dtype(),
        torch.are_deterministic_algorithms_enabled(),
        torch.is_anomaly_enabled(),
        torch.get_num_threads(),
        tuple(sorted(np.geterr().items())),
        os.getcwd(),
    )


class Inst(object):
    """prog: list of functions obj -> value; the first one builds the object."""

    def __init__(self, make, prog, seed):
        Z.rng_seed(seed)
        self.rng = Z.rng_get()
        self.make, self.prog = make, prog
        self.obj = None
        self.k = 0
        self.out = []

    def done(self):
        return self.k > len(self.prog)

    def step(self, rec):
        before = settings()
        Z.rng_set(self.rng)
        if self.k == 0:
            self.obj = self.make()
            v = None
        else:
            v = self.prog[self.k - 1](self.obj)
        self.out.append(freeze(v))
        self.rng = Z.rng_get()
        self.k += 1
        rec.step()
        rec.check(settings() == before, "a call changed global settings: %r -> %r" % (before, settings()))


def schedules(na, nb, bound):
    """All interleavings of na and nb atoms with at most `bound` preemptions
    (a switch away from a program that could go on)."""
    res = []

    def go(a, b, cur, pre, acc):
        if a == na and b == nb:
            res.append(tuple(acc))
            return
        for nxt in (0, 1):
            if (a if nxt == 0 else b) == (na if nxt == 0 else nb):
                continue
            c = pre
            if cur is not None and nxt != cur and (a < na if cur == 0 else b < nb):
                c += 1
                if bound is not None and c > bound:
                    continue
            go(a + (nxt == 0), b + (nxt == 1), nxt, c, acc + [nxt])

    go(0, 0, None, 0, [])
    return res


def solo(rec, spec):
    i = Inst(*spec)
    while not i.done():
        i.step(rec)
    return i.out


def pair(rec, name, sa, sb, bound, close=None):
    """sa, sb: functions giving fresh specs (make, prog, seed)."""
    want = []
    for which, s in enumerate((sa, sb)):
        rec.begin({"what": name, "solo": which})
        w = solo(rec, s())
        w2 = solo(rec, s())
        for k, (x, y) in enumerate(zip(w, w2)):
            rec.check(x == y, "the same seeded run gives another result at call %d: %s instead of %s" % (k, repr(y)[:200], repr(x)[:200]))
        want.append(w)
    n = [len(s()[1]) + 1 for s in (sa, sb)]
    for sched in schedules(n[0], n[1], bound):
        rec.begin({"what": name, "schedule": "".join(map(str, sched))})
        ins = (Inst(*sa()), Inst(*sb()))
        for who in sched:
            i = ins[who]
            i.step(rec)
            k = len(i.out) - 1
            rec.check(i.out[k] == want[who][k], "call %d of object %d depends on the other object: %s instead of %s" % (k, who, repr(i.out[k])[:200], repr(want[who][k])[:200]))
        rec.state((name, sched))
        rec.outcome((name, hash(ins[0].out[-1]), hash(ins[1].out[-1])))


# ---------------------------------------------------------------------- agents


def same(rec, args, call):
    keep = [freeze(a) for a in args]
    v = call(*args)
    rec.check([freeze(a) for a in args] == keep, "a call modified its arguments")
    return v


def agent_spec(rec, kind, script, seed, n_envs, base):
    def make():
        return Z.Zoo(kind, seed=seed, n_envs=max(n_envs, 1))

    prog = []
    cur = base
    for t, (d, r) in enumerate(script):
        nxt = cur + 1
        rew = ((nxt * 5) % 7 - 3) / 2.0
        if n_envs == 0:
            prog.append(lambda z, c=cur: same(rec, [Z.obs_of(c)], z.agent.act))
            prog.append(lambda z, c=nxt, w=rew, d=d, r=r: same(rec, [Z.obs_of(c), w, d, r], z.agent.observe))
        else:
            prog.append(lambda z, c=cur: same(rec, [[Z.obs_of(c + 40 * i) for i in range(n_envs)]], z.agent.batch_act))
            prog.append(lambda z, c=nxt, w=rew, d=d, r=r: same(rec, [[Z.obs_of(c + 40 * i) for i in range(n_envs)], [w, w + 1][:n_envs], [d, False][:n_envs], [r, False][:n_envs]], z.agent.batch_observe))
        cur = nxt + 10 if d or r else nxt
    last = prog.pop()

    def fin(z):
        last(z)
        st = [(k, v) for k, v in z.agent.get_statistics()]
        with z.agent.eval_mode():
            a = z.agent.act(Z.obs_of(77)) if n_envs == 0 else z.agent.batch_act([Z.obs_of(77 + i) for i in range(n_envs)])
            if n_envs == 0:
                z.agent.observe(Z.obs_of(78), 1.0, True, False)
            else:
                z.agent.batch_observe([Z.obs_of(78)] * n_envs, [1.0] * n_envs, [True] * n_envs, [False] * n_envs)
        return [repr(st), np.asarray(a), [(k, bytes(v)) for k, v in z.fingerprint()]]

    prog.append(fin)
    return make, prog, seed + 1


def unit_agents(rec, kind, other, n_envs, steps, bound, every):
    scripts = list(itertools.product(OUT, repeat=steps))
    for i, s in enumerate(scripts):
        if i % every:
            continue
        t = scripts[(i * 5 + 1) % len(scripts)]
        pair(
            rec,
            "%s+%s/%d/%d" % (kind, other, n_envs, i),
            lambda: agent_spec(rec, kind, s, 0, n_envs, 1),
            lambda: agent_spec(rec, other, t, 0 if kind != other else 11, n_envs if other not in Z.SINGLE else 0, 5),
            bound,
        )


# ------------------------------------------------------------------ components


def tr(i, base=0):
    return dict(state=np.float32([i + base]), action=i % 3, reward=float(i), next_state=np.float32([i + base + 1]), is_state_terminal=i % 3 == 2)


def strip(x):
    """Transitions as values."""
    return copy.deepcopy(x)


def components(rec):
    import torch
    from torch import nn

    import pfrl
    import pfrl.envs.abc
    from pfrl.replay_buffers import EpisodicReplayBuffer, PrioritizedEpisodicReplayBuffer, PrioritizedReplayBuffer, ReplayBuffer

    C = {}

    def buffer(mk, b):
        app = lambda i, **k: (lambda z: z.append(env_id=i % 2, **tr(i, b)))
        smp = lambda z: strip(z.sample(2))

        def upd(z):
            s = strip(z.sample(2))
            if hasattr(z, "update_errors"):
                z.update_errors([0.5 + b, 2.0])
            return s

        return mk, [app(0), app(2), lambda z: (z.append(**tr(5, b)), z.stop_current_episode()), upd, smp, lambda z: len(z)]

    def ebuffer(mk, b):
        app = lambda i: (lambda z: z.append(**tr(i, b)))

        def upd(z):
            s = strip(z.sample_episodes(1, 2))
            if hasattr(z, "update_errors"):
                z.update_errors([0.5 + b])
            return s

        return mk, [lambda z: (z.append(**tr(0, b)), z.append(**tr(2, b))), lambda z: z.append(**tr(4, b)), lambda z: z.stop_current_episode(), upd, lambda z: [len(z), z.n_episodes, strip(z.sample_episodes(2))]]

    C["replay"] = lambda b: buffer(lambda: ReplayBuffer(3), b)
    C["replay-n"] = lambda b: buffer(lambda: ReplayBuffer(None, num_steps=2), b)
    C["per"] = lambda b: buffer(lambda: PrioritizedReplayBuffer(3, betasteps=5), b)
    C["episodic"] = lambda b: ebuffer(lambda: EpisodicReplayBuffer(4), b)
    C["per-episodic"] = lambda b: ebuffer(lambda: PrioritizedEpisodicReplayBuffer(None, betasteps=5), b)

    def queue(b):
        return lambda: pfrl.collections.random_access_queue.RandomAccessQueue(maxlen=3), [
            lambda q: q.append(b),
            lambda q: q.extend([b + 1, b + 2, b + 3]),
            lambda q: q.sample(2),
            lambda q: q.popleft(),
            lambda q: list(q),
        ]

    C["queue"] = queue

    def pqueue(b):
        return lambda: pfrl.collections.prioritized.PrioritizedBuffer(capacity=3), [
            lambda q: q.append(b, 1.0 + b),
            lambda q: q.append(b + 1),
            lambda q: [repr(x) for x in q.sample(2)],
            lambda q: q.set_last_priority([3.0, 0.5 + b]),
            lambda q: [q.append(b + 2), q.append(b + 3)] and None,
            lambda q: [repr(x) for x in q.sample(2)],
        ]

    C["pqueue"] = pqueue

    q = lambda b: pfrl.action_value.DiscreteActionValue(torch.tensor([[0.1 * b, 0.5, -1.0]]))
    ex = lambda mk: (lambda b: (mk(b), [(lambda e, t=t: e.select_action(t, lambda: 1 + b, action_value=q(b))) for t in range(5)] + [repr]))
    R = pfrl.explorers
    C["eps-const"] = ex(lambda b: (lambda: R.ConstantEpsilonGreedy(0.5, lambda: np.random.randint(3))))
    C["eps-linear"] = ex(lambda b: (lambda: R.LinearDecayEpsilonGreedy(1.0, 0.1, 3 + b, lambda: np.random.randint(3))))
    C["eps-exp"] = ex(lambda b: (lambda: R.ExponentialDecayEpsilonGreedy(1.0, 0.1, 0.5 + b / 10, lambda: np.random.randint(3))))
    C["boltzmann"] = ex(lambda b: (lambda: R.Boltzmann(T=1.0 + b)))
    cont = lambda mk: (lambda b: (mk(b), [(lambda e, t=t: same(rec, [np.float32([0.5 + b, 1.0])], lambda a: e.select_action(t, lambda: a))) for t in range(5)] + [repr]))
    C["gauss"] = cont(lambda b: (lambda: R.AdditiveGaussian(0.3 + b, low=-1, high=2)))
    C["ou"] = cont(lambda b: (lambda: R.AdditiveOU(sigma=0.3 + b)))

    def norm(b):
        x = lambda k: torch.tensor([[1.0 + b, k], [2.0, k + 1.0]])
        return lambda: pfrl.nn.EmpiricalNormalization(2, clip_threshold=3), [
            lambda m: same(rec, [x(1.0)], m.experience),
            lambda m: same(rec, [x(2.0)], lambda v: m(v, update=False)),
            lambda m: same(rec, [x(5.0)], m),
            lambda m: m.inverse(x(0.0)),
            lambda m: [m.mean, m.std, m.count],
        ]

    C["normalizer"] = norm

    def filt(cls):
        return lambda b: (lambda: cls(*((0.5,) if cls.__name__ == "AverageRewardFilter" else (0.5,))), [lambda f, r=r: float(f(r + b)) for r in (1.0, -2.0, 3.0, 0.5, 0.5)])

    from pfrl.utils import reward_filter

    C["reward-norm"] = filt(reward_filter.NormalizedRewardFilter)
    C["reward-avg"] = filt(reward_filter.AverageRewardFilter)

    def linear(b):
        return lambda: pfrl.nn.FactorizedNoisyLinear(nn.Linear(2, 2), sigma_scale=0.4 + b), [lambda m: m(torch.tensor([[1.0, 2.0]])), lambda m: m(torch.tensor([[0.0, 1.0]])), lambda m: [v for v in m.state_dict().values()], lambda m: m(torch.tensor([[1.0, 1.0]])), lambda m: m(torch.tensor([[1.0, 3.0]]))]

    C["noisy"] = linear

    def opt(b):
        def mk():
            m = nn.Linear(2, 1)
            return m, pfrl.optimizers.RMSpropEpsInsideSqrt(m.parameters(), lr=0.1 + b)

        def step(z):
            z[1].zero_grad()
            z[0](torch.tensor([[1.0, 2.0]])).pow(2).sum().backward()
            z[1].step()
            return list(z[0].state_dict().values())

        return mk, [step] * 5

    C["rmsprop"] = opt

    import gym

    class E(gym.Env):
        def __init__(self, b, disc=False):
            self.b, self.t = b, 0
            self.observation_space = gym.spaces.Box(-100, 100, (1, 2, 2), dtype=np.float32)
            self.action_space = gym.spaces.Box(-2.0, 3.0 + b, (1,), dtype=np.float32) if not disc else gym.spaces.Discrete(3)

        def reset(self):
            self.t = 0
            return np.full((1, 2, 2), self.b + np.random.randint(5), np.float32)

        def step(self, a):
            self.t += 1
            return np.full((1, 2, 2), self.b + self.t + float(np.sum(a)), np.float32), 1.0 + self.b, self.t >= 3, {}

        def seed(self, s):
            np.random.seed(s % 2**31)

        def close(self):
            pass

    W = pfrl.wrappers
    step = lambda a: (lambda e: e.step(np.float32([a])))
    env = lambda mk: (lambda b: (lambda: mk(E(b), b), [lambda e: e.reset(), step(0.5), step(1.0), lambda e: e.reset(), step(-1.0)]))
    C["w-stack"] = env(lambda e, b: W.atari_wrappers.FrameStack(e, 2, channel_order="chw"))
    C["w-limit"] = env(lambda e, b: W.ContinuingTimeLimit(e, max_episode_steps=2))
    C["w-randomize"] = lambda b: (lambda: W.RandomizeAction(E(b, True), 0.5), [lambda e: (e.seed(7 + b), e.reset())[1], lambda e: e.step(1), lambda e: e.step(2), lambda e: e.reset(), lambda e: e.step(0)])
    C["w-scale"] = env(lambda e, b: W.ScaleReward(e, 0.5 + b))
    C["w-normact"] = env(lambda e, b: W.NormalizeActionSpace(e))
    C["w-cast"] = env(lambda e, b: W.CastObservation(e, np.float64))
    venv = lambda wrap: (
        lambda b: (
            lambda: wrap(pfrl.envs.SerialVectorEnv([E(b), E(b + 1)])),
            [
                lambda e: e.reset(),
                lambda e: e.step([np.float32([0.5]), np.float32([1.0])]),
                lambda e: e.reset(mask=[True, False]),
                lambda e: e.step([np.float32([1.5]), np.float32([1.0])]),
            ],
        )
    )
    C["v-serial"] = venv(lambda e: e)
    C["v-stack"] = venv(lambda e: W.VectorFrameStack(e, 2, stack_axis=0))

    def abc(b):
        acts = [np.float32([1.0, -1.0]), np.float32([-1.0, 1.0])]
        return lambda: pfrl.envs.abc.ABC(size=2, discrete=False, partially_observable=True, episodic=False, deterministic=bool(b)), [lambda e: e.reset(), lambda e: e.step(acts[0]), lambda e: e.step(acts[1]), lambda e: e.reset(), lambda e: e.step(acts[0])]

    C["abc"] = abc
    return C


def unit_component(rec, name, others, bound):
    C = components(rec)
    spec = lambda n, b, seed: (lambda: C[n](b) + (seed,))
    for o in others:
        for b in (0, 1):
            pair(rec, "%s+%s/%d" % (name, o, b), spec(name, 0, 3), spec(o, b, 4), bound)


# --------------------------------------------------------------- training runs


def runs():
    """name -> function(outdir) -> observable result. Each uses different
    options of the training functions; none may be felt by another one."""
    import pfrl
    import pfrl.envs.abc
    from pfrl.experiments import train_agent, train_agent_batch, train_agent_batch_with_evaluation, train_agent_with_evaluation

    class E(pfrl.env.Env):
        action_space = observation_space = None

        def __init__(self, n):
            self.n, self.t = n, 0

        def reset(self):
            self.t = 0
            return Z.obs_of(self.n)

        def step(self, a):
            self.t += 1
            return Z.obs_of(self.n + self.t), float(self.t), self.t >= self.n, {}

        def close(self):
            pass

    def scores(d):
        p = os.path.join(d, "scores.txt")
        if not os.path.exists(p):
            return sorted(os.listdir(d))
        rows = [l.rstrip("\n").split("\t") for l in open(p)]
        # the elapsed time is not compared
        k = rows[0].index("elapsed")
        return [sorted(os.listdir(d))] + [[v for i, v in enumerate(r) if i != k] for r in rows]

    def fin(z, d, log, ret):
        return [[(k, bytes(v)) for k, v in z.fingerprint()], scores(d), list(log), repr(z.agent.get_statistics()), z.agent.training, repr(ret)]

    def single(d, hooks):
        z, log = Z.Zoo("dqn"), []
        kw = dict(step_hooks=[lambda e, a, s: log.append(s)]) if hooks else {}
        return fin(z, d, log, train_agent(z.agent, E(3), 5, d, checkpoint_freq=2 if hooks else None, **kw))

    def single_eval(d, hooks):
        z, log = Z.Zoo("ddqn"), []
        kw = dict(step_hooks=[lambda e, a, s: log.append(s)], eval_env=E(2), save_best_so_far_agent=False) if hooks else {}
        if hooks:
            class H(pfrl.experiments.EvaluationHook):
                support_train_agent = True

                def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
                    log.append((step, eval_stats["mean"]))

            kw["evaluation_hooks"] = [H()]
        a, h = train_agent_with_evaluation(z.agent, E(3), 6, None, 2, 3, d, **kw)
        h = [{k: v for k, v in x.items() if k != "elapsed"} for x in h]
        return fin(z, d, log, h)

    def batch(d, hooks):
        z, log = Z.Zoo("ppo", n_envs=2), []
        kw = dict(step_hooks=[lambda e, a, s: log.append(s)]) if hooks else {}
        venv = pfrl.envs.SerialVectorEnv([E(2), E(3)])
        if hooks:
            a, h = train_agent_batch_with_evaluation(z.agent, venv, 8, None, 2, 4, d, eval_env=pfrl.envs.SerialVectorEnv([E(2), E(2)]), **kw)
            return fin(z, d, log, [{k: v for k, v in x.items() if k != "elapsed"} for x in h])
        return fin(z, d, log, train_agent_batch(z.agent, venv, 8, d, **kw))

    R = {}
    for n, f in (("single", single), ("single-eval", single_eval), ("batch", batch)):
        for h in (False, True):
            R["%s-%d" % (n, h)] = (lambda d, f=f, h=h: f(d, h))
    return R


def unit_runs(rec, first):
    tmp = tempfile.mkdtemp(prefix="mc_P26_")
    R = runs()
    n = [0]

    def go(name):
        n[0] += 1
        d = os.path.join(tmp, str(n[0]))
        os.makedirs(d)
        Z.rng_seed(21)
        rec.step()
        v = freeze(R[name](d))
        shutil.rmtree(d, ignore_errors=True)
        return v

    try:
        want = {}
        # `first` is the first run of this process: nothing precedes it
        rec.begin({"run": first})
        want[first] = go(first)
        for seq in itertools.product(R, repeat=2):
            rec.begin({"run": first, "after": seq})
            for m in seq:
                v = go(m)
                if m in want:
                    rec.check(v == want[m], "run %s depends on the runs before it: %s instead of %s" % (m, repr(v)[-300:], repr(want[m])[-300:]))
                want.setdefault(m, v)
            v = go(first)
            rec.check(v == want[first], "run %s depends on the runs before it" % first)
            rec.state((first, seq))
            rec.outcome(hash(v))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


FAMILIES = [
    ["replay", "replay-n", "per", "episodic", "per-episodic"],
    ["queue", "pqueue"],
    ["eps-const", "eps-linear", "eps-exp", "boltzmann", "gauss", "ou"],
    ["normalizer", "reward-norm", "reward-avg", "noisy", "rmsprop"],
    ["w-stack", "w-limit", "w-randomize", "w-scale", "w-normact", "w-cast", "v-serial", "v-stack", "abc"],
]


def units(tier):
    T = tier == "thorough"
    us = []
    for i, k in enumerate(Z.KINDS):
        nxt = Z.KINDS[(i + 1) % len(Z.KINDS)]
        us.append(("twin-%s" % k, unit_agents, k, k, 0, 2 if not T else 3, 3 if not T else 4, 3 if not T else 5))
        us.append(("next-%s" % k, unit_agents, k, nxt, 0, 3, 1 if not T else 3, 9 if not T else 7))
        if k not in Z.SINGLE:
            us.append(("batch-%s" % k, unit_agents, k, k, 2, 2, 2 if not T else None, 4 if not T else 2))
    for fam in FAMILIES:
        for i, c in enumerate(fam):
            us.append(("c-%s" % c, unit_component, c, [c, fam[(i + 1) % len(fam)]] if not T else fam, 3 if not T else None))
    for r in ["single-0", "single-1", "single-eval-0", "single-eval-1", "batch-0", "batch-1"]:
        us.append(("run-%s" % r, unit_runs, r))
    return us
