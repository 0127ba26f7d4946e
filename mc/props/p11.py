"""P11  environment wrappers: exact input/output semantics over every episode
script, and never stepping a wrapped environment past the end of its episode.
"""
import itertools
from fractions import Fraction

import numpy as np

from mc.core import explore

RULE = "one case per (wrapper stack, environment script, operation sequence); non-trivial outcomes = distinct output streams"
BOUNDS = {
    "quick": "base environment: per raw step {continue, done, needs_reset, both} (plus losing or gaining a life), up to 7 raw steps, "
    "wrapper parameters (limits 1..4, skips 1..4, no-ops 1..3, stacks 1..4), operations step/reset chosen by the "
    "standard loop or with early resets; single wrappers and the stacks of make_atari / wrap_deepmind",
    "thorough": "up to 9 raw steps",
}
OUTS = [(False, False), (True, False), (False, True), (True, True)]


class Rand(object):
    """np_random stand-in driven by the exploration context."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.log = []

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        v = low + self.ctx.choose(high - low, "randint")
        self.log.append((low, high, v))
        return v

    integers = randint

    def rand(self):
        v = (0.25, 0.75)[self.ctx.choose(2, "rand")]
        self.log.append(v)
        return v

    random = random_sample = rand


class Ale(object):
    def __init__(self, env):
        self.env = env

    def lives(self):
        return self.env.n_lives


def make_base(ctx, depth, outs=OUTS, shape=(2, 2, 1), lives=None, meanings=("NOOP", "FIRE", "UP", "DOWN")):
    import gym

    class Base(gym.Env):
        action_space = gym.spaces.Discrete(4)
        observation_space = gym.spaces.Box(low=0, high=255, shape=shape, dtype=np.uint8)

        def __init__(self):
            self.log = []
            self.n = 0  # raw frames ever produced
            self.raw = 0
            self.over = True
            self.protocol = []
            self.n_lives = 3
            self.ale = Ale(self)
            self.np_random = Rand(ctx)
            self.cur = None
            self.rendered = []

        def get_action_meanings(self):
            return list(meanings)

        def _frame(self):
            self.n += 1
            f = np.zeros(shape, np.uint8)
            f.ravel()[0] = self.n
            # second pixel counts down so that element-wise max differs from both frames
            f.ravel()[1 % f.size] = 200 - self.n
            self.cur = f
            return f.copy()

        def reset(self, **kw):
            self.over = False
            self.n_lives = 3
            f = self._frame()
            self.log.append(("reset", f, None, False, False, dict(kw)))
            return f

        def step(self, a):
            if self.over:
                self.protocol.append("step(%r) after the episode ended" % (a,))
            self.raw += 1
            if self.raw > depth:
                d, nr = True, False
            else:
                d, nr = ctx.pick(outs, "raw")
            if lives and self.raw <= depth:
                dl = ctx.pick(lives, "lives")
                self.n_lives = max(0, self.n_lives + dl)
            self.over = d or nr
            f = self._frame()
            r = (-3.0, 0.0, 0.5, 7.0)[self.n % 4]
            self.log.append(("step", f, r, d, nr, a))
            return f, r, d, ({"needs_reset": True} if nr else {})

        def render(self, *a, **k):
            self.rendered.append(k)

        def seed(self, s=None):
            self.log.append(("seed", s))
            return [s]

    return Base()


def arr(x):
    x = np.asarray(x)
    return (x.dtype.str, x.shape, tuple(np.ravel(x).tolist()))


def run_loop(ctx, env, base, nsteps, early=False, act=lambda i: i % 4, depth=None):
    """Standard client loop. Yields events:
    ("reset", obs, raw log slice) / ("step", action, obs, r, done, info, raw slice)"""
    p = len(base.log)
    o = env.reset()
    yield ("reset", o, base.log[p:])
    for i in range(nsteps):
        p = len(base.log)
        a = act(i)
        o, r, d, info = env.step(a)
        yield ("step", a, o, r, d, dict(info), base.log[p:])
        end = d or info.get("needs_reset", False)
        if not end and early and ctx.choose(2, "early reset"):
            end = True
        if depth is not None and base.raw >= depth:
            break
        if end:
            p = len(base.log)
            o = env.reset()
            yield ("reset", o, base.log[p:])


def raw_end(e):
    return e[3] or e[4]


def fin(rec, base, ev, what):
    rec.eq(base.protocol, [], what + ": wrapped environment misused")
    rec.step(len(base.log))
    rec.state((what, tuple((e[0], e[3], e[4]) for e in base.log if len(e) > 4)))
    rec.outcome((what, tuple((e[0], e[3], e[4]) for e in base.log if len(e) > 4), base.n))


def each(rec, desc, fn):
    def go(ctx):
        rec.begin(dict(desc, choices=ctx.prefix))
        fn(ctx)

    explore(go, rec)


# ------------------------------------------------------------------ wrappers


def unit_ctl(rec, limit, depth):
    from pfrl.wrappers import ContinuingTimeLimit

    def go(ctx):
        base = make_base(ctx, depth)
        env = ContinuingTimeLimit(base, limit)
        try:
            env.step(0)
            rec.fail("step before reset accepted")
        except AssertionError:
            pass
        base.protocol.clear()
        rec.eq(base.log, [], "step before reset reached the environment")
        base.over = True
        k = 0
        for e in run_loop(ctx, env, base, depth, early=True, depth=depth):
            raw = e[-1]
            rec.eq(len(raw), 1, "raw calls")
            if e[0] == "reset":
                k = 0
                rec.eq(arr(e[1]), arr(raw[0][1]), "reset observation")
            else:
                k += 1
                rec.eq((arr(e[2]), e[3], e[4], raw[0][5]), (arr(raw[0][1]), raw[0][2], raw[0][3], e[1]), "step passes through")
                rec.eq(bool(e[5].get("needs_reset", False)), raw[0][4] or k >= limit, "needs_reset at step %d of limit %d" % (k, limit))
        fin(rec, base, [e for e in []], "ctl%d" % limit)

    each(rec, {"wrapper": "ContinuingTimeLimit", "limit": limit}, go)


def unit_framestack(rec, k, order, depth):
    from pfrl.wrappers.atari_wrappers import FrameStack

    shape = {"hwc": (2, 2, 1), "chw": (1, 2, 2)}[order]
    axis = {"hwc": 2, "chw": 0}[order]

    def go(ctx):
        base = make_base(ctx, depth, shape=shape, outs=OUTS[:3])
        env = FrameStack(base, k, channel_order=order)
        sp = env.observation_space
        rec.eq(sp.shape, tuple(s * k if i == axis else s for i, s in enumerate(shape)), "observation space")
        fr = None
        keep = []
        for e in run_loop(ctx, env, base, depth, early=True, depth=depth):
            raw = e[-1][0]
            rec.eq(len(e[-1]), 1, "raw calls")
            if e[0] == "reset":
                fr = [raw[1]] * k
                o = e[1]
            else:
                fr = (fr + [raw[1]])[-k:]
                o = e[2]
                rec.eq((e[3], e[4], raw[5]), (raw[2], raw[3], e[1]), "pass through")
            exp = arr(np.concatenate(fr, axis=axis))
            rec.eq(arr(o), exp, "stacked frames")
            keep.append((o, exp))
        for o, exp in keep:
            rec.eq(arr(o), exp, "an earlier observation changed")
            rec.eq(np.asarray(o, dtype=np.float32).dtype, np.float32, "dtype conversion")
        fin(rec, base, [], "fs%d%s" % (k, order))

    each(rec, {"wrapper": "FrameStack", "k": k}, go)


def unit_maxskip(rec, skip, depth):
    from pfrl.wrappers.atari_wrappers import MaxAndSkipEnv

    def go(ctx):
        base = make_base(ctx, depth)
        env = MaxAndSkipEnv(base, skip=skip)
        for e in run_loop(ctx, env, base, depth, depth=depth):
            raw = e[-1]
            if e[0] == "reset":
                rec.eq((len(raw), arr(e[1])), (1, arr(raw[0][1])), "reset")
                continue
            ends = [raw_end(x) for x in raw]
            want_n = skip
            rec.check(len(raw) == skip or (len(raw) < skip and ends[-1]), "number of repeats %d of %d" % (len(raw), skip))
            rec.check(not any(ends[:-1]), "action repeated after the end of the episode")
            rec.check(all(x[5] == e[1] for x in raw), "repeated action")
            rec.eq(e[3], sum(x[2] for x in raw), "summed reward")
            rec.eq((bool(e[4]), bool(e[5].get("needs_reset", False))), (raw[-1][3], raw[-1][4]), "done / needs_reset")
            if not raw[-1][3]:
                # (the observation of a terminal state does not matter)
                rec.eq(arr(e[2]), arr(np.max([x[1] for x in raw[-2:]], axis=0)), "pixel-wise maximum of the last two frames of this step")
        fin(rec, base, [], "ms%d" % skip)

    each(rec, {"wrapper": "MaxAndSkipEnv", "skip": skip}, go)


def unit_noop(rec, noop_max, depth):
    from pfrl.wrappers.atari_wrappers import NoopResetEnv

    def go(ctx):
        base = make_base(ctx, depth)
        env = NoopResetEnv(base, noop_max=noop_max)
        k = 0
        for e in run_loop(ctx, env, base, 2, depth=depth):
            raw = e[-1]
            if e[0] == "reset":
                low, high, v = base.np_random.log[k]  # one draw per reset
                k += 1
                rec.eq((low, high), (1, noop_max + 1), "range of the number of no-ops")
                rec.eq(raw[0][0], "reset", "starts with a reset")
                steps = [x for x in raw if x[0] == "step"]
                rec.eq([x[5] for x in steps], [0] * v, "no-ops")
                rec.eq(arr(e[1]), arr(raw[-1][1]), "returned observation is the current one")
                rec.check(raw[-1][0] == "reset" or not raw_end(raw[-1]), "reset returned an ended episode")
            else:
                rec.eq((len(raw), arr(e[2]), e[3], e[4], raw[0][5]), (1, arr(raw[0][1]), raw[0][2], raw[0][3], e[1]), "pass through")
        fin(rec, base, [], "noop%d" % noop_max)

    each(rec, {"wrapper": "NoopResetEnv", "noop_max": noop_max}, go)


def unit_fire(rec, depth):
    from pfrl.wrappers.atari_wrappers import FireResetEnv

    def go(ctx):
        base = make_base(ctx, depth)
        env = FireResetEnv(base)
        for e in run_loop(ctx, env, base, 2, early=True, depth=depth):
            raw = e[-1]
            if e[0] == "reset":
                rec.eq(raw[0][0], "reset", "starts with a reset")
                rec.eq([x[5] for x in raw if x[0] == "step"], [1, 2], "fires")
                rec.check(raw[-1][0] == "reset" or not raw_end(raw[-1]), "reset returned an ended episode")
                rec.eq(arr(e[1]), arr(raw[-1][1]), "returned observation is the current one")
            else:
                rec.eq((len(raw), arr(e[2]), e[3], e[4], raw[0][5]), (1, arr(raw[0][1]), raw[0][2], raw[0][3], e[1]), "pass through")
        fin(rec, base, [], "fire")

    each(rec, {"wrapper": "FireResetEnv"}, go)


def unit_life(rec, depth, outs, lives, early):
    from pfrl.wrappers.atari_wrappers import EpisodicLifeEnv

    def go(ctx):
        base = make_base(ctx, depth, outs=outs, lives=lives)
        env = EpisodicLifeEnv(base)
        cur_lives = None
        real = True
        o = None
        n = 0
        p = 0
        o = env.reset()
        ended = True
        while True:
            raw = base.log[p:]
            # ---- judge a reset
            if ended:
                rec.check(raw[0][0] == "reset", "the environment must be reset for real")
            else:
                rec.eq((raw[0][0], raw[0][5]), ("step", 0), "a lost life continues with a no-op")
                if raw_end(raw[0]):
                    rec.check(len(raw) == 2 and raw[1][0] == "reset", "game over during the no-op")
                else:
                    rec.eq(len(raw), 1, "raw calls")
            rec.check(not base.over, "reset left an ended episode behind")
            rec.eq(arr(o), arr(raw[-1][1]), "returned observation is the current one")
            cur_lives = base.n_lives
            over = False
            while not over:
                if base.raw >= depth or n >= depth:
                    fin(rec, base, [], "life")
                    return
                n += 1
                p = len(base.log)
                o, r, d, info = env.step(n % 4)
                x = base.log[p:]
                rec.eq(len(x), 1, "raw calls")
                x = x[0]
                ended = raw_end(x)
                lost = base.n_lives < cur_lives and base.n_lives > 0
                rec.eq((arr(o), r, x[5]), (arr(x[1]), x[2], n % 4), "pass through")
                rec.eq(bool(d), bool(x[3] or lost), "done on terminal or lost life (%d -> %d lives)" % (cur_lives, base.n_lives))
                rec.eq(bool(info.get("needs_reset", False)), x[4], "needs_reset passes through")
                cur_lives = base.n_lives
                over = d or x[4]
                if not over and early and ctx.choose(2, "early"):
                    over = True
            p = len(base.log)
            o = env.reset()

    each(rec, {"wrapper": "EpisodicLifeEnv"}, go)


def unit_pointwise(rec):
    """Wrappers that transform one value at a time."""
    import gym

    import pfrl.wrappers as W
    from pfrl.wrappers import atari_wrappers as A

    depth = 3

    def each_wrapper(name, mk, fobs=lambda o: o, frew=lambda r: r, extra=None, dtype=None):
        def go(ctx):
            base = make_base(ctx, depth, outs=OUTS)
            env = mk(base)
            for e in run_loop(ctx, env, base, depth, early=True, depth=depth):
                raw = e[-1][0]
                rec.eq(len(e[-1]), 1, "raw calls")
                o = e[1] if e[0] == "reset" else e[2]
                rec.eq(arr(o), arr(fobs(raw[1])), name + " observation")
                if e[0] == "step":
                    rec.eq((e[3], e[4], bool(e[5].get("needs_reset")), raw[5]), (frew(raw[2]), raw[3], raw[4], e[1]), name + " step")
                if extra:
                    extra(env, raw, e)
            fin(rec, base, [], name)

        each(rec, {"wrapper": name}, go)

    each_wrapper("ClipRewardEnv", A.ClipRewardEnv, frew=lambda r: (r > 0) - (r < 0))
    for sc in (0.0, -2.0, 0.25, 3):

        def ex(env, raw, e):
            if e[0] == "step":
                rec.eq(env.original_reward, raw[2], "original_reward")

        each_wrapper("ScaleReward", lambda b, sc=sc: W.ScaleReward(b, sc), frew=lambda r, sc=sc: sc * r, extra=ex)
    for dt in (np.float32, np.float64, np.uint8, np.int16):

        def ex(env, raw, e):
            rec.eq(arr(env.original_observation), arr(raw[1]), "original_observation")

        each_wrapper("CastObservation", lambda b, dt=dt: W.CastObservation(b, dt), fobs=lambda o, dt=dt: o.astype(dt), extra=ex)
    each_wrapper("CastObservationToFloat32", W.CastObservationToFloat32, fobs=lambda o: o.astype(np.float32))

    def mk(b):
        env = A.ScaledFloatFrame(b)
        rec.check(env.observation_space.dtype == np.float32 and float(env.observation_space.high.max()) == 1.0 and float(env.observation_space.low.min()) == 0.0, "scaled space")
        return env

    each_wrapper("ScaledFloatFrame", mk, fobs=lambda o: o.astype(np.float32) / 255.0)

    each_wrapper("Render", lambda b: W.Render(b, mode="x"))

    def go(ctx):
        base = make_base(ctx, depth)
        env = W.Render(base, mode="x")
        n = 0
        env.reset()
        n += 1
        rec.eq(base.rendered, [{"mode": "x"}] * n, "rendered")
        for _ in range(2):
            _, _, d, i = env.step(1)
            n += 1
            rec.eq(base.rendered, [{"mode": "x"}] * n, "rendered")
            if d or i.get("needs_reset"):
                break
        rec.step(n)

    each(rec, {"wrapper": "Render"}, go)

    # FlickerFrame: blank with probability 1/2, decided per frame
    def go(ctx):
        base = make_base(ctx, depth, outs=OUTS[:1])
        env = A.FlickerFrame(base)
        o = env.reset()
        for i in range(4):
            raw = base.log[-1]
            v = base.np_random.log[-1]
            rec.eq(len(base.np_random.log), i + 1, "one draw per frame")
            rec.eq(arr(o), arr(np.zeros_like(raw[1]) if v < 0.5 else raw[1]), "flicker")
            o = env.step(0)[0]
        rec.step(4)
        rec.outcome(("flicker", tuple(base.np_random.log)))

    each(rec, {"wrapper": "FlickerFrame"}, go)

    # WarpFrame
    for order in ("hwc", "chw"):
        import cv2

        rs = np.random.RandomState(0)
        for size in ((210, 160, 3), (84, 84, 3), (50, 70, 3)):
            for rep in range(4):
                rec.begin({"wrapper": "WarpFrame", "order": order, "size": size, "rep": rep})
                b = make_base(None, 0)
                b.observation_space = gym.spaces.Box(0, 255, shape=size, dtype=np.uint8)
                env = A.WarpFrame(b, channel_order=order)
                f = rs.randint(0, 256, size=size).astype(np.uint8)
                g = cv2.resize(cv2.cvtColor(f, cv2.COLOR_RGB2GRAY), (84, 84), interpolation=cv2.INTER_AREA)
                want = g[:, :, None] if order == "hwc" else g[None]
                rec.eq(arr(env.observation(f)), arr(want), "warped frame")
                rec.eq(env.observation_space.shape, want.shape, "space")
                rec.step()


def unit_actions(rec):
    """NormalizeActionSpace and RandomizeAction."""
    import gym

    import pfrl.wrappers as W
    from mc.rng import controlled

    class B(gym.Env):
        def __init__(self, low, high):
            self.action_space = gym.spaces.Box(low=np.array(low, np.float32), high=np.array(high, np.float32))
            self.observation_space = gym.spaces.Discrete(2)
            self.got = []

        def step(self, a):
            self.got.append(a)
            return 0, 0.0, False, {}

        def reset(self):
            return 0

    for low, high in (((0.0,), (1.0,)), ((-2.0,), (6.0,)), ((-1.0, 0.5, 3.0), (1.0, 4.5, 3.25)), ((-8.0, -4.0), (-6.0, 0.0))):
        for pt in itertools.product((-1.0, -0.5, 0.0, 0.25, 1.0), repeat=len(low)):
            for dt in (np.float32, np.float64):
                rec.begin({"wrapper": "NormalizeActionSpace", "low": low, "high": high, "action": pt})
                b = B(low, high)
                env = W.NormalizeActionSpace(b)
                rec.check(np.all(env.action_space.low == -1) and np.all(env.action_space.high == 1) and env.action_space.shape == (len(low),), "normalized space")
                env.reset()
                a = np.array(pt, dtype=dt)
                for rep in range(2):
                    env.step(a)
                    rec.eq(a.tolist(), list(pt), "the caller's action is not modified")
                    want = [l + (x + 1) * (h - l) / 2 for x, l, h in zip(pt, low, high)]
                    rec.check(np.allclose(b.got[-1], want, atol=1e-6), "action %r mapped to %r, expected %r" % (pt, b.got[-1], want))
                rec.step()
                rec.outcome(tuple(want))

    class D(gym.Env):
        def __init__(self, n):
            self.action_space = gym.spaces.Discrete(n)
            self.observation_space = gym.spaces.Discrete(2)
            self.got = []
            self.seeds = []

        def step(self, a):
            self.got.append(a)
            return 0, 0.0, False, {}

        def reset(self):
            return 0

        def seed(self, s=None):
            self.seeds.append(s)

    for n in (1, 2, 3):
        for frac in (0.0, 0.25, 0.5, 1.0):
            for a in range(n):
                dist = {}

                def go(ctx):
                    rec.begin({"wrapper": "RandomizeAction", "n": n, "fraction": frac, "action": a, "choices": ctx.prefix})
                    b = D(n)
                    prob = [Fraction(1)]

                    class R(object):
                        def rand(self):
                            i = ctx.choose(8)
                            prob[0] /= 8
                            return i / 8 + 1 / 16

                        random_sample = random = uniform = rand

                        def randint(self, lo, hi=None, size=None):
                            lo, hi = (0, lo) if hi is None else (lo, hi)
                            prob[0] /= hi - lo
                            return lo + ctx.choose(hi - lo)

                        def choice(self, k):
                            return self.randint(k)

                        integers = randint

                        def seed(self, s):
                            pass

                    keep = np.random.RandomState, np.random.default_rng
                    np.random.RandomState = np.random.default_rng = lambda *a, **k: R()
                    try:
                        env = W.RandomizeAction(b, frac)
                    finally:
                        np.random.RandomState, np.random.default_rng = keep
                    env.reset()
                    env.step(a)
                    rec.step()
                    rec.check(0 <= b.got[0] < n, "action outside the space")
                    dist[int(b.got[0])] = dist.get(int(b.got[0]), 0) + prob[0]

                explore(go, rec)
                want = {k: Fraction(frac) / n + (1 - Fraction(frac) if k == a else 0) for k in range(n)}
                rec.eq({k: v for k, v in dist.items() if v}, {k: v for k, v in want.items() if v}, "distribution of executed actions")
                rec.outcome(("ra", n, frac, a))
    # seeding makes the sequence reproducible and reaches the wrapped env
    for s in (0, 1, 7):
        rec.begin({"wrapper": "RandomizeAction", "seed": s})
        seqs_ = []
        for _ in range(2):
            b = D(3)
            env = W.RandomizeAction(b, 0.5)
            env.seed(s)
            rec.eq(b.seeds, [s], "seed reaches the wrapped environment")
            env.reset()
            for i in range(20):
                env.step(i % 3)
            seqs_.append(list(b.got))
        rec.eq(seqs_[0], seqs_[1], "seeded action sequence")
        rec.step()


def unit_stack(rec, depth, limit, skip, noop, life, fire):
    """Whole stack as built for Atari: base -> ContinuingTimeLimit -> NoopReset
    -> MaxAndSkip -> EpisodicLife -> FireReset -> ClipReward -> FrameStack."""
    import pfrl.wrappers as W
    from pfrl.wrappers import atari_wrappers as A

    def go(ctx):
        base = make_base(ctx, depth, outs=OUTS[:2], lives=(0, -1) if life else None)
        env = W.ContinuingTimeLimit(base, limit)
        if noop:
            env = A.NoopResetEnv(env, noop_max=noop)
        env = A.MaxAndSkipEnv(env, skip=skip)
        if life:
            env = A.EpisodicLifeEnv(env)
        if fire:
            env = A.FireResetEnv(env)
        env = A.ClipRewardEnv(env)
        env = A.FrameStack(env, 2)
        # time since the last raw reset, to judge truncation
        ev = list(run_loop(ctx, env, base, 4, depth=depth))
        rec.eq([p for p in base.protocol], [], "stack: wrapped environment misused")
        since = 0
        raws = base.log
        # every raw episode is at most `limit` steps long
        for x in raws:
            if x[0] == "reset":
                since = 0
            else:
                since += 1
                rec.check(since <= limit, "environment stepped beyond its time limit")
        for e in ev:
            if e[0] == "step":
                rec.check(e[3] in (-1.0, 0.0, 1.0), "clipped reward")
                rec.eq(e[3], float(np.sign(sum(x[2] for x in e[-1] if x[0] == "step"))), "sign of the summed raw rewards")
        fin(rec, base, [], "stack")

    each(rec, {"stack": [limit, skip, noop, life, fire]}, go)


def unit_monitor(rec, depth):
    """Monitor accepts early resets and records every episode."""
    import gym
    import json
    import os

    import pfrl.wrappers as W

    def go(ctx):
        rec_dir = os.path.join(rec.scratch, "mon")
        base = make_base(ctx, depth, outs=OUTS[:3])
        base.spec = None
        base.metadata = {}
        env = W.Monitor(base, rec_dir, video_callable=False, force=True)
        eps = []
        cur = None
        for e in run_loop(ctx, env, base, depth, early=True, depth=depth):
            if e[0] == "reset":
                if cur is not None and cur[1]:
                    eps.append(tuple(cur))
                cur = [0.0, 0]
            else:
                cur[0] += e[3]
                cur[1] += 1
                rec.eq((arr(e[2]), e[3], e[4]), (arr(e[-1][0][1]), e[-1][0][2], e[-1][0][3]), "pass through")
        if cur is not None and cur[1]:
            eps.append(tuple(cur))
        env.close()
        got = list(zip(env.get_episode_rewards(), env.get_episode_lengths()))
        rec.eq([(float(a), int(b)) for a, b in got], eps, "episodes recorded")
        fin(rec, base, [], "monitor")

    each(rec, {"wrapper": "Monitor"}, go)


def units(tier):
    T = tier == "thorough"
    D = 6 if not T else 8
    us = []
    for lim in (1, 2, 3, 4):
        us.append(("ctl-%d" % lim, unit_ctl, lim, 5 if not T else 6))
    for k in (1, 2, 3, 4):
        for order in ("hwc", "chw"):
            us.append(("framestack-%d-%s" % (k, order), unit_framestack, k, order, 5 if not T else 6))
    for sk in (1, 2, 3, 4):
        us.append(("maxskip-%d" % sk, unit_maxskip, sk, D + 1))
    for n in (1, 2, 3):
        us.append(("noop-%d" % n, unit_noop, n, D - 1))
    us.append(("fire", unit_fire, D))
    us.append(("life-a", unit_life, 4 if not T else 5, OUTS, (0, -1), False))
    us.append(("life-b", unit_life, 5 if not T else 6, OUTS[:2], (0, -1), True))
    us.append(("life-c", unit_life, 4 if not T else 5, OUTS[:2], (0, -1, 1, -3), False))
    us.append(("pointwise", unit_pointwise))
    us.append(("actions", unit_actions))
    for lim in (2, 3, 5, 7):
        for sk in (1, 2, 3):
            for noop, life, fire in ((0, True, False), (0, False, True), (0, True, True), (2, True, False), (2, False, True), (2, True, True)):
                us.append(("stack-%d-%d-%d-%d-%d" % (lim, sk, noop, life, fire), unit_stack, (6 if not T else 7) - (noop and life and fire), lim, sk, noop, life, fire))
    us.append(("monitor", unit_monitor, 3 if not T else 4))
    return us
