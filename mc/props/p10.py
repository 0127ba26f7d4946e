"""P10  vector environments behave like their environments run one by one.

All operation sequences (step / reset with every mask / seed) over scripted
environments; SerialVectorEnv, MultiprocessVectorEnv (worker processes under
the controlled scheduler, and real processes for conformance) and
VectorFrameStack on both are compared with the individual environments.
"""
import itertools
import signal

import numpy as np

from mc import sched as SC
from mc.core import explore

RULE = "one case per (kind, operation sequence, schedule); non-trivial outcomes = distinct observation streams"
BOUNDS = {
    "quick": "1..3 environments, all sequences of 3 operations (2 for 3 envs) over step and reset with every mask after an initial reset, mask as "
    "list / bool array / float array; worker schedules with <=2 deviations from round-robin (1 for the longest sequences); frame stacks of 1..4 on both axes",
    "thorough": "one more operation (serial), <=2 deviations everywhere",
}
ASSUMPTIONS = ["environments do not raise", "pipes deliver pickled copies in order (as multiprocessing's do)"]


class Spec(object):
    def __init__(self, i):
        self.id = "Stub-v%d" % i

    def __eq__(self, o):
        return isinstance(o, Spec) and o.id == self.id


class E(object):
    """Environment whose observations identify env, episode, step and action."""

    def __init__(self, i, calls=None):
        import gym

        self.i = i
        self.ep = -1
        self.k = 0
        self.seeded = None
        self.calls = calls
        self.action_space = gym.spaces.Discrete(3 + i)
        self.observation_space = gym.spaces.Box(low=np.full((1, 2, 2), 0.0, np.float32), high=np.full((1, 2, 2), 9.0 + i, np.float32))
        self.spec = Spec(i)

    def _obs(self, a=0):
        return np.array([[[self.i, self.ep], [self.k, a]]], dtype=np.float32)

    def reset(self):
        self.ep += 1
        self.k = 0
        self._call("reset")
        return self._obs()

    def step(self, a):
        self.k += 1
        self._call(("step", a))
        r = self.i * 100 + self.ep * 10 + self.k + a / 8
        return self._obs(a), r, (self.k + self.i) % 2 == 0, {"i": self.i, "needs_reset": self.k == 3, "ep": self.ep}

    def seed(self, s=None):
        self.seeded = s
        self._call(("seed", s))
        return [self.i, s]

    def close(self):
        self._call("close")

    def _call(self, c):
        if self.calls is not None:
            self.calls[self.i].append(c)


def ops_for(n):
    ops = [("step",)]
    for m in itertools.product((False, True), repeat=n):
        ops.append(("reset", m))
    return ops


def as_mask(m, form):
    if form == 0:
        return list(m)
    if form == 1:
        return np.array(m, dtype=bool)
    return np.array(m, dtype=np.float64)


def norm(x):
    if hasattr(x, "__array__") and not isinstance(x, np.ndarray):
        x = np.asarray(x)
    return (x.dtype.str, x.shape, tuple(float(v) for v in x.ravel()))


def drive(rec, venv, n, seq, stack=None, axis=0, form=0, close=True, seeds=True, finish=None):
    """Runs `seq` on venv and on a reference; returns the observed stream."""
    ref = [E(i) for i in range(n)]
    frames = [None] * n
    last = [None] * n
    out = []
    kept = []  # (returned object, expected) -- must stay valid later

    def expect_obs():
        if stack is None:
            return [norm(o) for o in last]
        return [norm(np.concatenate(f, axis=axis)) for f in frames]

    def push(i, o, new):
        last[i] = o
        if stack is not None:
            frames[i] = [o] * stack if new else (frames[i] + [o])[-stack:]

    if seeds:
        got = venv.seed([5 + i for i in range(n)])
        for i in range(n):
            ref[i].seed(5 + i)
    na = 0
    first = True
    for op in seq:
        if op[0] == "reset":
            m = op[1]
            if m is None:
                got = venv.reset()
                m = (False,) * n
            else:
                mk = as_mask(m, form)
                keep = list(mk)
                got = venv.reset(mask=mk) if form != 1 else venv.reset(mk)
                rec.check(list(mk) == keep, "reset modified the mask")
            for i in range(n):
                if not m[i]:
                    push(i, ref[i].reset(), True)
            rec.eq([norm(o) for o in got], expect_obs(), "observations after %r" % (op,))
        else:
            acts = [(na + 2 * i) % 3 for i in range(n)]
            na += 1
            obs, rs, ds, infos = venv.step(list(acts))
            exp = [ref[i].step(acts[i]) for i in range(n)]
            for i in range(n):
                push(i, exp[i][0], False)
            rec.eq([norm(o) for o in obs], expect_obs(), "observations after %r" % (op,))
            rec.eq(([float(r) for r in rs], [bool(d) for d in ds], [dict(f) for f in infos]),
                   ([e[1] for e in exp], [e[2] for e in exp], [e[3] for e in exp]), "step results")
            got = obs
        kept.append((list(got), expect_obs()))
        out.append(tuple(expect_obs()))
        rec.step()
    for objs, exp in kept:
        rec.eq([norm(o) for o in objs], exp, "earlier observations changed afterwards")
    rec.eq(venv.num_envs, n, "num_envs")
    rec.eq(venv.action_space.n, 3, "action space of the first env")
    sp = venv.observation_space
    want_low = ref[0].observation_space
    if stack is None:
        rec.check(sp == want_low, "observation space")
    else:
        rec.check(np.array_equal(sp.high, np.repeat(want_low.high, stack, axis=axis)) and np.array_equal(sp.low, np.repeat(want_low.low, stack, axis=axis)) and sp.dtype == want_low.dtype, "observation space of the stack")
    rec.check(venv.spec == ref[0].spec, "spec: got %r" % (venv.spec,))
    if finish:
        finish()
    rec.outcome(tuple(out))
    return out, last


def seqs(n, depth, lead=(("reset", None),)):
    for d in range(0, depth + 1):
        for s in itertools.product(ops_for(n), repeat=d):
            yield tuple(lead) + s


def unit_serial(rec, n, depth, stack, axis):
    from pfrl.envs import SerialVectorEnv
    from pfrl.wrappers import VectorFrameStack

    for form in (0, 1, 2):
        for s in seqs(n, depth):
            rec.begin({"kind": "serial", "n": n, "seq": s, "stack": stack, "form": form})
            calls = {i: [] for i in range(n)}
            v = SerialVectorEnv([E(i, calls) for i in range(n)])
            if stack is not None:
                v = VectorFrameStack(v, stack, stack_axis=axis)
            drive(rec, v, n, s, stack, axis, form)
            v.close()
            rec.check(all(c.count("close") == 1 for c in calls.values()), "environments closed")
            rec.state((n, s, stack))


def make_mp(envfns, stack, axis):
    from pfrl.envs import MultiprocessVectorEnv
    from pfrl.wrappers import VectorFrameStack

    v = MultiprocessVectorEnv(envfns)
    return v if stack is None else VectorFrameStack(v, stack, stack_axis=axis)


def mp_case(rec, ctx, n, s, stack, axis, form):
    sc = SC.Sched(ctx, delay=True)
    calls = {i: [] for i in range(n)}
    sig = signal.signal
    with SC.patched(sc):
        signal.signal = lambda *a: None
        try:
            v = make_mp([lambda i=i: E(i, calls) for i in range(n)], stack, axis)
            base = v.env if stack is not None else v
            short = len(s) == 2
            _, last = drive(rec, v, n, s, stack, axis, form, seeds=short)
            if short:
                # int seeds / None / wrong lengths
                rec.eq([list(x) for x in base.seed(7)], [[i, 7] for i in range(n)], "seed(int)")
                rec.eq([list(x) for x in base.seed()], [[i, None] for i in range(n)], "seed()")
                try:
                    base.seed([1] * (n + 1))
                    rec.fail("seed list of the wrong length accepted")
                except ValueError:
                    pass
            v.close()
            rec.check(all(c.count("close") == 1 for c in calls.values()), "every environment is closed once: %r" % calls)
            rec.check(all(p.exitcode == 0 for p in base.ps) if hasattr(base, "ps") else True, "workers did not exit cleanly")
            for f in (lambda: v.step([0] * n), lambda: v.reset(), lambda: base.seed(1)):
                try:
                    f()
                except AssertionError:
                    pass
                else:
                    rec.fail("a closed vector env accepted an operation")
            exp = {i: [] for i in range(n)}
            refs = [E(i, exp) for i in range(n)]
            na = 0
            for i in range(n):
                short and refs[i].seed(5 + i)
            for op in s:
                for i in range(n):
                    if op[0] == "reset":
                        if op[1] is None or not op[1][i]:
                            refs[i].reset()
                    else:
                        refs[i].step((na + 2 * i) % 3)
                na += op[0] == "step"
            for i in range(n):
                rec.eq(calls[i][: len(exp[i])], exp[i], "calls received by env %d" % i)
        finally:
            signal.signal = sig
    rec.step(sc.points)
    rec.state((n, s, stack, tuple(sc.trace)))


def unit_mp(rec, n, depth, stack, axis, form, bound, part=0, nparts=1):
    for j, s in enumerate(seqs(n, depth)):
        if j % nparts != part:
            continue

        def go(ctx):
            rec.begin({"kind": "mp", "n": n, "seq": s, "stack": stack, "form": form, "schedule": ctx.prefix})
            mp_case(rec, ctx, n, s, stack, axis, form)

        explore(go, rec, bound=bound)


def unit_real(rec, n, stack):
    """Real worker processes, one schedule per sequence."""
    v = make_mp([lambda i=i: E(i) for i in range(n)], stack, 0)
    rec.begin({"kind": "real processes", "n": n, "stack": stack})
    seq = (("reset", None),)
    for s in itertools.product(ops_for(n), repeat=2):
        seq += s
    drive(rec, v, n, seq, stack, 0, 0)
    v.close()
    base = v.env if stack is not None else v
    rec.check(all(not p.is_alive() for p in base.ps), "workers still alive after close")
    rec.state(("real", n, stack))


def units(tier):
    T = tier == "thorough"
    us = []
    for n, d in ((1, 4), (2, 3), (3, 2)):
        d += T
        for stack, axis in ((None, 0), (1, 0), (2, 0), (3, 0), (2, 2), (4, 1)):
            us.append(("serial-%d-%s-%d" % (n, stack, axis), unit_serial, n, d, stack, axis))
    for n, d, b in ((1, 3, 2), (2, 2, 2), (2, 3, 1), (3, 1, 1), (3, 2, 1)):
        for stack, form in ((None, 0), (None, 1), (2, 2), (3, 0)):
            if (n, d) in ((2, 3), (3, 2)) and (stack, form) not in ((None, 0), (2, 2)):
                continue
            if (n, d) == (2, 2) and (stack, form) != (None, 0):
                b = 1
            for part in range(1 if d < 2 else 4):
                us.append(("mp-%d-%d-%s-%d-%d" % (n, d, stack, form, part), unit_mp, n, d, stack, 0, form, min(b + T, 2), part, 1 if d < 2 else 4))
    us += [("real-2", unit_real, 2, None), ("real-3", unit_real, 3, 2)]
    return us
