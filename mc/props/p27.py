"""P27  the toy environment ABC is the MDP it documents.

For every configuration and every sequence of resets and actions, the exact
distribution of observations, rewards and ends (all random outcomes enumerated)
is compared with a reference MDP.
"""
import itertools
import math

import numpy as np

from mc.core import explore
from mc.rng import controlled

RULE = "one case per (configuration, sequence of resets and actions, outcome of the random draws); non-trivial outcomes = distinct traces"
BOUNDS = {
    "quick": "sizes 1-3, all 16 combinations of discrete/continuous, partially observable, episodic, deterministic; all sequences of up to 5 (continuous 4) resets and actions, all random outcomes",
    "thorough": "sizes 1-4, sequences of up to 7 (continuous 5)",
}
ASSUMPTIONS = ["no step is made after an episode has ended (undocumented)", "deterministic partially observable settings: the first episode (number 0) is shifted, as the documentation counts"]


def reference(cfg, seq):
    """trace -> probability"""
    size, discrete, po, episodic, det = cfg
    front = [((), None, 0, 1.0)]  # trace, (state, offset), episodes, prob
    for op in seq:
        nxt = []
        for tr, st, n, p in front:
            if op == "reset":
                if not po:
                    offs = [(0, 1.0)]
                elif det:
                    offs = [((n + 1) % 2, 1.0)]
                else:
                    offs = [(0, 0.5), (1, 0.5)]
                for o, q in offs:
                    nxt.append((tr + (("reset", o),), (0, o), n + 1, p * q))
                continue
            if st is None or st[0] == size and episodic:
                nxt.append((tr, st, n, p))  # skipped by the driver as well
                continue
            if discrete:
                acts = [(op, 1.0)]
            else:
                v = [min(1.0, max(-1.0, x)) for x in op]
                if det:
                    acts = [(v.index(max(v)), 1.0)]
                else:
                    z = sum(math.exp(x) for x in v)
                    acts = [(i, math.exp(x) / z) for i, x in enumerate(v)]
            for a, q in acts:
                s, o = st
                r, d = 0.0, False
                if a == s:
                    if s == size - 1:
                        r = 1.0
                        d = episodic
                        s = size if episodic else 0
                    else:
                        s += 1
                elif episodic:
                    d, s = True, size
                nxt.append((tr + ((s + o, r, d),), (s, o), n, p * q))
        front = nxt
    out = {}
    for tr, _, _, p in front:
        out[tr] = out.get(tr, 0.0) + p
    return out


def unit(rec, cfg, depth, part, parts):
    from pfrl.envs.abc import ABC

    size, discrete, po, episodic, det = cfg
    if discrete:
        acts = list(range(size))
    elif det:
        acts = [tuple(1.0 if i == j else -0.5 for i in range(size)) for j in range(size)] + [tuple(-0.25 * (i + 1) for i in range(size))]
    else:
        acts = [tuple(4.0 if i == 0 else 0.0 for i in range(size)), tuple(-3.0 if i == 0 else 0.5 for i in range(size))]
    ops = ["reset"] + acts
    for k, seq in enumerate(itertools.product(ops, repeat=depth - 1)):
        if k % parts != part:
            continue
        seq = ("reset",) + seq
        got = {}

        def go(ctx):
            with controlled(ctx, grid=32) as rng:
                rec.begin({"cfg": cfg, "seq": seq, "choices": ctx.prefix})
                env = ABC(size=size, discrete=discrete, partially_observable=po, episodic=episodic, deterministic=det)
                tr, kept = (), []
                over = True
                for op in seq:
                    rec.step()
                    if op == "reset":
                        o = env.reset()
                        over = False
                        r = d = None
                    elif over:
                        continue
                    else:
                        a = op if discrete else np.array(op, dtype=np.float32)
                        o, r, d, info = env.step(a)
                        rec.check(discrete or a.tolist() == list(op), "the action was modified")
                        rec.check(isinstance(info, dict) and not info.get("needs_reset"), "info %r" % (info,))
                        over = bool(d)
                    rec.check(isinstance(o, np.ndarray) and o.shape == (size + 2,) == env.observation_space.shape and o.dtype == np.float32, "observation %r" % (o,))
                    rec.check(sorted(o.tolist()) == [0.0] * (size + 1) + [1.0], "observation is not one-hot: %r" % (o,))
                    i = int(np.argmax(o))
                    tr += (("reset", i),) if op == "reset" else ((i, float(r), bool(d)),)
                    kept.append((o, i))
                rec.check(all(int(np.argmax(o)) == i and o.sum() == 1 for o, i in kept), "an earlier observation was overwritten")
                got[tr] = got.get(tr, 0.0) + float(rng.prob)
                env.close()

        explore(go)
        want = reference(cfg, seq)
        rec.check(set(want) >= set(got), "impossible trace %s" % sorted(set(got) - set(want))[:1])
        rec.check(set(want) <= set(got), "trace %s never happens" % sorted(set(want) - set(got))[:1])
        for t, p in want.items():
            rec.check(abs(got[t] - p) < 0.04, "trace %r has probability %.3f instead of %.3f" % (t, got[t], p))
            rec.outcome((cfg, t))
        rec.state((cfg, seq))


def units(tier):
    T = tier == "thorough"
    us = []
    for size in (1, 2, 3, 4) if T else (1, 2, 3):
        for discrete, po, episodic, det in itertools.product((True, False), repeat=4):
            depth = (7 if size < 4 else 6) if T else 5
            if not discrete:
                depth = 5 if T else 4
            us.append(("abc-%d%s" % (size, "".join("01"[x] for x in (discrete, po, episodic, det))), unit, (size, discrete, po, episodic, det), depth, 0, 1))
    return us
