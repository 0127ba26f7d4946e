"""P28  preprocessing: phi and batch_states see every observation exactly once.

An agent with preprocessing function f that is given the observations o has to
behave bit for bit like the same agent without preprocessing that is given f(o):
same actions, parameters, optimizer states, statistics and evaluation actions,
over every history within bounds. Replay buffers hold the raw observations, and
observations never go around batch_states (where the agent has that argument).
"""
import itertools

import numpy as np

from mc import zoo as Z

RULE = "one case per (agent, interface, preprocessing, script of episode ends, episode ends of the evaluation); non-trivial outcomes = distinct final parameters"
BOUNDS = {
    "quick": "28 agents; per step {continue, done, reset}; 1 environment x 4 steps (single interface), 2 environments x 2 steps and 1 x 3 (batch interface), an evaluation episode after every second step; phi as affine map, as lookup of symbolic observations and as custom batch_states",
    "thorough": "1 environment x 6 steps, 2 x 3 steps",
}
ASSUMPTIONS = ["phi is pure; random numbers are the same in both runs"]
OUT = [(False, False), (True, False), (False, True)]


def f(o):
    return (o * np.float32(0.5) + np.float32(0.25)).astype(np.float32)


class Sym(object):
    """A symbolic observation: only phi can turn it into numbers."""

    def __init__(self, uid):
        self.uid = uid


def table(s):
    assert isinstance(s, Sym), "phi was applied to something that is not an observation: %r" % (s,)
    return f(Z.obs_of(s.uid))


def affine(o):
    assert isinstance(o, np.ndarray) and o.shape == (2,), "phi was applied to something that is not an observation: %r" % (o,)
    return f(o)


def drive(rec, kind, mode, script, n, base):
    calls = []
    if mode == "plain":
        extra, ob = {}, lambda u: f(Z.obs_of(u))
    elif mode == "affine":
        extra, ob = dict(phi=affine), Z.obs_of
    elif mode == "sym":
        extra, ob = dict(phi=table), Sym
    else:  # custom batch_states on symbolic observations, phi applied by it

        def bs(states, device, phi):
            import torch

            calls.append(len(states))
            for s in states:
                rec.check(isinstance(s, Sym), "batch_states got something that is not an observation")
            return torch.as_tensor(np.stack([phi(s) for s in states]), device=device)

        extra, ob = dict(phi=table, batch_states=bs), Sym
    Z.rng_seed(9)
    z = Z.Zoo(kind, n_envs=max(n, 1), extra=extra)
    ag = z.agent
    cur = [base + 40 * i for i in range(max(n, 1))]
    trace = []
    for t, step in enumerate(script):
        if n == 0:
            a = [ag.act(ob(cur[0]))]
        else:
            a = ag.batch_act([ob(c) for c in cur])
        nxt = [c + 1 for c in cur]
        rew = [((c * 5) % 7 - 3) / 2.0 for c in nxt]
        ds, rs = [x[0] for x in step], [x[1] for x in step]
        if n == 0:
            ag.observe(ob(nxt[0]), rew[0], ds[0], rs[0])
        else:
            ag.batch_observe([ob(c) for c in nxt], rew, ds, rs)
        trace.append(("train", [np.asarray(x).tolist() for x in a], z.fingerprint()))
        cur = [c + 10 if d or r else c for c, d, r in zip(nxt, ds, rs)]
        if t % 2:
            st = Z.rng_get()
            with ag.eval_mode():
                ev = [900 + t, 901 + t]
                if n == 0:
                    trace.append(("eval", np.asarray(ag.act(ob(ev[0]))).tolist()))
                    ag.observe(ob(ev[1]), 0.0, False, False)
                    trace.append(("eval", np.asarray(ag.act(ob(ev[1]))).tolist()))
                    ag.observe(ob(ev[0]), 0.0, True, False)
                else:
                    trace.append(("eval", [np.asarray(x).tolist() for x in ag.batch_act([ob(ev[0])] * n)]))
                    ag.batch_observe([ob(ev[1])] * n, [0.0] * n, [True] * n, [False] * n)
            Z.rng_set(st)
    trace.append(("stats", repr(ag.get_statistics())))
    # raw observations in the replay buffer
    if mode in ("sym", "bs") and z.buf is not None and len(z.buf):
        eps = getattr(z.buf, "memory", None)
        for e in list(eps.data if hasattr(eps, "data") else eps) if eps is not None else []:
            for tr in e if isinstance(e, (list, tuple)) else [e]:
                if isinstance(tr, dict):
                    rec.check(isinstance(tr["state"], Sym) and isinstance(tr["next_state"], Sym), "the replay buffer does not hold the raw observations")
    if mode == "bs":
        rec.check(sum(calls) > 0, "batch_states was never used")
    return trace


def unit(rec, kind, n, T, modes):
    joint = list(itertools.product(OUT, repeat=max(n, 1)))
    for script in itertools.product(joint, repeat=T):
        want = None
        for mode in ("plain",) + modes:
            rec.begin({"agent": kind, "n": n, "mode": mode, "script": script})
            got = drive(rec, kind, mode, script, n, 1)
            rec.step(T)
            if want is None:
                want = got
                continue
            for x, y in zip(want, got):
                if x[0] == "train":
                    rec.eq(y[1], x[1], "training actions with preprocessing")
                    df = Z.diff(x[2], y[2])
                    rec.check(not df, "parameters with preprocessing differ in %s" % df[:3])
                else:
                    rec.eq(y[1], x[1], "%s with preprocessing" % ("evaluation actions" if x[0] == "eval" else "statistics"))
        rec.state((kind, n, script))
        rec.outcome(hash(tuple(v for _, v in [e for e in want if e[0] == "train"][-1][2])))


NO_BS = {"acer", "racer", "cacer"}


def units(tier):
    T = tier == "thorough"
    us = []
    for k in Z.KINDS:
        modes = ("affine", "sym") + (() if k in NO_BS else ("bs",))
        us.append(("%s-1" % k, unit, k, 0, (6 if k not in Z.RECURRENT else 5) if T else 4, modes))
        if k not in Z.SINGLE:
            us.append(("%s-b1" % k, unit, k, 1, 4 if T else 3, modes[-2:]))
            us.append(("%s-b2" % k, unit, k, 2, 3 if T else 2, modes[-2:] if not T else modes[-1:]))
    return us
