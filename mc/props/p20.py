"""P20  explorers select actions with the announced probabilities.

Every draw of the random generator is enumerated: the exact probability of
exploring at every step number, the exact action distribution of Boltzmann
exploration and the exact set of noise trajectories are compared with the
documented ones.
"""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc.core import explore
from mc.rng import controlled

RULE = "one case per (explorer, configuration, history of step numbers, outcome of every random draw); non-trivial outcomes = distinct selected actions"
BOUNDS = {
    "quick": "epsilon: start/end in multiples of 1/8 (all pairs of 5), decay_steps 0,1,2,4,5,7, all t up to 2*decay_steps+3 and all histories of 2 step numbers, draws at 80 equal strata plus the extreme values; Boltzmann: all q-value vectors over 4 values for 1-3 actions x 4 temperatures; Gaussian/OU: every {-1,0,1}-pattern of standard normal draws for 1-2 dimensions, scalar and per-dimension scales, every combination of bounds, trajectories of up to 3 steps",
    "thorough": "9 values of epsilon, histories of 3 step numbers, Boltzmann up to 4 actions over 5 values, trajectories of up to 4 steps",
}
ASSUMPTIONS = [
    "random numbers come from numpy.random or random (other sources are not enumerated: only the selected values are checked then)",
    "normal draws are represented by {-1,0,1}; the transformation of the draws is affine",
]
G = 80


class Funcs(object):
    """Greedy/random action functions that count their calls."""

    def __init__(self):
        self.g = self.r = 0

    def greedy(self):
        self.g += 1
        return ("g", self.g)

    def random(self):
        self.r += 1
        return ("r", self.r)


def make(kind, cfg, f):
    from pfrl import explorers as E

    if kind == "constant":
        return E.ConstantEpsilonGreedy(cfg[0], f)
    if kind == "linear":
        return E.LinearDecayEpsilonGreedy(cfg[0], cfg[1], cfg[2], f)
    if kind == "exp":
        return E.ExponentialDecayEpsilonGreedy(cfg[0], cfg[1], cfg[2], f)
    return E.Greedy()


def eps_at(kind, cfg, t):
    if kind == "constant":
        return Fraction(cfg[0])
    if kind == "greedy":
        return Fraction(0)
    s, e = Fraction(cfg[0]), Fraction(cfg[1])
    if kind == "linear":
        return e if t >= cfg[2] else s + (e - s) * Fraction(t, cfg[2])
    return max(e, s * Fraction(cfg[2]) ** t)


def one_select(rec, kind, cfg, ts, ctx, **kw):
    """Run a history of selections; only the last one's draws are enumerated."""
    F = Funcs()
    ex = make(kind, cfg, F.random)
    state = np.random.get_state()
    np.random.seed(1)
    for t in ts[:-1]:
        ex.select_action(t, F.greedy)
    np.random.set_state(state)
    F.g = F.r = 0
    with controlled(ctx, **kw) as rng:
        a = ex.select_action(ts[-1], F.greedy)
    rec.begin({"explorer": kind, "config": cfg, "t": ts, "choices": ctx.trace})
    rec.step()
    rec.check(F.g + F.r == 1, "greedy_action_func called %d times, random_action_func %d times in one selection" % (F.g, F.r))
    want = ("r", 1) if F.r else ("g", 1)
    rec.check(a == want, "selected %r but the chosen function returned %r" % (a, want))
    return bool(F.r), rng


def dist(rec, kind, cfg, ts):
    want = eps_at(kind, cfg, ts[-1])
    acc = {"p": Fraction(0), "tot": Fraction(0), "free": False}

    def go(ctx):
        r, rng = one_select(rec, kind, cfg, ts, ctx, grid=G)
        if rng.n_draws == 0:
            acc["free"] = True
        acc["tot"] += rng.prob
        if r:
            acc["p"] += rng.prob

    explore(go)
    rec.begin({"explorer": kind, "config": cfg, "t": ts, "what": "probability of exploring"})
    rec.state((kind, cfg, ts))
    rec.outcome((float(acc["p"])))
    if acc["free"] and 0 < want < 1:
        return
    rec.check(
        abs(acc["p"] - want) <= Fraction(51, 100 * G),
        "explores with probability %s at t=%s instead of %s" % (float(acc["p"]), ts[-1], float(want)),
    )


def edge(rec, kind, cfg, ts):
    """Extreme draws: probability 0 is never, 1 is always."""
    want = eps_at(kind, cfg, ts[-1])
    if want not in (0, 1):
        return

    def go(ctx):
        r, _ = one_select(rec, kind, cfg, ts, ctx, grid=2, edges=True)
        rec.check(r == (want == 1), "explored=%s although epsilon is exactly %s" % (r, want))

    explore(go)


def unit_eps(rec, kind, T, ds=(0, 1, 2, 4, 5, 7)):
    vals = [i / 8.0 for i in range(9)] if T else [0.0, 0.125, 0.5, 0.75, 1.0]
    if kind == "greedy":
        cfgs = [()]
    elif kind == "constant":
        cfgs = [(v,) for v in vals]
    elif kind == "linear":
        cfgs = [(s, e, d) for s in vals for e in vals for d in ds]
    else:
        cfgs = [(s, e, d) for s in vals for e in vals for d in (0.5, 0.25, 0.75)]
    for cfg in cfgs:
        D = cfg[2] if kind == "linear" else 3
        for t in range(0, 2 * D + 3):
            dist(rec, kind, cfg, (t,))
            edge(rec, kind, cfg, (t,))
        far = 10**7 if kind == "linear" else 200
        dist(rec, kind, cfg, (far,)) if kind != "exp" or cfg[1] > 0 else None
        # the outcome depends on t only, not on earlier selections
        if cfg and cfg[0] != cfg[-1]:
            ts = sorted({0, 1, D, D + 1})
            for h in itertools.product(ts, repeat=3 if T else 2):
                if kind == "linear" and D in (2, 5) or kind == "exp" and cfg[2] == 0.5 or kind == "constant":
                    dist(rec, kind, cfg, h)


def unit_big(rec):
    """Usual sizes: every step number of a decay of 1000 steps."""
    from pfrl import explorers as E

    for s, e, d in ((1.0, 0.1, 1000), (0.3, 0.01, 37), (0.1, 0.9, 50)):
        F = Funcs()
        ex = E.LinearDecayEpsilonGreedy(s, e, d, F.random)
        for t in list(range(0, d + 3)) + [2 * d, 10 * d]:
            rec.begin({"linear": (s, e, d), "t": t})
            want = e if t >= d else s + (e - s) * t / d
            ex.select_action(t, F.greedy)
            rec.step()
            rec.check(abs(ex.compute_epsilon(t) - want) < 1e-12 and abs(ex.epsilon - want) < 1e-12, "epsilon %r at t=%d instead of %r" % (ex.epsilon, t, want))
    rec.outcome("big")


# ---------------------------------------------------------------- Boltzmann


def unit_boltzmann(rec, n, T):
    import torch

    from pfrl import explorers as E
    from pfrl.action_value import DiscreteActionValue, QuantileDiscreteActionValue

    vals = [-1.5, 0.0, 0.25, 2.0] + ([1000.0] if T else [])
    for temp in (0.5, 1.0, 3.0, 0.01):
        ex = E.Boltzmann(T=temp) if temp != 1.0 else E.Boltzmann()
        for q in itertools.product(vals, repeat=n):
            m = max(q)
            w = [math.exp((x - m) / temp) for x in q]
            w = [x / sum(w) for x in w]
            for form in ("plain", "quantile") if temp == 0.5 else ("plain",):
                p = {}
                free = [False]
                qt = torch.tensor([q], dtype=torch.float32)
                av = DiscreteActionValue(qt) if form == "plain" else QuantileDiscreteActionValue(torch.stack([qt - 0.5, qt + 0.5], dim=1))

                def go(ctx):
                    with controlled(ctx, grid=64) as rng:
                        a = ex.select_action(3, lambda: 99, action_value=av)
                    rec.begin({"boltzmann T": temp, "q": q, "choices": ctx.trace})
                    rec.step()
                    rec.check(a in range(n), "selected action %r" % (a,))
                    free[0] |= rng.n_draws == 0
                    p[int(a)] = p.get(int(a), 0) + rng.prob

                explore(go)
                rec.state((temp, q, form))
                rec.begin({"boltzmann T": temp, "q": q})
                rec.outcome(sorted((k, round(float(v), 5)) for k, v in p.items()))
                if n > 1 and free[0]:
                    continue
                for a in range(n):
                    got = float(p.get(a, 0))
                    # an inverse-cdf implementation is resolved to the strata only
                    tol = 1e-5 if len(p) <= n and not _stratified(p) else 1.01 / 64
                    rec.check(abs(got - w[a]) <= tol, "action %d selected with probability %r instead of softmax %r" % (a, got, w[a]))


def _stratified(p):
    return all(Fraction(v) * 64 == int(Fraction(v) * 64) for v in p.values()) and len(p) > 1


# ---------------------------------------------------------------- additive noise


def rnd(x):
    return tuple(round(float(v), 4) + 0.0 for v in np.asarray(x, dtype=float).ravel())


def unit_gauss(rec):
    from pfrl import explorers as E

    for d in (1, 2):
        acts = [np.array(v, dtype=np.float32) for v in itertools.product((-1.0, 0.25, 1.0), repeat=d)]
        scales = [0.0, 0.5, 2.0, [0.5, 1.0][:d], np.array([1.0, 0.0][:d])]
        lows = [None, -1.0, np.array([-1.0, -0.5][:d], dtype=np.float32)]
        highs = [None, 1.0, np.array([1.0, 0.5][:d], dtype=np.float32)]
        for a, sc, lo, hi in itertools.product(acts, scales, lows, highs):
            ex = E.AdditiveGaussian(sc, low=lo, high=hi)
            got, want = set(), set()
            free = [False]
            for z in itertools.product((-1.0, 0.0, 1.0), repeat=d):
                x = a.astype(float) + np.asarray(sc, dtype=float) * np.array(z)
                if lo is not None:
                    x = np.maximum(x, lo)
                if hi is not None:
                    x = np.minimum(x, hi)
                want.add(rnd(x))

            def go(ctx):
                g = a.copy()
                calls = []

                def greedy():
                    calls.append(1)
                    return g

                with controlled(ctx) as rng:
                    x = ex.select_action(0, greedy)
                rec.begin({"gaussian scale": sc, "low": lo, "high": hi, "greedy": a.tolist(), "choices": ctx.trace})
                rec.step()
                free[0] |= rng.n_draws == 0
                rec.check(len(calls) == 1, "greedy_action_func called %d times" % len(calls))
                rec.check(np.array_equal(g, a), "the greedy action was modified in place")
                rec.check(x.shape == a.shape, "shape %r" % (x.shape,))
                rec.check(lo is None or (x >= lo).all(), "below the lower bound: %r" % (x,))
                rec.check(hi is None or (x <= hi).all(), "above the upper bound: %r" % (x,))
                got.add(rnd(x))

            explore(go)
            rec.begin({"gaussian scale": sc, "low": lo, "high": hi, "greedy": a.tolist()})
            rec.state(("gauss", a.tolist(), str(sc), str(lo), str(hi)))
            rec.outcome(sorted(got))
            rec.check(free[0] or got == want, "noisy actions %r instead of %r" % (sorted(got)[:6], sorted(want)[:6]))


def unit_ou(rec, L):
    from pfrl import explorers as E

    for d, mu, theta, sigma, start in itertools.product((1, 2), (0.0, 0.5), (0.15, 0.5, 1.0), (0.0, 0.3, "vec"), (False, True)):
        sig = np.array([0.2, 0.4][:d]) if sigma == "vec" else sigma
        n = min(L, 2) if d == 2 else L
        want = set()
        k = n - (1 if start else 0)
        s0 = np.asarray(sig) / math.sqrt(2 * theta - theta**2)
        acts = [np.array([0.1, -0.7][:d], dtype=np.float32) * (i + 1) for i in range(n)]
        for zs in itertools.product(list(itertools.product((-1.0, 0.0, 1.0), repeat=d)), repeat=k):
            zs = [np.array(z) for z in zs]
            x = np.full(d, mu) if start else mu + s0 * zs.pop(0)
            tr = [acts[0] + x]
            for i in range(1, n):
                x = x + theta * (mu - x) + np.asarray(sig) * zs.pop(0)
                tr.append(acts[i] + x)
            want.add(tuple(rnd(v) for v in tr))
        got = set()
        free = [False]

        def go(ctx):
            ex = E.AdditiveOU(mu=mu, theta=theta, sigma=sig, start_with_mu=start)
            out, keep = [], []
            rec.begin({"OU mu": mu, "theta": theta, "sigma": sigma, "start_with_mu": start, "dim": d})
            with controlled(ctx) as rng:
                for i in range(n):
                    g = acts[i].copy()
                    x = ex.select_action(i, lambda: g)
                    rec.check(np.array_equal(g, acts[i]), "the greedy action was modified in place")
                    rec.check(x.shape == g.shape, "shape %r" % (x.shape,))
                    out.append(x)
                    keep.append(x.copy())
                    rec.step()
            free[0] |= rng.n_draws == 0 and k > 0
            for a, b in zip(out, keep):
                rec.check(np.array_equal(a, b), "an action returned earlier changed later")
            got.add(tuple(rnd(v) for v in out))

        explore(go)
        rec.begin({"OU mu": mu, "theta": theta, "sigma": sigma, "start_with_mu": start, "dim": d})
        rec.state(("ou", d, mu, theta, str(sigma), start))
        rec.outcome(sorted(got)[:3])
        bad = sorted(got - want)[:2]
        miss = sorted(want - got)[:2]
        ok = free[0] or all(any(_close(a, b) for b in want) for a in got - want) and all(any(_close(a, b) for b in got) for a in want - got)
        rec.check(ok, "trajectories %r are not those of the process (missing %r)" % (bad, miss))


def _close(a, b):
    return all(abs(x - y) < 5e-4 for u, v in zip(a, b) for x, y in zip(u, v))


def units(tier):
    T = tier == "thorough"
    us = [("eps-" + k, unit_eps, k, T) for k in ("exp", "constant", "greedy")]
    us += [("eps-linear-%d" % d, unit_eps, "linear", T, (d,)) for d in (0, 1, 2, 4, 5, 7)]
    us += [("big", unit_big)]
    us += [("boltzmann-%d" % n, unit_boltzmann, n, T) for n in range(1, (5 if T else 4))]
    us += [("gauss", unit_gauss), ("ou", unit_ou, 4 if T else 3)]
    return us
