"""P02  episodic replay buffers (uniform and prioritized).

All sequences of append / append-terminal / stop over env ids, capacities, and
all RNG outcomes of episode/subsequence sampling, against a list of episodes.
"""
import itertools
import os
from fractions import Fraction

from mc.core import explore
from mc.props.p01 import canon, payload, sequences
from mc.rng import controlled

RULE = (
    "one case per operation sequence x configuration (or per RNG outcome of a "
    "sampling call); distinct outcomes = distinct stored episode lists / samples"
)
BOUNDS = {
    "quick": "all sequences of {append, append-terminal, stop} up to depth 9 (1 env), "
    "6 (2 envs), 5 (3 envs); capacity None,1,2,3,4,6; every period-3 pattern repeated to length 60 with capacity None,7,16,33; sampling: every RNG outcome for "
    "episode-length tuples up to 3 episodes of length <= 4, max_len None,1..4",
    "thorough": "depth 11 / 7 / 6",
}


class Model(object):
    def __init__(self, capacity):
        self.capacity = capacity
        self.cur = {}
        self.eps = []

    def append(self, env, tr):
        self.cur.setdefault(env, []).append(tr)
        if tr["is_state_terminal"]:
            self.stop(env)

    def stop(self, env):
        ep = self.cur.pop(env, [])
        if ep:
            self.eps.append(ep)
            while self.capacity is not None and self.n() > self.capacity:
                self.eps.pop(0)

    def n(self):
        return sum(len(e) for e in self.eps)


def make(kind, capacity):
    from pfrl import replay_buffers as rbs

    if kind == "uniform":
        return rbs.EpisodicReplayBuffer(capacity=capacity)
    return rbs.PrioritizedEpisodicReplayBuffer(capacity=capacity)


def episodes_of(buf, kind, n, max_len=None):
    if n == 0:
        return []
    r = buf.sample_episodes(n, max_len)
    if kind != "uniform":
        r, w = r
        assert len(w) == n
        buf.update_errors([1.0] * n)
    return [list(e) for e in r]


def apply(buf, model, seq, start=0):
    for i, (op, env) in enumerate(seq, start):
        if op == "S":
            buf.stop_current_episode(env_id=env)
            model.stop(env)
        else:
            tr = payload(i, env, op == "T", i)
            buf.append(env_id=env, **tr)
            model.append(env, tr)


def compare(rec, buf, model, kind):
    rec.eq(len(buf), model.n(), "len(buffer)")
    rec.eq(buf.n_episodes, len(model.eps), "n_episodes")
    rec.eq(buf.capacity, model.capacity, "capacity")
    got = canon(episodes_of(buf, kind, len(model.eps)))
    rec.eq(got, canon(model.eps), "stored episodes")
    n = model.n()
    flat = [list(e) for e in buf.sample(n)] if n else []
    rec.eq(canon(flat), canon([[t] for e in model.eps for t in e]), "stored transitions")


def unit_seq(rec, kind, cap, envs, depth, every=False):
    for seq in sequences(depth, envs):
        rec.begin({"kind": kind, "cap": cap, "seq": seq})
        buf, model = make(kind, cap), Model(cap)
        if every:
            for i, op in enumerate(seq):
                apply(buf, model, [op], i)
                compare(rec, buf, model, kind)
        else:
            apply(buf, model, seq)
            compare(rec, buf, model, kind)
        rec.step(len(seq))
        c = canon(model.eps)
        rec.state((kind, cap, c, sorted(model.cur.items(), key=repr)))
        rec.outcome(c)


def unit_saveload(rec, kind, cap, depth, tail):
    path = os.path.join(rec.scratch, "rb.pkl")
    tails = list(itertools.product([("A", 0), ("T", 0), ("S", 0)], repeat=tail))
    for seq in sequences(depth, (0, 1)):
        buf, model = make(kind, cap), Model(cap)
        apply(buf, model, seq)
        buf.save(path)
        compare(rec, buf, model, kind)
        for tl in tails:
            rec.begin({"kind": kind, "cap": cap, "seq": seq, "tail": tl})
            b2, m2 = make(kind, cap), Model(cap)
            b2.load(path)
            m2.eps = list(model.eps)
            compare(rec, b2, m2, kind)
            apply(b2, m2, tl, 100)
            compare(rec, b2, m2, kind)
            rec.step(len(seq) + len(tl))
            c = canon(m2.eps)
            rec.outcome(c)
            rec.state(("sl", kind, cap, c))


def unit_sampling(rec, kind, n_eps, max_ep_len):
    for lens in itertools.product(range(1, max_ep_len + 1), repeat=n_eps):
        for k in range(1, n_eps + 1):
            for max_len in (None, 1, 2, 3, 4):
                start_mass = {}
                eps_mass = {}
                total = [Fraction(0)]

                def one(ctx):
                    buf, model = make(kind, None), Model(None)
                    i = 0
                    for e, ln in enumerate(lens):
                        for t in range(ln):
                            apply(buf, model, [("T" if t == ln - 1 else "A", 0)], i)
                            i += 1
                    with controlled(
                        ctx, uniform_grid=lambda a, b: max(1, int(round(b - a)))
                    ) as rng:
                        r = buf.sample_episodes(k, max_len)
                    if kind != "uniform":
                        r, w = r
                        rec.eq(len(w), k, "number of weights")
                    rec.begin(
                        {"kind": kind, "lens": lens, "k": k, "max_len": max_len, "c": ctx.trace}
                    )
                    rec.step()
                    rec.eq(len(r), k, "number of sampled episodes")
                    which = []
                    for sub in r:
                        sub = list(sub)
                        rec.check(len(sub) > 0, "empty sub-episode")
                        a0 = sub[0]["action"]
                        src = [
                            j for j, ep in enumerate(model.eps) if ep[0]["action"] <= a0 <= ep[-1]["action"]
                        ]
                        j = src[0]
                        ep = model.eps[j]
                        st = a0 - ep[0]["action"]
                        want = len(ep) if max_len is None else min(max_len, len(ep))
                        rec.eq(sub, ep[st : st + want], "sub-episode")
                        which.append(j)
                        start_mass[(j, st)] = start_mass.get((j, st), 0) + rng.prob
                        eps_mass[j] = eps_mass.get(j, 0) + rng.prob
                    rec.check(len(set(which)) == k, "episode sampled twice: %r" % which)
                    total[0] += rng.prob
                    rec.outcome((lens, k, max_len, tuple(which)))
                    rec.state((kind, lens, k, max_len, tuple(ctx.trace)))

                explore(one, rec)
                if total[0] == 1:
                    for j in range(n_eps):
                        if kind == "uniform":
                            rec.eq(eps_mass.get(j, 0), Fraction(k, n_eps), "episode inclusion probability")
                        ln = lens[j]
                        ns = 1 if max_len is None or ln <= max_len else ln - max_len + 1
                        for st in range(ns):
                            rec.eq(
                                start_mass.get((j, st), 0),
                                eps_mass.get(j, 0) / ns,
                                "probability that the sub-episode of an episode of length %d "
                                "(max_len %s) starts at %d" % (ln, max_len, st),
                            )


def unit_pump(rec, kind, cap, period, length):
    """Long histories: every pattern of the given period, repeated."""
    ops = [(o, e) for e in (0, 1) for o in "ATS"]
    for pat in itertools.product(ops, repeat=period):
        if all(o == "S" for o, _ in pat):
            continue
        rec.begin({"kind": kind, "cap": cap, "pattern": pat})
        buf, model = make(kind, cap), Model(cap)
        for i in range(length):
            apply(buf, model, [pat[i % period]], i)
            if i % 5 == 0 or i == length - 1:
                compare(rec, buf, model, kind)
                rec.state((kind, cap, len(model.eps), i, pat))
        rec.step(length)
        rec.outcome((pat, len(model.eps)))


def units(tier):
    q = tier == "quick"
    us = []
    for kind in ("uniform", "prioritized"):
        for cap in (None, 7, 16, 33):
            us.append(
                ("pump-%s-cap%s" % (kind, cap), unit_pump, kind, cap, 3, 60 if q else 150)
            )
    for kind in ("uniform", "prioritized"):
        x = 0 if kind == "uniform" else 1
        for cap in (None, 1, 2, 3, 4, 6):
            nm = "%s-cap%s" % (kind, cap)
            us.append(("seq1-" + nm, unit_seq, kind, cap, (0,), (9 if q else 11) - x))
            us.append(("seq2-" + nm, unit_seq, kind, cap, (0, 1), (6 if q else 7) - x))
            us.append(("seq3-" + nm, unit_seq, kind, cap, (0, "b", 7), (5 if q else 6) - x))
            us.append(("every-" + nm, unit_seq, kind, cap, (0, 1), 5 - x, True))
            us.append(("sl-" + nm, unit_saveload, kind, cap, 3 if q else 4, 3))
        us.append(("sampling-" + kind, unit_sampling, kind, 2, 4))
        us.append(("sampling3-" + kind, unit_sampling, kind, 3, 3))
    return us
