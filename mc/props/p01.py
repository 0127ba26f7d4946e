"""P01  n-step replay buffer content.

Alphabet: append non-terminal / append terminal / stop_current_episode for
each of up to 3 env ids.  Every operation sequence up to the depth bound, for
num_steps x capacity, on the real ReplayBuffer and PrioritizedReplayBuffer,
against a list-based reference model.
"""
import itertools
import os

import numpy as np

from mc.core import explore
from mc.rng import controlled

RULE = (
    "one case per operation sequence x configuration; a case is non-trivial if "
    "the buffer is non-empty at its end (distinct outcomes = distinct contents)"
)
BOUNDS = {
    "quick": "all sequences of {append, append-terminal, stop} x 2 env ids up to "
    "depth 6 (3 env ids up to depth 5; single env up to depth 9; one to two less for the prioritized buffer), num_steps 1..4, "
    "capacity None,1,2,3,5; every period-2 pattern repeated to length 80 with capacity None,7,16,33; sampling: every RNG outcome for sizes <= 7",
    "thorough": "as quick with depth 7 for 2 env ids, 6 for 3 env ids, 11 for one",
}


def payload(i, env, terminal, t):
    return dict(
        state=("s", env, i),
        action=i,
        reward=0.5 + i,
        next_state=("n", env, i),
        next_action=None if i % 3 == 0 else ("na", i),
        is_state_terminal=terminal,
        extra=("x", i),
    )


class Model(object):
    def __init__(self, capacity, num_steps):
        self.capacity, self.n = capacity, num_steps
        self.pending = {}
        self.mem = []

    def _add(self, e):
        self.mem.append(e)
        if self.capacity is not None:
            self.mem = self.mem[len(self.mem) - min(len(self.mem), self.capacity) :]

    def append(self, env, tr):
        p = self.pending.setdefault(env, [])
        p.append(tr)
        if len(p) == self.n:
            self._add(list(p))
            p.pop(0)
        if tr["is_state_terminal"]:
            self._flush(env)

    def _flush(self, env):
        p = self.pending.setdefault(env, [])
        while p:
            self._add(list(p))
            p.pop(0)

    def stop(self, env):
        self._flush(env)


def strip(e):
    return [{k: v for k, v in t.items() if k != "weight"} for t in e]


def canon(exps):
    return sorted(
        (tuple(tuple(sorted((k, repr(v)) for k, v in t.items())) for t in e))
        for e in exps
    )


def contents(buf, prioritized):
    n = len(buf)
    if n == 0:
        return []
    got = buf.sample(n)
    if prioritized:
        buf.update_errors([0.5] * n)
    return [strip(e) for e in got]


def make(kind, capacity, num_steps):
    from pfrl import replay_buffers as rbs

    if kind == "uniform":
        return rbs.ReplayBuffer(capacity=capacity, num_steps=num_steps)
    return rbs.PrioritizedReplayBuffer(capacity=capacity, num_steps=num_steps)


def apply(buf, model, seq, start=0):
    for i, (op, env) in enumerate(seq):
        i = i + start
        if op == "S":
            buf.stop_current_episode(env_id=env)
            model.stop(env)
        else:
            tr = payload(i, env, op == "T", i)
            buf.append(env_id=env, **tr)
            model.append(env, tr)


def sequences(depth, envs):
    ops = [(o, e) for e in envs for o in "ATS"]
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            # symmetry: env ids are interchangeable; first use in order
            seen = []
            ok = True
            for _, e in seq:
                if e not in seen:
                    if e != envs[len(seen)]:
                        ok = False
                        break
                    seen.append(e)
            if ok:
                yield seq


def unit_seq(rec, kind, num_steps, capacity, envs, depth):
    prio = kind == "prioritized"
    for seq in sequences(depth, envs):
        rec.begin({"kind": kind, "n": num_steps, "cap": capacity, "seq": seq})
        buf, model = make(kind, capacity, num_steps), Model(capacity, num_steps)
        apply(buf, model, seq)
        rec.step(len(seq))
        rec.eq(len(buf), len(model.mem), "len(buffer)")
        got = canon(contents(buf, prio))
        want = canon(model.mem)
        rec.eq(got, want, "stored experiences")
        rec.state((kind, num_steps, capacity, want, sorted(model.pending.items(), key=repr)))
        rec.outcome(want)


def unit_sampled(rec, kind, num_steps, capacity, envs, depth):
    """Reading (sample) between the operations must not disturb anything."""
    prio = kind == "prioritized"
    for seq in itertools.product([(o, e) for e in envs for o in "ATS"], repeat=depth):
        rec.begin({"kind": kind, "n": num_steps, "cap": capacity, "seq": seq, "r": 1})
        buf, model = make(kind, capacity, num_steps), Model(capacity, num_steps)
        for i, op in enumerate(seq):
            apply(buf, model, [op], start=i)
            rec.step()
            rec.eq(len(buf), len(model.mem), "len(buffer)")
            rec.eq(canon(contents(buf, prio)), canon(model.mem), "stored experiences")
        rec.outcome(canon(model.mem))


def unit_saveload(rec, kind, num_steps, capacity, depth, tail):
    prio = kind == "prioritized"
    path = os.path.join(rec.scratch, "rb.pkl")
    ops = [(o, e) for e in (0, 1) for o in "ATS"]
    tails = list(itertools.product(ops[:3], repeat=tail))
    for seq in sequences(depth, (0, 1)):
        buf, model = make(kind, capacity, num_steps), Model(capacity, num_steps)
        apply(buf, model, seq)
        buf.save(path)
        rec.eq(canon(contents(buf, prio)), canon(model.mem), "contents after save")
        for tl in tails:
            rec.begin(
                {"kind": kind, "n": num_steps, "cap": capacity, "seq": seq, "tail": tl}
            )
            b2 = make(kind, capacity, num_steps)
            b2.load(path)
            m2 = Model(capacity, num_steps)
            m2.mem = list(model.mem)
            rec.eq(len(b2), len(m2.mem), "len after load")
            rec.eq(canon(contents(b2, prio)), canon(m2.mem), "contents after load")
            apply(b2, m2, tl, start=100)
            rec.eq(len(b2), len(m2.mem), "len after load and more operations")
            rec.eq(
                canon(contents(b2, prio)),
                canon(m2.mem),
                "contents after load and more operations",
            )
            rec.step(len(seq) + len(tl))
            rec.outcome(canon(m2.mem))
            rec.state(("sl", kind, num_steps, capacity, canon(m2.mem)))


def unit_sampling(rec, kind, max_len):
    """Every RNG outcome of sample(k): k distinct stored experiences; each
    experience equally likely for the uniform buffer."""
    from fractions import Fraction

    prio = kind == "prioritized"
    for n in range(1, max_len + 1):
        for k in range(1 if prio else 0, n + 1):
            import math

            if math.perm(n, k) > 6000 or (3 * k < n and n ** (2 * k) > 6000):
                continue
            mass = {}
            total = [Fraction(0)]

            def one(ctx):
                buf = make(kind, None, 1)
                for i in range(n):
                    buf.append(**payload(i, 0, False, i))
                with controlled(ctx, grid=4, uniform_grid=lambda a, b: max(1, int(round(b - a)))) as rng:
                    if rng.n_draws > 40:
                        raise AssertionError
                    got = buf.sample(k)
                ids = [e[0]["action"] for e in got]
                rec.begin({"sampling": kind, "n": n, "k": k, "choices": ctx.trace})
                rec.step()
                rec.check(len(got) == k, "sample(%d) returned %d items" % (k, len(got)))
                rec.check(
                    len(set(ids)) == k, "sample(%d) of %d returned duplicates %r" % (k, n, ids)
                )
                for e in got:
                    rec.eq(strip(e), [payload(e[0]["action"], 0, False, 0)], "sampled item")
                rec.outcome((n, k, tuple(ids)))
                rec.state((kind, n, k, tuple(ids)))
                total[0] += rng.prob
                for i in ids:
                    mass[i] = mass.get(i, Fraction(0)) + rng.prob

            # sample_n_k may redraw: bound the number of redraws
            def bounded(ctx):
                from mc.core import PathPruned

                lim = 2 * k + k
                orig = ctx.choose
                cnt = [0]

                def choose(m, label=None, cost=0):
                    cnt[0] += 1
                    if cnt[0] > max(lim, 8):
                        raise PathPruned()
                    return orig(m, label, cost)

                ctx.choose = choose
                one(ctx)

            explore(bounded, rec)
            if k and not prio:
                miss = 1 - total[0]
                for i in range(n):
                    p = mass.get(i, Fraction(0))
                    rec.check(
                        abs(p - Fraction(k, n)) <= miss + Fraction(1, 10**9),
                        "inclusion probability of item %d in sample(%d) of %d is %s"
                        % (i, k, n, float(p)),
                    )


def unit_pump(rec, kind, num_steps, capacity, period, length):
    """Long histories: every pattern of the given period, repeated."""
    prio = kind == "prioritized"
    ops = [(o, e) for e in (0, 1) for o in "ATS"]
    for pat in itertools.product(ops, repeat=period):
        if all(o == "S" for o, _ in pat):
            continue
        rec.begin({"kind": kind, "n": num_steps, "cap": capacity, "pattern": pat})
        buf, model = make(kind, capacity, num_steps), Model(capacity, num_steps)
        for i in range(length):
            apply(buf, model, [pat[i % period]], start=i)
            rec.eq(len(buf), len(model.mem), "len(buffer)")
            if i % 7 == 0 or i == length - 1:
                rec.eq(canon(contents(buf, prio)), canon(model.mem), "stored experiences")
                rec.state((kind, num_steps, capacity, len(model.mem), i, pat))
        rec.step(length)
        rec.outcome((pat, len(model.mem)))


def units(tier):
    q = tier == "quick"
    us = []
    for kind in ("uniform", "prioritized"):
        for n in (1, 3, 5):
            for cap in (None, 7, 16, 33):
                us.append(
                    ("pump-%s-n%d-cap%s" % (kind, n, cap), unit_pump, kind, n, cap, 2 if q else 3, 80 if q else 150)
                )
    for kind in ("uniform", "prioritized"):
        for n in (1, 2, 3, 4):
            for cap in (None, 1, 2, 3, 5):
                if kind == "prioritized" and (n == 4 or cap in (1, 5)):
                    continue
                d2 = 6 if q else 7
                d1 = 9 if q else 11
                d3 = 5 if q else 6
                if kind == "prioritized":
                    d2, d1, d3 = d2 - 1, d1 - 2, d3 - 1
                nm = "%s-n%d-cap%s" % (kind, n, cap)
                us.append(("seq2-" + nm, unit_seq, kind, n, cap, (0, 1), d2))
                us.append(("seq1-" + nm, unit_seq, kind, n, cap, (0,), d1))
                us.append(("seq3-" + nm, unit_seq, kind, n, cap, (0, "b", 7), d3))
                us.append(("smp-" + nm, unit_sampled, kind, n, cap, (0, 1), 4))
                if n <= 3:
                    us.append(("sl-" + nm, unit_saveload, kind, n, cap, 3 if q else 4, 2))
        us.append(("sampling-" + kind, unit_sampling, kind, 7 if kind == "uniform" else 5))
    # long units first
    us.sort(key=lambda u: -(u[-1] if isinstance(u[-1], int) else 0))
    return us
