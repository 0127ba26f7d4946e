"""P04  prioritized sampling.

PrioritizedBuffer / PrioritizedReplayBuffer: every operation sequence of
append (default or explicit priority), popleft, sample (every RNG outcome),
set priorities (before or after further appends), against a list of
(value, priority) pairs.  Priorities are small integers, so partitioning the
uniform draw into `total` equal strata decides the sampling distribution
exactly.
"""
import itertools
import os
from fractions import Fraction

from mc.core import PathPruned, explore
from mc.rng import controlled

RULE = (
    "one case per operation sequence with all RNG outcomes as choice points; "
    "distinct outcomes = distinct (contents, priorities) reached; at the end of "
    "each sequence the exact distribution of the next draw is computed"
)
BOUNDS = {
    "quick": "all sequences of 4 operations of {append default, append prio 1, append "
    "prio 2, popleft, sample 1..3 then re-prioritise with every assignment from {1,3}, "
    "sample, 1..2 appends, re-prioritise}, capacity None,1,2,3,4; "
    "wait_priority_after_sampling both; uniform_ratio 0, 1/4, 1; final distribution "
    "exact over all strata; pump: period-2 patterns to length 70",
    "thorough": "5 operations for capacity 1,2, period-3 patterns",
}


class Strata(object):
    """Number of equal strata that decide a draw exactly, with integer
    priorities: one per unit of the range if the code draws from [0, total);
    if it draws from [0, 1) and scales, one per unit of the total that is left
    (`exact`: a common multiple of the totals that may be left)."""

    def __init__(self, model, exact=False):
        self.ps = [p for _, p in model.items]
        self.exact = exact
        self.unit = None
        self.n = 0

    def __call__(self, low, high):
        import math

        w = high - low
        tot = int(sum(self.ps))
        self.n += 1
        if self.unit is None:
            self.unit = abs(w - 1.0) < 1e-9 and tot > 1
        if not self.unit:
            return max(1, int(round(w)))
        if not self.exact:
            # enough to reach every item that is left
            ps = sorted(self.ps)
            left = sum(ps[self.n - 1 :]) or 1
            return int(math.ceil(left / ps[0] - 1e-9)) or 1
        if self.n == 1:
            return tot
        left = set(int(tot - sum(c)) for c in itertools.combinations(self.ps, self.n - 1))
        return math.lcm(*[x for x in left if x > 0] or [1])


class Model(object):
    def __init__(self, capacity, initmax):
        self.capacity = capacity
        self.items = []  # [value, priority]
        self.max = initmax

    def append(self, v, p=None):
        if self.capacity is not None and len(self.items) == self.capacity:
            self.items.pop(0)
        self.items.append([v, self.max if p is None else p])

    def set(self, vals, ps):
        d = {i[0]: i for i in self.items}
        for v, p in zip(vals, ps):
            if v in d:
                d[v][1] = p
            self.max = max(self.max, p)

    def total(self):
        return sum(p for _, p in self.items)


def check_sample(rec, model, got, probs, min_prob, k, u, where=""):
    vals = [v for v, _ in model.items]
    rec.eq(len(got), k, "sample size" + where)
    rec.check(
        len(set(got)) == k, "sample returned an item twice: %r of %r%s" % (got, vals, where)
    )
    d = dict((v, p) for v, p in model.items)
    n = len(vals)
    for g, pr in zip(got, probs):
        rec.check(g in d, "sampled an item that is not stored: %r%s" % (g, where))
        want = u / n + (1 - u) * d[g] / model.total()
        rec.check(
            abs(pr - want) < 1e-9,
            "probability reported for item %r with priority %s of %s is %s, not %s%s"
            % (g, d[g], [p for _, p in model.items], pr, want, where),
        )
    wmin = u / n + (1 - u) * min(d.values()) / model.total()
    rec.check(
        abs(min_prob - wmin) < 1e-9,
        "minimum probability %s, expected %s%s" % (min_prob, wmin, where),
    )


def final_distribution(rec, make, model, k=1):
    """Exact distribution of the next sample(k) of a buffer in this state."""
    n = len(model.items)
    if n < k:
        return
    tot = model.total()
    mass = {}
    tm = [Fraction(0)]

    def one(ctx):
        buf = make()
        with controlled(ctx, uniform_grid=Strata(model, True), grid=60) as rng:
            got, probs, mp = buf.sample(k)
        check_sample(rec, model, got, probs, mp, k, 0, " (next draw)")
        mass[tuple(got)] = mass.get(tuple(got), 0) + rng.prob
        tm[0] += rng.prob

    explore(one, rec)
    rec.step(len(mass))
    d = dict((v, p) for v, p in model.items)
    for seq in itertools.permutations(d, k):
        want = Fraction(1)
        rest = Fraction(tot)
        for v in seq:
            want *= Fraction(d[v]) / rest
            rest -= d[v]
        got = mass.get(seq, Fraction(0))
        rec.check(
            abs(float(got) - float(want)) < 1e-6,
            "probability of drawing %r with priorities %s is %s, expected %s"
            % (seq, d, float(got), float(want)),
        )


def unit_pb(rec, capacity, wait, u, depth, first):
    """PrioritizedBuffer itself."""
    from pfrl.collections.prioritized import PrioritizedBuffer

    script_log = {}

    def run(ctx, record=True):
        buf = PrioritizedBuffer(
            capacity=capacity, wait_priority_after_sampling=wait, initial_max_priority=2
        )
        model = Model(capacity, 2)
        nid = 0
        log = []
        for i in range(depth):
            n = len(model.items)
            ops = ["A", "A1", "A2"] + (["P"] if n else [])
            for k in range(1, min(n, 3) + 1):
                ops.append("S%d" % k)
                if k <= 2:
                    ops.append("X%d" % k)  # sample, append(s), set
            op = ctx.pick(ops, "op")
            log.append(op)
            if op[0] == "A":
                p = None if op == "A" else int(op[1])
                buf.append("v%d" % nid, priority=p)
                model.append("v%d" % nid, p)
                nid += 1
            elif op == "P":
                g = buf.popleft()
                rec.eq(g, model.items.pop(0)[0], "popleft")
            else:
                k = int(op[1])
                with controlled(ctx, uniform_grid=Strata(model), grid=60):
                    got, probs, mp = buf.sample(k, uniform_ratio=u)
                check_sample(rec, model, got, probs, mp, k, u)
                if op[0] == "X":
                    for _ in range(ctx.choose(2, "n-app") + 1):
                        buf.append("v%d" % nid)
                        model.append("v%d" % nid)
                        nid += 1
                ps = [ctx.pick([3, 1], "prio") for _ in range(k)]
                log.append(tuple(ps))
                buf.set_last_priority(ps)
                model.set(got, ps)
            rec.step()
            rec.eq(len(buf), len(model.items), "len")
        rec.begin({"cap": capacity, "wait": wait, "u": u, "ops": log, "c": ctx.trace})
        st = (capacity, wait, tuple(p for _, p in model.items), model.max)
        rec.state(st)
        rec.outcome(st)
        return buf, model, st

    done = set()

    def top(ctx):
        buf, model, st = run(ctx)
        if model.items and not ctx_has(done, st, rec):
            # exact distribution from (a copy of) this state
            import copy

            final_distribution(rec, lambda: copy.deepcopy(buf), model, 1)
            if len(model.items) >= 2 and model.total() <= 9:
                final_distribution(rec, lambda: copy.deepcopy(buf), model, 2)

    # distribution is computed for every sequence whose abstract state is new
    # *per last operation*; the cheap checks run on all of them
    seen = {}

    def ctx_has(done, st, rec):
        c = seen.get(st, 0)
        seen[st] = c + 1
        return c >= 6

    explore(top, rec, first=first)


def unit_prb(rec, num_steps, normalize, betasteps, depth, capacity):
    """PrioritizedReplayBuffer: importance weights, beta annealing, priorities
    from errors, save/load keeps priorities."""
    from pfrl.replay_buffers import PrioritizedReplayBuffer

    beta0 = 0.5

    def make():
        return PrioritizedReplayBuffer(
            capacity=capacity,
            alpha=1.0,
            beta0=beta0,
            betasteps=betasteps,
            eps=1,
            normalize_by_max=normalize,
            error_min=0,
            error_max=2,
            num_steps=num_steps,
        )

    path = os.path.join(rec.scratch, "p.pkl")

    def one(ctx):
        buf = make()
        model = Model(capacity, 1)
        beta = beta0
        nid = 0
        pend = []
        log = []
        for i in range(depth):
            n = len(model.items)
            ops = ["A"] + ["S%d" % k for k in range(1, min(n, 2) + 1)] + (["L"] if i else [])
            op = ctx.pick(ops, "op")
            log.append(op)
            if op == "A":
                buf.append(state=nid, action=nid, reward=0.0, next_state=nid + 1)
                pend.append(nid)
                nid += 1
                if len(pend) == num_steps:
                    model.append(pend.pop(0))
            elif op == "L":
                buf.save(path)
                b2 = make()
                b2.load(path)
                # (neither the annealed beta nor incomplete n-step windows are
                # part of the saved experiences)
                beta = beta0
                pend = []
                buf = b2
            else:
                k = int(op[1])
                with controlled(ctx, uniform_grid=Strata(model), grid=60):
                    got = buf.sample(k)
                ids = [e[0]["state"] for e in got]
                d = dict(model.items)
                rec.check(len(set(ids)) == k and set(ids) <= set(d), "bad sample %r" % ids)
                tot = model.total()
                pr = [d[j] / tot for j in ids]
                if normalize in (True, "batch"):
                    w = [(p / min(pr)) ** -beta for p in pr]
                elif normalize == "memory":
                    mn = min(d.values()) / tot
                    w = [(p / mn) ** -beta for p in pr]
                else:
                    w = [(len(d) * p) ** -beta for p in pr]
                for e, ww in zip(got, w):
                    rec.check(
                        abs(e[0]["weight"] - ww) < 1e-9,
                        "importance weight %s, expected %s" % (e[0]["weight"], ww),
                    )
                if betasteps:
                    beta = min(1.0, beta + (1 - beta0) / betasteps)
                errs = [ctx.pick([0.0, 5.0, 1.0], "err") for _ in range(k)]
                log.append(errs)
                buf.update_errors(errs)
                model.set(ids, [min(2, max(0, x)) + 1 for x in errs])
            rec.step()
        rec.begin({"n": num_steps, "norm": normalize, "ops": log, "c": ctx.trace})
        st = tuple(p for _, p in model.items)
        rec.state((num_steps, normalize, betasteps, st, beta))
        rec.outcome(st)
        if model.items:
            # exact next-draw distribution from this very state
            import copy

            mass = {}

            def nxt(c2):
                b = copy.deepcopy(buf)
                with controlled(c2, uniform_grid=Strata(model, True), grid=60) as rng:
                    e = b.sample(1)
                j = e[0][0]["state"]
                mass[j] = mass.get(j, 0) + rng.prob

            if st not in seen or seen[st] < 3:
                seen[st] = seen.get(st, 0) + 1
                explore(nxt, rec)
                tot = model.total()
                for j, p in model.items:
                    rec.check(
                        abs(float(mass.get(j, 0)) - p / tot) < 1e-6,
                        "probability of drawing item with priority %s of %s is %s"
                        % (p, st, float(mass.get(j, 0))),
                    )

    seen = {}
    explore(one, rec)


def unit_float(rec, n, prios, edges):
    """Non-integer priorities and draws at both ends of the interval: the
    sampled items are distinct and stored, whatever is drawn."""
    from pfrl.collections.prioritized import PrioritizedBuffer

    for combo in itertools.product(prios, repeat=n):
        for pops in range(0, 2):
            if n - pops < 1:
                continue

            def one(ctx):
                b = PrioritizedBuffer()
                m = Model(None, 1)
                for i, p in enumerate(combo):
                    b.append(i, priority=p)
                    m.append(i, p)
                for _ in range(pops):
                    b.popleft()
                    m.items.pop(0)
                k = len(m.items)
                with controlled(ctx, grid=2, edges=True):
                    got, probs, mp = b.sample(k)
                rec.begin({"prios": combo, "pops": pops, "c": ctx.trace})
                rec.step()
                check_sample(rec, m, got, probs, mp, k, 0)
                b.set_last_priority([1.0] * k)
                rec.state((combo, tuple(got)))
                rec.outcome(tuple(got))

            explore(one, rec)


def unit_pump(rec, capacity, period, length):
    """Long histories (many tree rotations): patterns of appends, pops and
    sample/re-prioritise, with deterministic draws, checked every few steps by
    the exact distribution of the next draw."""
    import copy

    from pfrl.collections.prioritized import PrioritizedBuffer

    OPS = ["A", "A1", "P", "S1", "S2"]
    for pat in itertools.product(OPS, repeat=period):
        if pat.count("A") + pat.count("A1") <= pat.count("P"):
            continue
        rec.begin({"cap": capacity, "pattern": pat})
        b = PrioritizedBuffer(capacity=capacity, initial_max_priority=2)
        m = Model(capacity, 2)
        nid = 0
        for i in range(length):
            op = pat[i % period]
            if op[0] == "A":
                p = None if op == "A" else 1
                b.append(nid, priority=p)
                m.append(nid, p)
                nid += 1
            elif op == "P":
                if m.items:
                    rec.eq(b.popleft(), m.items.pop(0)[0], "popleft")
            else:
                k = int(op[1])
                if len(m.items) >= k:
                    got, probs, mp = b.sample(k)
                    check_sample(rec, m, got, probs, mp, k, 0)
                    ps = [1 + (i + j) % 3 for j in range(k)]
                    b.set_last_priority(ps)
                    m.set(got, ps)
            rec.step()
            rec.eq(len(b), len(m.items), "len")
            if i == length - 1 or i == length // 2:
                if m.items:
                    final_distribution(rec, lambda: copy.deepcopy(b), m, 1)
                rec.state((capacity, tuple(p for _, p in m.items)))
                rec.outcome((pat, i))


def unit_weights(rec, alpha, period, length):
    """Long histories of sampling: importance weights and the annealing of beta
    over every combination of the parameters (periodic patterns)."""
    from pfrl.replay_buffers import PrioritizedReplayBuffer

    grid = itertools.product(
        (0.0, 0.4, 1.0), (None, 1, 2, 2.5, 4), (0.01, 1.0), (True, "batch", "memory", False), (None, 0.2), (None, 1.0)
    )
    for beta0, steps, eps, norm, emin, emax in grid:
        for pat in itertools.product(("A", "S1", "S2"), repeat=period):
            if "A" not in pat or pat == ("A",) * period:
                continue
            rec.begin({"alpha": alpha, "beta": (beta0, steps), "eps": eps, "norm": norm, "clip": (emin, emax), "pattern": pat})
            buf = PrioritizedReplayBuffer(
                4, alpha=alpha, beta0=beta0, betasteps=steps, eps=eps, normalize_by_max=norm, error_min=emin, error_max=emax
            )
            model = Model(4, 1)
            nid = nsamp = 0
            for i in range(length):
                op = pat[i % period]
                if op == "A":
                    buf.append(state=nid, action=0, reward=0.0, next_state=nid + 1)
                    model.append(nid)
                    nid += 1
                elif len(model.items) >= int(op[1]):
                    k = int(op[1])
                    got = buf.sample(k)
                    ids = [e[0]["state"] for e in got]
                    d = dict(model.items)
                    rec.check(len(set(ids)) == k and set(ids) <= set(d), "bad sample %r" % ids)
                    beta = beta0 if steps is None else min(1.0, beta0 + nsamp * (1 - beta0) / steps)
                    tot = model.total()
                    pr = [d[j] / tot for j in ids]
                    base = min(pr) if norm in (True, "batch") else min(d.values()) / tot if norm == "memory" else 1.0 / len(d)
                    for e, p in zip(got, pr):
                        w = (p / base) ** -beta
                        rec.check(abs(e[0]["weight"] - w) < 1e-6 * max(1, w), "importance weight %s, expected %s" % (e[0]["weight"], w))
                    nsamp += 1
                    errs = [(0.0, 0.3, 5.0, 0.1, 0.9)[(i * 2 + j) % 5] for j in range(k)]
                    buf.update_errors(errs)
                    cl = lambda x: min(emax if emax is not None else 9e9, max(emin if emin is not None else -9e9, x))
                    model.set(ids, [(cl(x) + eps) ** alpha for x in errs])
                rec.step()
            rec.state((alpha, beta0, steps, eps, norm, emin, emax, pat))
            rec.outcome((alpha, tuple(round(p, 6) for _, p in model.items)))


def units(tier):
    q = tier == "quick"
    us = []
    d = 4
    for cap in (None, 1, 2, 3, 4):
        for first in range(2):
            for second in range(3):
                us.append(("pb-cap%s-%d%d" % (cap, first, second), unit_pb, cap, True, 0, d + (not q and cap in (1, 2)), (first, second)))
        us.append(("pbnw-cap%s" % cap, unit_pb, cap, False, 0, d - 1, (0,)))
        us.append(("pbu-cap%s" % cap, unit_pb, cap, True, 0.25, d - 1, (1,)))
        us.append(("pbu1-cap%s" % cap, unit_pb, cap, True, 1, d - 1, (1,)))
        us.append(("pbnwu-cap%s" % cap, unit_pb, cap, False, 0.25, d - 1, (1,)))
    for n in (1, 2):
        for norm in (True, "memory", False):
            for bs in (None, 2):
                for cap in (None, 3):
                    us.append(
                        ("prb-n%d-%s-%s-cap%s" % (n, norm, bs, cap), unit_prb, n, norm, bs, d + (n - 1) + (0 if q else 1), cap)
                    )
    for alpha in (0.0, 0.6, 2.0):
        us.append(("weights-%s" % alpha, unit_weights, alpha, 2 if q else 3, 14))
    us.append(("float-2", unit_float, 2, (0.1, 0.7, 1e-8, 1e6, 3.0), True))
    us.append(("float-3", unit_float, 3, (0.1, 0.7, 1e-8, 3.0), True))
    us.append(("float-4", unit_float, 4, (0.1, 0.7), True))
    for cap in (None, 5, 8, 13, 32):
        us.append(("pump-cap%s" % cap, unit_pump, cap, 2 if q else 3, 70))
    return us
