"""P03  RandomAccessQueue behaves as a bounded deque, for every operation
sequence."""
import collections
import copy
import itertools
import pickle

from mc.core import explore
from mc.rng import controlled

RULE = (
    "one case per operation sequence x maxlen x initial contents; every readable "
    "observation (len, iteration, every index in and out of range, pickle round "
    "trip) is compared after each sequence"
)
BOUNDS = {
    "quick": "all sequences up to depth 6 (5 from non-empty initial contents) of {append, extend(0/1/3 items, list or "
    "generator), popleft, q[0]=x, q[-1]=x, q[mid]=x}; maxlen None,0,1,2,3,5; initial "
    "contents of 0..4 items; every period-3 pattern repeated to length 60, maxlen None,7,16,33",
    "thorough": "depth 7 / 6",
}
OPS = ["append", "ext2", "extgen3", "ext0", "pop", "set0", "set-1", "setmid"]


def step(q, ref, op, i):
    """Apply op to both; return (real outcome, reference outcome)."""

    def do(o):
        try:
            if op == "append":
                return o.append(i)
            if op == "ext2":
                return o.extend([i, i + 100])
            if op == "extgen3":
                return o.extend(x for x in (i, i + 100, i + 200))
            if op == "ext0":
                return o.extend(())
            if op == "pop":
                return ("pop", o.popleft())
            if op == "set0":
                o[0] = i
                return None
            if op == "set-1":
                o[-1] = i
                return None
            if op == "setmid":
                j = len(o) // 2
                o[j] = i
                return None
        except IndexError:
            return "IndexError"

    a = do(q)
    b = do(ref)
    if op not in ("pop",):
        a = a if a == "IndexError" else None
        b = b if b == "IndexError" else None
    return a, b


def observe(rec, q, ref):
    want = list(ref)
    rec.eq(len(q), len(want), "len")
    rec.eq(list(q), want, "iteration order")
    rec.eq(list(iter(q)), want, "iteration order (second pass)")
    n = len(want)
    for j in range(-n - 2, n + 3):
        try:
            w = want[j]
        except IndexError:
            w = "IndexError"
        try:
            g = q[j]
        except IndexError:
            g = "IndexError"
        rec.eq(g, w, "element at index %d of %d" % (j, n))


def unit(rec, maxlen, init, depth, every):
    from pfrl.collections.random_access_queue import RandomAccessQueue

    for d in range(0, depth + 1):
        if every and d < depth:
            continue
        for seq in itertools.product(OPS, repeat=d):
            rec.begin({"maxlen": maxlen, "init": init, "seq": seq})
            vals = ["i%d" % k for k in range(init)]
            q = RandomAccessQueue(vals, maxlen=maxlen) if init else RandomAccessQueue(maxlen=maxlen)
            ref = collections.deque(vals, maxlen=maxlen)
            for i, op in enumerate(seq):
                a, b = step(q, ref, op, i)
                rec.eq(a, b, "result of %s" % op)
                if every:
                    observe(rec, q, ref)
            rec.step(len(seq))
            observe(rec, q, ref)
            rec.state((maxlen, tuple(ref)))
            rec.outcome((maxlen, tuple(ref)))


def unit_pickle(rec, maxlen, depth, tail):
    from pfrl.collections.random_access_queue import RandomAccessQueue

    for seq in itertools.product(OPS[:5], repeat=depth):
        q = RandomAccessQueue(maxlen=maxlen)
        ref = collections.deque(maxlen=maxlen)
        for i, op in enumerate(seq):
            step(q, ref, op, i)
        blob = pickle.dumps(q)
        for tl in itertools.product(OPS[:5], repeat=tail):
            rec.begin({"maxlen": maxlen, "seq": seq, "tail": tl, "pickle": 1})
            q2 = pickle.loads(blob)
            r2 = copy.copy(ref)
            observe(rec, q2, r2)
            for i, op in enumerate(tl):
                a, b = step(q2, r2, op, 1000 + i)
                rec.eq(a, b, "result of %s" % op)
            observe(rec, q2, r2)
            rec.step(depth + tail)
            rec.state(("p", maxlen, tuple(r2)))


def unit_sample(rec, maxlen, depth):
    """sample(k) under every RNG outcome from every shape of the two internal
    halves: k distinct positions."""
    from pfrl.collections.random_access_queue import RandomAccessQueue

    for seq in itertools.product(["append", "ext2", "pop"], repeat=depth):
        q = RandomAccessQueue(maxlen=maxlen)
        ref = collections.deque(maxlen=maxlen)
        for i, op in enumerate(seq):
            step(q, ref, op, i)
        n = len(ref)
        for k in range(0, min(n, 3) + 1):
            if 3 * k < n and n ** (2 * k) > 1500:
                continue

            def one(ctx):
                with controlled(ctx):
                    cnt = [0]
                    orig = ctx.choose

                    def choose(m, label=None, cost=0):
                        cnt[0] += 1
                        if cnt[0] > 3 * k + 2:
                            from mc.core import PathPruned

                            raise PathPruned()
                        return orig(m, label, cost)

                    ctx.choose = choose
                    got = q.sample(k)
                rec.begin({"maxlen": maxlen, "seq": seq, "k": k, "c": ctx.trace})
                rec.step()
                rec.eq(len(got), k, "sample size")
                rec.check(
                    len(set(got)) == k and set(got) <= set(ref),
                    "sample %r of %r" % (got, list(ref)),
                )
                rec.outcome(("s", n, tuple(got)))

            explore(one, rec)
            rec.eq(list(q), list(ref), "contents after sampling")


def unit_pump(rec, maxlen, period, length):
    from pfrl.collections.random_access_queue import RandomAccessQueue

    for pat in itertools.product(OPS[:6], repeat=period):
        rec.begin({"maxlen": maxlen, "pattern": pat})
        q = RandomAccessQueue(maxlen=maxlen)
        ref = collections.deque(maxlen=maxlen)
        for i in range(length):
            a, b = step(q, ref, pat[i % period], i)
            rec.eq(a, b, "result")
            if i % 5 == 0 or i == length - 1:
                observe(rec, q, ref)
                rec.state((maxlen, tuple(ref)))
        rec.step(length)


def units(tier):
    q = tier == "quick"
    us = []
    for maxlen in (None, 7, 16, 33):
        us.append(("pump-max%s" % maxlen, unit_pump, maxlen, 3 if q else 4, 60 if q else 100))
    for maxlen in (None, 0, 1, 2, 3, 5):
        for init in (0, 2, 4):
            us.append(
                ("seq-max%s-init%d" % (maxlen, init), unit, maxlen, init, (5 if init else 6) if q else (6 if init else 7), False)
            )
        us.append(("every-max%s" % maxlen, unit, maxlen, 1, 5, True))
        us.append(("pickle-max%s" % maxlen, unit_pickle, maxlen, 4, 3 if q else 4))
        us.append(("sample-max%s" % maxlen, unit_sample, maxlen, 4 if q else 5))
    return us
