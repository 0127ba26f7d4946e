"""P05  persistent replay buffers survive a crash at any point.

Histories of operations on the real PersistentRandomAccessQueue /
PersistentReplayBuffer; the process may be killed at every file-system effect
(and in the middle of every write); each resulting directory is reopened with
the real code and compared with the log of acknowledged operations.
"""
import itertools
import os
import shutil

from mc.fsim import CrashRecorder, read_tree, write_tree

RULE = (
    "one case per (history, crash point) or per history (no crash); non-trivial "
    "outcomes = distinct recovered contents"
)
BOUNDS = {
    "quick": "queue: all histories of 3 (4 for maxlen None, 2) operations with crashes, 4 without, of {append small, append large, "
    "extend 2 (list / generator), popleft, reopen}, chunk size 1 byte / 40 bytes / "
    "default, maxlen None,1,2,3, every crash point with torn writes, then reopen, append, "
    "reopen (and every crash point of that recovery for a sub-family); lineages of up "
    "to 3 generations with 0..5 items each; every period-2 pattern repeated to 40 operations; all histories of 8 {append, reopen} operations; replay buffer: histories of 4 operations",
    "thorough": "histories of 4 operations with crashes, 5 without, 10 of {append, reopen}",
}
ASSUMPTIONS = [
    "a crash is a process kill: bytes handed to the kernel before the kill survive "
    "(no power loss), a write may be torn at any byte (first, middle, last-but-one tried)",
    "one process uses a directory at a time",
]


def val(i, big=False):
    return ("v%d" % i, "x" * (60 if big else 0))


def queue_cls(chunk):
    from pfrl.collections.persistent_collections import PersistentRandomAccessQueue as Q

    if chunk is None:
        return Q
    return type("SmallChunkQueue", (Q,), {"chunk_size": property(lambda self: chunk)})


def tail(log, maxlen):
    return list(log) if maxlen is None else list(log)[-maxlen:]


def same(rec, q, want, what):
    rec.eq(list(q), want, what)
    rec.eq(len(q), len(want), what + " (len)")
    for i in range(len(want)):
        rec.eq(q[i], want[i], what + " [%d]" % i)
        rec.eq(q[-1 - i], want[-1 - i], what + " [-%d]" % (i + 1))
    rec.eq(sorted(q.sample(len(want))), sorted(want), what + " (sample)")


def run_history(rec, Q, d, maxlen, hist, start=0, cr=None, log0=()):
    """Returns (log, marks) ; cr.mark = (acknowledged, attempted) counts."""
    log = list(log0)

    def mark(ack, att):
        if cr is not None:
            cr.mark = (ack, att)

    mark(len(log), len(log))
    q = Q(d, maxlen)
    mem = tail(log, maxlen)
    i = start
    for op in hist:
        if op in ("a", "b"):
            v = val(i, op == "b")
            i += 1
            mark(len(log), len(log) + 1)
            log.append(v)
            q.append(v)
            mem = tail(mem + [v], maxlen)
        elif op in ("e", "g"):
            vs = [val(i), val(i + 1)]
            i += 2
            mark(len(log), len(log) + 2)
            log += vs
            q.extend(vs if op == "e" else (x for x in vs))
            mem = tail(mem + vs, maxlen)
        elif op == "p":
            if not mem:
                try:
                    q.popleft()
                except IndexError:
                    pass
                else:
                    rec.fail("popleft from an empty queue did not raise")
            else:
                g = q.popleft()
                rec.eq(g, mem.pop(0), "popleft")
        elif op == "r":
            q.close()
            q = Q(d, maxlen)
            mem = tail(log, maxlen)
        elif op == "k":  # abandon without close
            q = Q(d, maxlen)
            mem = tail(log, maxlen)
        mark(len(log), len(log))
        if cr is None:
            same(rec, q, mem, "contents after %s" % op)
        rec.step()
    return q, log


def check_recovery(rec, Q, d2, maxlen, log, ack, att, more=True):
    q = Q(d2, maxlen)
    got = list(q)
    ok = [tail(log[:n], maxlen) for n in range(ack, att + 1)]
    rec.check(
        got in ok,
        "after the crash the queue contains %r; acknowledged %r, attempted %r"
        % (got, tail(log[:ack], maxlen), tail(log[:att], maxlen)),
    )
    n = ack + ok.index(got)
    # several candidates may coincide only if values repeat; they do not
    base = list(log[:n])
    same(rec, q, got, "recovered contents")
    if more:
        q.append(val(900))
        q.append(val(901))
        want = tail(base + [val(900), val(901)], maxlen)
        same(rec, q, want, "contents after recovery and append")
        q.close()
        q = Q(d2, maxlen)
        same(rec, q, want, "contents after recovery, append and reopen")
    q.close()
    return base


def unit_crash(rec, chunk, maxlen, ops, depth, firsts, second=False):
    Q = queue_cls(chunk)
    d = os.path.join(rec.scratch, "d")
    d2 = os.path.join(rec.scratch, "d2")
    for rest in itertools.product(ops, repeat=depth - 1):
        for f in firsts:
            hist = (f,) + rest
            base_case = {"chunk": chunk, "maxlen": maxlen, "hist": hist}
            # 1. no crash
            rec.begin(base_case)
            os.makedirs(d)
            q, log = run_history(rec, Q, os.path.join(d, "q"), maxlen, hist)
            q.close()
            q = Q(os.path.join(d, "q"), maxlen)
            same(rec, q, tail(log, maxlen), "contents after reopening")
            q.close()
            shutil.rmtree(d)
            # 2. all crash points
            os.makedirs(d)
            with CrashRecorder(d) as cr:
                q, log = run_history(rec, Q, os.path.join(d, "q"), maxlen, hist, cr=cr)
                q.close()
            shutil.rmtree(d)
            for mark, desc, tree in cr.snaps:
                rec.begin(dict(base_case, crash=desc, mark=mark))
                write_tree(d2, tree)
                ack, att = mark
                if second:
                    # crash again during recovery
                    with CrashRecorder(d2) as cr2:
                        cr2.mark = 0
                        q = Q(os.path.join(d2, "q"), maxlen)
                        q.append(val(800))
                        cr2.mark = 1
                        got = list(q)
                        q.close()
                    # what was recovered the first time
                    n = None
                    for k in range(ack, att + 1):
                        if tail(log[:k] + [val(800)], maxlen) == got:
                            n = k
                    rec.check(n is not None, "bad contents after recovery: %r" % (got,))
                    shutil.rmtree(d2)
                    for m2, desc2, tree2 in cr2.snaps:
                        rec.begin(dict(base_case, crash=desc, mark=mark, crash2=desc2))
                        write_tree(d2, tree2)
                        l2 = log[:n] + [val(800)]
                        check_recovery(
                            rec, Q, os.path.join(d2, "q"), maxlen, l2, n + m2, n + 1
                        )
                        shutil.rmtree(d2)
                        rec.step()
                        rec.state((chunk, maxlen, tuple(sorted(tree2.items(), key=lambda x: x[0]))))
                else:
                    base = check_recovery(
                        rec, Q, os.path.join(d2, "q"), maxlen, log, ack, att
                    )
                    rec.outcome((maxlen, tuple(base)))
                    shutil.rmtree(d2)
                rec.step()
                rec.state((chunk, maxlen, tuple(sorted(tree.items(), key=lambda x: x[0]))))


def unit_plain(rec, chunk, maxlen, ops, depth):
    """Deeper histories without crashes."""
    Q = queue_cls(chunk)
    d = os.path.join(rec.scratch, "d")
    for hist in itertools.product(ops, repeat=depth):
        rec.begin({"chunk": chunk, "maxlen": maxlen, "hist": hist})
        q, log = run_history(rec, Q, d, maxlen, hist)
        q.close()
        q = Q(d, maxlen)
        same(rec, q, tail(log, maxlen), "contents after reopening")
        rec.outcome((maxlen, tuple(log)))
        rec.state((chunk, maxlen, tuple(log)))
        q.close()
        shutil.rmtree(d)


def unit_lineage(rec, chunk, maxlen, gens, sizes):
    """Chains of ancestors: the newest `maxlen` items of the whole lineage."""
    Q = queue_cls(chunk)
    root = os.path.join(rec.scratch, "l")
    for ns in itertools.product(sizes, repeat=gens):
        for sess in (1, 2):
            rec.begin({"chunk": chunk, "maxlen": maxlen, "sizes": ns, "sessions": sess})
            log = []
            prev = None
            i = 0
            for g, n in enumerate(ns):
                d = os.path.join(root, "g%d" % g)
                parts = [n] if sess == 1 else [n - n // 2, n // 2]
                for k in parts:
                    q = Q(d, maxlen, ancestor=prev)
                    same(rec, q, tail(log, maxlen), "contents when opened with an ancestor")
                    for _ in range(k):
                        v = val(i, i % 2 == 0)
                        i += 1
                        q.append(v)
                        log.append(v)
                        rec.step()
                    same(rec, q, tail(log, maxlen), "contents with an ancestor")
                    q.close()
                prev = d
            rec.state((chunk, maxlen, ns, sess))
            rec.outcome((maxlen, tuple(log)))
            shutil.rmtree(root)


def tr(i, term):
    return dict(
        state=("s", i),
        action=i,
        reward=float(i),
        next_state=("n", i),
        next_action=None,
        is_state_terminal=term,
        tag=i,
    )


def unit_rb(rec, cap, depth):
    """PersistentReplayBuffer: acknowledged transitions survive any kill."""
    from pfrl.replay_buffers import PersistentReplayBuffer as RB

    d = os.path.join(rec.scratch, "d")
    d2 = os.path.join(rec.scratch, "d2")

    def contents(b):
        r = b.sample(len(b)) if len(b) else []
        return sorted(((list(e)) for e in r), key=lambda e: e[0]["action"])

    for hist in itertools.product("ATSR", repeat=depth):
        with_log = []
        os.makedirs(d)
        with CrashRecorder(d) as cr:
            cr.mark = (0, 0)
            b = RB(os.path.join(d, "q"), cap)
            for i, op in enumerate(hist):
                if op in "AT":
                    cr.mark = (len(with_log), len(with_log) + 1)
                    with_log.append([tr(i, op == "T")])
                    b.append(**tr(i, op == "T"))
                elif op == "S":
                    b.stop_current_episode()
                else:
                    b = RB(os.path.join(d, "q"), cap)
                cr.mark = (len(with_log), len(with_log))
                rec.eq(contents(b), tail(with_log, cap), "contents")
            del b
        shutil.rmtree(d)
        for (ack, att), desc, tree in cr.snaps:
            rec.begin({"cap": cap, "hist": hist, "crash": desc, "mark": (ack, att)})
            write_tree(d2, tree)
            b = RB(os.path.join(d2, "q"), cap)
            got = contents(b)
            ok = [tail(with_log[:n], cap) for n in range(ack, att + 1)]
            rec.check(
                got in ok, "after the crash: %r, acknowledged %r" % (got, ok[0])
            )
            rec.eq(len(b), len(got), "len")
            b.append(**tr(77, False))
            rec.eq(contents(b), tail(got + [[tr(77, False)]], cap), "after append")
            b = RB(os.path.join(d2, "q"), cap)
            rec.eq(contents(b), tail(got + [[tr(77, False)]], cap), "after reopen")
            del b
            shutil.rmtree(d2)
            rec.step()
            rec.outcome(got)
            rec.state((cap, tuple(sorted(tree.items(), key=lambda x: x[0]))))


def unit_episodic(rec, depth):
    """PersistentEpisodicReplayBuffer within its capacity: completed episodes
    are there again after a restart."""
    from pfrl.replay_buffers import PersistentEpisodicReplayBuffer as RB

    d = os.path.join(rec.scratch, "d")
    cap = 20

    def check(b, eps, what):
        n = sum(len(e) for e in eps)
        rec.eq(len(b), n, what + ": len")
        rec.eq(b.n_episodes, len(eps), what + ": n_episodes")
        g = b.sample_episodes(len(eps)) if eps else []
        rec.eq(
            sorted((list(e) for e in g), key=lambda e: e[0]["action"]), eps, what + ": episodes"
        )
        f = b.sample(n) if n else []
        rec.eq(
            sorted((list(e) for e in f), key=lambda e: e[0]["action"]),
            [[t] for e in eps for t in e],
            what + ": transitions",
        )

    for hist in itertools.product("ATSRN", repeat=depth):
        rec.begin({"episodic": hist})
        gen = 0
        b = RB(os.path.join(d, "0"), cap)
        eps, cur = [], []
        for i, op in enumerate(hist):
            if op in "AT":
                t = tr(i, op == "T")
                b.append(**t)
                cur.append(t)
                if op == "T":
                    eps.append(cur)
                    cur = []
            elif op == "S":
                b.stop_current_episode()
                if cur:
                    eps.append(cur)
                cur = []
            elif op == "R":
                anc = os.path.join(d, str(gen - 1)) if gen else None
                b = RB(os.path.join(d, str(gen)), cap, ancestor=anc)
                cur = []
            else:
                gen += 1
                b = RB(os.path.join(d, str(gen)), cap, ancestor=os.path.join(d, str(gen - 1)))
                cur = []
            check(b, eps, "after " + op)
            rec.step()
        rec.state(("ep", hist))
        rec.outcome([len(e) for e in eps])
        del b
        shutil.rmtree(d)


def unit_episodic_capacity(rec):
    """Capacity of the persistent episodic buffer (known finding)."""
    from pfrl.replay_buffers import PersistentEpisodicReplayBuffer as RB

    d = os.path.join(rec.scratch, "d")
    cap = 3
    rec.begin({"episodic-capacity": cap, "episodes": [2, 2]})
    b = RB(d, cap)
    for i in range(4):
        b.append(**tr(i, i % 2 == 1))
    rec.step(4)
    n_in_eps = sum(len(e) for e in b.sample_episodes(b.n_episodes))
    if n_in_eps > cap or n_in_eps != len(b):
        rec.known(
            "episodic-capacity",
            "PersistentEpisodicReplayBuffer(capacity=3) after two 2-step episodes holds "
            "%d transitions in %d episodes while len() is %d: whole old episodes are not "
            "discarded" % (n_in_eps, b.n_episodes, len(b)),
        )
    rec.outcome(n_in_eps)
    rec.state(n_in_eps)
    del b
    shutil.rmtree(d)


def unit_pump(rec, chunk, maxlen, period, length):
    Q = queue_cls(chunk)
    d = os.path.join(rec.scratch, "d")
    for pat in itertools.product("aekp", repeat=period):
        hist = (pat * length)[:length]
        rec.begin({"chunk": chunk, "maxlen": maxlen, "hist": "".join(hist)})
        q, log = run_history(rec, Q, d, maxlen, hist)
        q.close()
        q = Q(d, maxlen)
        same(rec, q, tail(log, maxlen), "contents after reopening")
        q.close()
        rec.state((chunk, maxlen, hist))
        shutil.rmtree(d)


def units(tier):
    q = tier == "quick"
    us = []
    for chunk in (1, 100, None):
        for maxlen in (None, 7, 12):
            us.append(("pump-%s-%s" % (chunk, maxlen), unit_pump, chunk, maxlen, 2 if q else 3, 40))
    ops = "abegpr"
    dep = 3 if q else 4
    for chunk in (1, 40, None):
        for maxlen in (None, 1, 2, 3):
            for f in ops[:4] if q else ops:
                us.append(
                    ("crash-%s-%s-%s" % (chunk, maxlen, f), unit_crash, chunk, maxlen, "aberp", 4 if maxlen in (None, 2) else dep, (f,))
                )
            us.append(
                ("plain-%s-%s" % (chunk, maxlen), unit_plain, chunk, maxlen, "abegprk", 4 if q else 5)
            )
            us.append(
                ("sessions-%s-%s" % (chunk, maxlen), unit_plain, chunk, maxlen, "ar", 8 if q else 10)
            )
            for gens in (2, 3):
                us.append(
                    ("lineage%d-%s-%s" % (gens, chunk, maxlen), unit_lineage, chunk, maxlen, gens, (0, 1, 2, 3, 5))
                )
        for maxlen in (None, 2):
            us.append(
                ("crash2-%s-%s" % (chunk, maxlen), unit_crash, chunk, maxlen, "aer", 2, ("a", "e"), True)
            )
    for cap in (None, 1, 2, 3):
        us.append(("rb-%s" % cap, unit_rb, cap, 4 if q else 5))
    us.append(("episodic", unit_episodic, 4 if q else 5))
    us.append(("episodic-capacity", unit_episodic_capacity))
    return us
