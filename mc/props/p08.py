"""P08  evaluation: scores, statistics, schedule, records and best agent."""
import itertools
import math
import os
import statistics
from fractions import Fraction

from mc.core import explore
from mc.stubs import Fault, Log, RecAgent, ScriptEnv, ScriptVectorEnv, tb_rows, tensorboard

RULE = "one case per evaluation run or evaluator history; non-trivial outcomes = distinct results"
BOUNDS = {
    "quick": "single env: all scripts of up to 6 steps over {continue, done, needs_reset, both}, rewards distinct powers of two, "
    "n_episodes 1..4 / n_steps 1..6, episode limits None,1,2,3; vector env: 1..4 envs, up to 8 env steps; "
    "evaluator: all increasing step sequences up to 9 with intervals 1..4, offsets 0..5, all score sequences of length 4 over {-1,0,1}, with and without tensorboard records",
    "thorough": "one more step everywhere",
}
OUTS = [(False, False), (True, False), (False, True), (True, True)]


def reward(i):
    return float(2 ** (i % 40))


# ------------------------------------------------------------ single env


def unit_single(rec, n_steps, n_episodes, mel, depth):
    from pfrl.experiments.evaluator import run_evaluation_episodes

    def go(ctx):
        rec.begin({"n_steps": n_steps, "n_episodes": n_episodes, "mel": mel, "choices": ctx.prefix})
        log = Log()
        agent = RecAgent(log)
        script = []

        def outcome(phase, ep, k):
            i = len(script)
            if i >= depth:
                d, n = True, False
            else:
                d, n = ctx.pick(OUTS, "outcome")
            script.append((ep, reward(i), d, n))
            return reward(i), d, n

        env = ScriptEnv(log, outcome)
        env.agent = agent
        agent.training = ctx.choose(2, "training") == 0
        tr = agent.training
        scores, lengths = run_evaluation_episodes(env, agent, n_steps, n_episodes, max_episode_len=mel)
        rec.step(len(script))
        rec.eq(agent.training, tr, "agent.training restored")
        rec.check(agent.version == 0 and not any(e[0] in ("act", "observe", "Tstep", "Treset") for e in log), "evaluation outside evaluation mode")
        # oracle
        eps = []
        cur = None
        pos = 0
        stop = False
        si = 0
        while not stop:
            rec.eq(log[pos][0], "Ereset", "episode start")
            obs = log[pos][1]
            pos += 1
            ret, k = 0.0, 0
            over = False
            while not over and not stop:
                rec.eq(log[pos][:2], ("Eact", obs), "act on current observation")
                a = log[pos][2]
                rec.eq(log[pos + 1], ("Estep", a, obs, False), "step")
                ep, r, d, n = script[si]
                si += 1
                k += 1
                ret += r
                obs = (obs[0], obs[1], obs[2] + 1)
                over = d or n or k == mel
                if over:
                    eps.append((ret, k))
                if n_episodes is not None:
                    stop = len(eps) >= n_episodes
                else:
                    stop = si >= n_steps
                rec.eq(log[pos + 2], ("Eobserve", obs, r, d, over or stop), "observe")
                pos += 3
            if stop and not eps:
                eps.append((ret, k))
        rec.eq(log[pos:], [], "activity after the evaluation budget")
        rec.eq(scores, [e[0] for e in eps], "scores")
        rec.eq(lengths, [float(e[1]) for e in eps], "lengths")
        rec.check(all(type(x) is float for x in scores), "scores are floats")
        rec.state(tuple(script))
        rec.outcome((tuple(scores), tuple(lengths)))

    explore(go, rec)


# ------------------------------------------------------------ vector env


def unit_batch(rec, n, n_steps, n_episodes, mel, depth, outs):
    from pfrl.experiments.evaluator import batch_run_evaluation_episodes

    def go(ctx):
        rec.begin({"n": n, "n_steps": n_steps, "n_episodes": n_episodes, "mel": mel, "choices": ctx.prefix})
        log = Log()
        agent = RecAgent(log)
        hist = []  # per step: list of (r, d, n) per env
        flat = []

        def outcome(phase, i, ep, k):
            j = len(flat)
            if j >= depth:
                d, nr = True, False
            else:
                d, nr = ctx.pick(outs, "outcome")
            flat.append((reward(j), d, nr))
            return flat[-1]

        env = ScriptVectorEnv(log, outcome, n)
        env.agent = agent
        scores, lengths = batch_run_evaluation_episodes(env, agent, n_steps, n_episodes, max_episode_len=mel)
        rec.step(len(flat))
        rec.eq(agent.training, True, "agent.training restored")
        T = len(flat) // n
        # oracle: replay the vector protocol
        # episodes in order of start: (start time, env); ties by env
        eps = {}  # (start, env) -> [ret, len, finished]
        open_ = {i: (0, i) for i in range(n)}
        for i in range(n):
            eps[(0, i)] = [0.0, 0, False]
        pos = 0
        rec.eq(log[0][:2], ("Ereset", (False,) * n), "initial reset")
        cur = list(log[0][2])
        pos = 1
        for t in range(T):
            last = t == T - 1
            rec.eq(log[pos][:2], ("Eact", tuple(cur)), "act")
            rec.eq(log[pos + 1], ("Estep", log[pos][2], tuple(cur), (False,) * n), "step (ended env stepped?)")
            outs_ = flat[t * n : t * n + n]
            cur = [(c[0], c[1], c[2], c[3] + 1) for c in cur]
            ends, rs, ds, resets = [], [], [], []
            for i in range(n):
                r, d, nr = outs_[i]
                e = eps[open_[i]]
                e[0] += r
                e[1] += 1
                reset = nr or e[1] == mel
                end = d or reset
                if end:
                    e[2] = True
                    open_[i] = (t + 1, i)
                    eps[(t + 1, i)] = [0.0, 0, False]
                ends.append(end)
                rs.append(r)
                ds.append(d)
                resets.append(bool(reset))
            # is the budget used up now?
            order = [eps[k] for k in sorted(eps)]
            prefix = []
            for e in order:
                if not e[2]:
                    break
                prefix.append(e)
            if n_episodes is not None:
                done = len(prefix) >= n_episodes
                result = prefix[:n_episodes]
            else:
                tot = sum(e[1] for e in prefix)
                nxt = order[len(prefix)]
                done = tot >= n_steps or tot + nxt[1] >= n_steps
                result, acc = [], 0
                for e in prefix:
                    acc += e[1]
                    if acc > n_steps:
                        break
                    result.append(e)
                if done and not prefix:
                    result = [nxt]
            rec.eq(last, done, "evaluation stops exactly when the budget is used up (step %d of %d)" % (t + 1, T))
            want_resets = tuple([True] * n if done else resets)
            rec.eq(log[pos + 2], ("Eobserve", tuple(cur), tuple(rs), tuple(ds), want_resets), "observe")
            pos += 3
            if not last:
                if pos < len(log) and log[pos][0] == "Ereset":
                    rec.eq(log[pos][1], tuple(not e for e in ends), "reset mask")
                    cur = list(log[pos][2])
                    pos += 1
                else:
                    rec.check(not any(ends), "ended environments were not reset")
        rec.eq(log[pos:], [], "activity after the evaluation budget")
        rec.eq(scores, [e[0] for e in result], "scores = returns of the first episodes in order of start")
        rec.eq(lengths, [float(e[1]) for e in result], "lengths")
        rec.state(tuple(flat))
        rec.outcome((tuple(scores), tuple(lengths)))

    explore(go, rec)


# ------------------------------------------------------------ statistics


def unit_stats(rec, lens_max, vec):
    from pfrl.experiments.evaluator import eval_performance

    vals = (-1.5, 0.0, 2.0, 7.0)
    for k in range(1, lens_max + 1):
        for rets in itertools.product(vals, repeat=k):
            for lens in ([1] * k, [1 + i % 3 for i in range(k)]):
                rec.begin({"rets": rets, "lens": lens, "vec": vec})
                log = Log()
                agent = RecAgent(log)

                def outcome(phase, *w):
                    ep, j = w[-2], w[-1]
                    L = lens[ep] if ep < k else 1
                    return (rets[ep] if j == L - 1 else 0.0), j == L - 1, False

                env = ScriptVectorEnv(log, outcome, 1) if vec else ScriptEnv(log, outcome)
                st = eval_performance(env, agent, None, k)
                rec.step(k)
                fr = [Fraction(r) for r in rets]
                mean = sum(fr) / k
                srt = sorted(rets)
                med = srt[k // 2] if k % 2 else (srt[k // 2 - 1] + srt[k // 2]) / 2
                var = sum((f - mean) ** 2 for f in fr) / (k - 1) if k > 1 else 0
                lm = Fraction(sum(lens), k)
                ls = sorted(lens)
                lmed = ls[k // 2] if k % 2 else (ls[k // 2 - 1] + ls[k // 2]) / 2
                lvar = sum((f - lm) ** 2 for f in lens) / (k - 1) if k > 1 else 0
                want = dict(episodes=k, mean=float(mean), median=med, stdev=math.sqrt(var), max=max(rets), min=min(rets),
                            length_mean=float(lm), length_median=lmed, length_stdev=math.sqrt(lvar), length_max=max(lens), length_min=min(lens))
                for key, w in want.items():
                    rec.check(abs(st[key] - w) < 1e-9, "statistic %s: got %r want %r" % (key, st[key], w))
                rec.state((rets, tuple(lens)))
                rec.outcome(tuple(sorted((a, float(b)) for a, b in want.items())))


# ------------------------------------------------------------ evaluators


def std(xs):
    m = sum(Fraction(x) for x in xs) / len(xs)
    return round(math.sqrt(sum((Fraction(x) - m) ** 2 for x in xs) / (len(xs) - 1)), 9) if len(xs) > 1 else 0.0


class Hook(object):
    support_train_agent = support_train_agent_batch = support_train_agent_async = True

    def __init__(self, out):
        self.out = out

    def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
        self.out.append((env, agent, evaluator, step, eval_stats["mean"], dict(agent_stats), dict(env_stats)))


def unit_evaluator(rec, interval, offset, tmax, kind, scoreset, best_flag, n_ep, tb=False):
    """All increasing step sequences within (offset, tmax]; scores enumerated."""
    from pfrl.experiments import evaluator as E

    if tb:
        assert kind == "sync"
        with tensorboard() as made:
            return _unit_evaluator(rec, E, interval, offset, tmax, kind, scoreset, best_flag, n_ep, made)
    _unit_evaluator(rec, E, interval, offset, tmax, kind, scoreset, best_flag, n_ep, None)


def _unit_evaluator(rec, E, interval, offset, tmax, kind, scoreset, best_flag, n_ep, made):

    outdir = os.path.join(rec.scratch, "ev")
    os.makedirs(outdir, exist_ok=True)

    def go(ctx):
        ts = []
        for t in range(offset + 1, tmax + 1):
            if ctx.choose(2, "t%d" % t) == 0:
                ts.append(t)
        rec.begin({"kind": kind, "interval": interval, "offset": offset, "ts": ts, "choices": ctx.prefix})
        sc = os.path.join(outdir, "scores.txt")
        if os.path.exists(sc):
            os.unlink(sc)
        log = Log()
        agent = RecAgent(log, outdir)
        cur = []

        def outcome(phase, ep, k):
            if k == 0:
                cur.append(ctx.pick(scoreset, "score"))
                return cur[-1], False, False
            return 0.0, True, False

        env = ScriptEnv(log, outcome, stats=True)
        env.agent = agent
        hk = []
        kw = dict(n_steps=None, n_episodes=n_ep, eval_interval=interval, outdir=outdir, step_offset=offset,
                  evaluation_hooks=[Hook(hk)], save_best_so_far_agent=best_flag)
        tbw = []
        if made is not None:
            del made[:]
            kw["use_tensorboard"] = True
        if kind == "sync":
            ev = E.Evaluator(agent=agent, env=env, **kw)
            call = lambda t, e: ev.evaluate_if_necessary(t=t, episodes=e)
        else:
            ev = E.AsyncEvaluator(**kw)
            call = lambda t, e: ev.evaluate_if_necessary(t=t, episodes=e, env=env, agent=agent)
        prev = offset
        prev_b = offset // interval
        best = None
        rows = []
        env.nsteps = 5  # steps taken before the first evaluation
        for j, t in enumerate(ts):
            agent.version = 100 + t
            n0, h0 = len(log), len(hk)
            c0 = len(cur)
            got = call(t, 10 * j)
            rec.step()
            if kind == "sync":
                due = t // interval > prev // interval
            else:
                # every boundary is claimed once, one per call
                due = t >= (prev_b + 1) * interval
            rec.eq(got is not None, due, "evaluation at t=%d due" % t)
            ev_events = log[n0:]
            if not due:
                rec.eq((ev_events, len(hk)), ([], h0), "activity without an evaluation")
                continue
            prev = t
            prev_b += 1
            sc_now = cur[c0:]
            rec.eq(len(sc_now), n_ep, "number of evaluation episodes")
            mean = float(sum(Fraction(s) for s in sc_now) / n_ep)
            rec.check(got == mean, "returned score %r != %r" % (got, mean))
            saves = [e for e in ev_events if e[0] == "save"]
            improved = best is None or mean > best
            rec.eq([s[1:3] for s in saves], [("best", 100 + t)] if improved and best_flag else [], "best agent saved at t=%d" % t)
            if improved:
                best = mean
            rec.eq(float(ev.max_score), best, "max_score")
            rec.eq(len(hk), h0 + 1, "evaluation hook calls")
            h = hk[-1]
            rec.check(h[0] is env and h[1] is agent and h[2] is ev, "hook arguments")
            rec.eq(h[3:], (t, mean, {"version": 100 + t}, {"env_steps_T": 2 * n_ep}), "hook arguments")
            rows.append((t, 10 * j, mean, statistics.median(sc_now), std(sc_now), max(sc_now), min(sc_now), 100 + t, 2 * n_ep))
            if made is not None:
                rec.eq([w.log_dir for w in made], [outdir], "tensorboard writers")
                tbw += tb_rows(t, sc_now, [("version", 100 + t)], [("env_steps_T", 2 * n_ep)])
                rec.eq(sorted(made[0].flushed), tbw, "tensorboard records flushed after the evaluation at t=%d" % t)
        with open(sc) as f:
            lines = [ln.rstrip("\n").split("\t") for ln in f]
        if kind == "sync" or rows:
            rec.eq(lines[0], ["steps", "episodes", "elapsed", "mean", "median", "stdev", "max", "min", "version", "env_steps_T"], "header")
        else:
            rec.eq(lines, [], "scores.txt before any evaluation")
        got_rows = [
            (int(r[0]), int(r[1]), float(r[3]), float(r[4]), round(float(r[5]), 9), float(r[6]), float(r[7]), int(r[8]), int(r[9])) for r in lines[1:]
        ]
        el = [float(r[2]) for r in lines[1:]]
        rec.check(all(0 <= a <= b for a, b in zip([0.0] + el, el)) and all(x < 3600 for x in el), "elapsed times %r" % el)
        rec.eq(got_rows, rows, "scores.txt rows")
        rec.state((tuple(ts), tuple(cur)))
        rec.outcome((tuple(rows), best))

    explore(go, rec)


def unit_fault(rec, kind):
    """A failure inside an evaluation leaves evaluation mode and propagates."""
    from pfrl.experiments.evaluator import eval_performance

    for vec in (False, True):
        for exc in (Fault, KeyboardInterrupt):
            for n in range(1, 6):
                rec.begin({"vec": vec, "kind": kind, "n": n, "exc": exc.__name__})
                e = exc("x")
                log = Log((kind, n, e))
                agent = RecAgent(log)

                def outcome(phase, *w):
                    return 1.0, w[-1] >= 1, False

                env = ScriptVectorEnv(log, outcome, 2) if vec else ScriptEnv(log, outcome)
                env.agent = agent
                got = None
                try:
                    eval_performance(env, agent, None, 3)
                except (Fault, KeyboardInterrupt) as g:
                    got = g
                rec.step()
                rec.check(got is (e if log.fired else None), "exception swallowed")
                rec.eq(agent.training, True, "training mode restored after a failure")
                rec.eq(agent.version, 0, "training observations")
                rec.outcome((kind, n, vec, log.fired))
                rec.state((kind, n, vec, len(log)))


def units(tier):
    T = tier == "thorough"
    us = []
    D = 6 if not T else 7
    for mel in (None, 1, 2, 3):
        for ne in (1, 2, 3, 4):
            us.append(("single-e%d-%s" % (ne, mel), unit_single, None, ne, mel, D))
        for ns in (1, 2, 3, 4, 5, 6) + ((7,) if T else ()):
            us.append(("single-s%d-%s" % (ns, mel), unit_single, ns, None, mel, D))
    for n, depth, outs in ((1, 6, OUTS), (2, 8, OUTS[:3]), (3, 9, OUTS[:2]), (4, 8, OUTS[:2])):
        if T:
            depth += n
            if n == 2:
                outs = OUTS[:2]
                depth = 12
        for mel in (None, 2, 3):
            for ne in (1, 2, 3, 4):
                us.append(("batch%d-e%d-%s" % (n, ne, mel), unit_batch, n, None, ne, mel, depth, outs))
            for ns in (1, 2, 3, 4, 5, 6):
                us.append(("batch%d-s%d-%s" % (n, ns, mel), unit_batch, n, ns, None, mel, depth, outs))
    us.append(("stats-s", unit_stats, 4 if not T else 5, False))
    us.append(("stats-v", unit_stats, 4 if not T else 5, True))
    for kind in ("sync", "async"):
        for interval in (1, 2, 3, 4):
            for off in (0, 1, 2, 5):
                us.append(("evr-%s-%d-%d" % (kind, interval, off), unit_evaluator, interval, off, off + (9 if not T else 11), kind, (0.0,), True, 1))
        for bf in (True, False):
            us.append(("evs-%s-%s" % (kind, bf), unit_evaluator, 1, 0, 4, kind, (0.0, 1.0, -1.0), bf, 1))
            us.append(("evn-%s-%s" % (kind, bf), unit_evaluator, 2, 0, 5, kind, (0.0, 1.0, -1.0), bf, 2))
            if kind == "sync":
                us.append(("evtb-%s" % bf, unit_evaluator, 2, 0, 5, kind, (0.0, 1.0, -1.0), bf, 2, True))
                us.append(("evtb3-%s" % bf, unit_evaluator, 2, 0, 4, kind, (0.0, 1.0, -4.0), bf, 3, True))
        # scores that differ by less than single precision / are hugely negative
        us.append(("evp-%s" % kind, unit_evaluator, 1, 0, 4, kind, (1.0, 1.0 + 2.0**-40, -3.0e38 if False else -1e30), True, 1))
    for kind in ("Ereset", "Estep", "Eact", "Eobserve"):
        us.append(("fault-" + kind, unit_fault, kind))
    return us
