"""P07  train_agent_batch / train_agent_batch_with_evaluation: the same
guarantees as P06 for vector environments (per-environment episodes, masks,
step accounting in units of environment steps)."""
import os

from mc.core import explore
from mc.props.p06 import OUTS, OUTS2, EvHook, rows
from mc.stubs import Fault, Log, RecAgent, ScriptEnv, ScriptVectorEnv

RULE = "one case per (configuration, joint environment script, fault point); non-trivial outcomes = distinct call logs"
BOUNDS = {
    "quick": "1..3 environments, up to 4 batch steps, per env and step {continue, done, needs_reset, both}; "
    "episode limit None,1,2,3; checkpoint_freq None,1,2,3,4; offsets 0,1,3; eval intervals 1..4; vector or single "
    "evaluation env; score sequences from {-1,0,1}; failures at every call",
    "thorough": "up to 5 batch steps (2 envs) / 3 (3 envs)",
}


def run_case(rec, ctx, cfg, fault=None, outs=OUTS, scores=(0.0,)):
    from pfrl import experiments as ex

    log = Log(fault)
    outdir = os.path.join(rec.scratch, "out")
    os.makedirs(outdir, exist_ok=True)
    agent = RecAgent(log, outdir, with_t=cfg.get("with_t", False))
    script = []
    N = cfg["n"]
    L = cfg.get("eval_len", 1)

    def outcome(phase, *where):
        if phase == "E":
            k = where[-1]
            s = ctx.pick(scores, "score") if k == 0 else 0.0
            return s, k + 1 >= L, False
        d, n = ctx.pick(outs, "outcome")
        script.append((d, n))
        return float(len(script)), d, n

    env = ScriptVectorEnv(log, outcome, N, "T")
    env.agent = agent
    hooks = [
        lambda e, a, t, i=i: log.add("hook", i, t, e is env, a is agent)
        for i in range(cfg.get("hooks", 1))
    ]
    kw = dict(
        checkpoint_freq=cfg.get("ckpt"),
        step_offset=cfg.get("offset", 0),
        step_hooks=hooks,
        max_episode_len=cfg.get("mel"),
        log_interval=cfg.get("log"),
        return_window_size=2,
    )
    hist = raised = eenv = None
    try:
        ev = cfg.get("eval")
        if ev is None:
            hist = ex.train_agent_batch(agent, env, cfg["steps"], outdir, **kw)
        else:
            eenv = None
            if ev["env"] == "vec":
                eenv = ScriptVectorEnv(log, outcome, ev["nv"], "V")
                eenv.agent = agent
            elif ev["env"] == "single":
                eenv = ScriptEnv(log, outcome, "V")
                eenv.agent = agent
            ret = ex.train_agent_batch_with_evaluation(
                agent=agent,
                env=env,
                steps=cfg["steps"],
                eval_n_steps=ev.get("n_steps"),
                eval_n_episodes=ev.get("n_ep"),
                eval_interval=ev["interval"],
                outdir=outdir,
                eval_max_episode_len=ev.get("mel"),
                eval_env=eenv,
                successful_score=ev.get("succ"),
                evaluation_hooks=[EvHook(log)],
                save_best_so_far_agent=ev.get("best", True),
                **kw,
            )
            rec.check(ret[0] is agent, "did not return the agent")
            hist = ret[1]
    except (Fault, KeyboardInterrupt) as e:
        raised = e
    rec.step(len(script))
    judge(rec, cfg, log, script, hist, raised, fault, agent, outdir, env, eenv)
    rec.state((tuple(script), tuple(sorted(log.seen.items()))))
    rec.outcome(tuple(log))
    return log


def judge(rec, cfg, log, script, hist, raised, fault, agent, outdir, env, eenv):
    N = cfg["n"]
    steps, off = cfg["steps"], cfg.get("offset", 0)
    mel, ckpt, nh, ev = cfg.get("mel"), cfg.get("ckpt"), cfg.get("hooks", 1), cfg.get("eval")
    rec.eq(agent.training, True, "agent.training after training")
    if cfg.get("with_t"):
        rec.eq(agent.t, off, "agent.t set to the step offset")
    cutpos = None
    if fault is not None and log.fired:
        c = 0
        for i, e in enumerate(log):
            if e[0] == fault[0]:
                c += 1
                if c == fault[1]:
                    cutpos = i
                    break
    pos = 0
    body = list(log) if cutpos is None else list(log[: cutpos + 1])
    lens = [0] * N
    t, prev, best, episodes, it = off, off, None, 0, 0
    want_hist, want_rows = [], []

    def faulted():
        return cutpos is not None and pos == cutpos + 1

    def except_tail(lo, hi):
        rec.check(raised is fault[2], "exception swallowed or replaced: %r" % (raised,))
        tail = log[cutpos + 1:]
        saves = [e for e in tail if e[0] == "save"]
        rec.check(len(saves) == 1 and saves[0][1] in ["%d_except" % x for x in range(lo, hi + 1)],
                  "saves after a failure between steps %d and %d: %r" % (lo, hi, saves))
        rec.eq(saves[0][2], agent.version, "agent version saved after the failure")
        rec.check(env.closed >= 1, "training env not closed after a failure")
        if eenv is not None:
            rec.check(eenv.closed, "evaluation env not closed after a failure")
        rec.eq([e for e in tail if e[0] not in ("save", "Tclose", "Vclose")], [], "activity after a failure")

    e = body[pos]
    pos += 1
    rec.eq(e[0], "Treset", "first call")
    rec.eq(e[1], (False,) * N, "initial reset covers all environments")
    cur = list(e[2])
    if faulted():
        return
    stop = False
    while not stop:
        e = body[pos]
        pos += 1
        rec.eq(e[:2], ("act", tuple(cur)), "agent acts on the current observations")
        acts = e[2]
        if faulted():
            return except_tail(t, t)
        e = body[pos]
        pos += 1
        rec.eq(e, ("Tstep", acts, tuple(cur), (False,) * N), "env.step at %d (actions, observations, ended flags)" % t)
        if faulted():
            return except_tail(t, t)
        outs = script[it * N : it * N + N]
        rs = tuple(float(it * N + i + 1) for i in range(N))
        it += 1
        cur = [(c[0], c[1], c[2], c[3] + 1) for c in cur]
        lens = [x + 1 for x in lens]
        ds = tuple(o[0] for o in outs)
        resets = tuple(bool(o[1] or (mel is not None and lens[i] == mel)) for i, o in enumerate(outs))
        ends = tuple(a or b for a, b in zip(ds, resets))
        e = body[pos]
        pos += 1
        rec.eq(e, ("observe", tuple(cur), rs, ds, resets), "batch_observe at %d" % t)
        t0 = t
        t += N
        if faulted():
            return except_tail(t0, t)
        episodes += sum(ends)
        hooks_seen, saves, in_eval, was_reset = [], [], [], [0] * N
        evald = eval_pos = reset_pos = None
        hit = False
        while pos < len(body) and body[pos][0] != "act":
            e = body[pos]
            pos += 1
            if e[0] == "hook":
                hooks_seen.append(e[1:])
            elif e[0] == "save":
                saves.append(e)
            elif e[0] == "Treset":
                reset_pos = pos
                for i in range(N):
                    if not e[1][i]:
                        was_reset[i] += 1
                cur = list(e[2])
            elif e[0] in ("Ereset", "Estep", "Eact", "Eobserve"):
                in_eval.append(e)
                eval_pos = pos
            elif e[0] == "ehook":
                rec.check(evald is None, "two evaluations after step %d" % t)
                evald = e
            else:
                rec.fail("unexpected %r after step %d" % (e, t))
            if faulted():
                hit = True
                break
        want_hooks = [(i, u, True, True) for u in range(t0 + 1, t + 1) for i in range(nh)]
        need_eval = ev is not None and t // ev["interval"] > prev // ev["interval"]
        if hit:
            rec.eq(hooks_seen, want_hooks[: len(hooks_seen)], "hooks")
            rec.check(not in_eval or need_eval, "evaluation at step %d not due" % t)
            if body[-1][0] == "save" and body[-1][1].endswith("_finish"):
                rec.check(raised is fault[2], "failure of the final save swallowed")
                return
            return except_tail(t0, t)
        rec.eq(hooks_seen, want_hooks, "hooks of batch step ending at %d" % t)
        rec.eq(bool(in_eval), need_eval, "evaluation after step %d (last %d)" % (t, prev))
        want = set()
        stop = t >= steps
        if need_eval:
            rec.eq(evald[1], t, "step of the evaluation")
            score = evald[2]
            want_hist.append({"version": it, "eval_score": score})
            want_rows.append((t, episodes, score))
            prev = t
            check_eval_protocol(rec, in_eval)
            if "score_of" in cfg:
                rec.eq(score, cfg["score_of"](in_eval), "evaluation score")
            if best is None or score > best:
                best = score
                if ev.get("best", True):
                    want.add("best")
            if ev.get("succ") is not None and best >= ev["succ"]:
                stop = True
        opt = set()
        if ckpt:
            for u in range(t0 + 1, t + 1):
                if u % ckpt == 0:
                    (want if u < min(t if stop else t + 1, steps) else opt).add("%d_checkpoint" % u)
        if stop:
            want.add("%d_finish" % t)
        names = [s[1] for s in saves]
        rec.check(len(set(names)) == len(names), "duplicate saves %r" % names)
        rec.eq(sorted(set(names) - opt), sorted(want), "agents saved at batch step ending at %d" % t)
        for s in saves:
            rec.eq(s[2], it, "%s holds the agent after %d updates" % (s[1], it))
        if stop:
            rec.eq(saves[-1][1], "%d_finish" % t, "last save")
            rec.eq(sum(was_reset), 0, "environments reset after the end of training")
        else:
            rec.eq(was_reset, [int(x) for x in ends], "environments reset after step %d" % t)
            lens = [0 if x else l for x, l in zip(ends, lens)]
    rec.check(raised is None, "raised %r" % (raised,))
    rec.eq(body[pos:], [], "activity after training")
    rec.eq(hist, want_hist, "evaluation history")
    if ev is not None:
        head, rs_ = rows(outdir)
        rec.eq([(int(r["steps"]), int(r["episodes"]), float(r["mean"])) for r in rs_], want_rows, "scores.txt")


def check_eval_protocol(rec, events):
    rec.eq(events[0][0], "Ereset", "evaluation starts with a reset")
    for e in events:
        if e[0] == "Estep":
            over = e[3] if isinstance(e[3], tuple) else (e[3],)
            rec.check(not any(over), "evaluation steps an ended environment")
    last = [e for e in events if e[0] == "Eobserve"][-1]
    r = last[4] if isinstance(last[4], tuple) else (last[4],)
    rec.check(all(r), "the last evaluation observation is not marked as a reset: %r" % (last,))


def unit_plain(rec, n, iters, mel, outs):
    for ckpt in (None, 1, 2, 3, 4):
        for off in (0, 1, 3):
            for steps in range(off + n * (iters - 1) + 1, off + n * iters + 1):
                if ckpt in (None, 4) and steps != off + n * iters:
                    continue
                if iters * n >= 6 and (off == 1 or ckpt == 3):
                    continue
                cfg = dict(n=n, steps=steps, mel=mel, ckpt=ckpt, offset=off, hooks=2 if ckpt == 2 else 1,
                           with_t=off > 0, log=2 if ckpt == 3 else None)

                def go(ctx):
                    rec.begin({"cfg": cfg, "choices": ctx.prefix})
                    run_case(rec, ctx, cfg, outs=outs)

                explore(go, rec)


def unit_eval(rec, n, iters, interval, outs):
    for off in (0, 1, 3):
        for mel in (None, 2):
            for env in ("vec", "single"):
                for kind in ({"n_ep": 1}, {"n_ep": 3}, {"n_steps": 3}):
                    for nv in ((1, 2) if env == "vec" else (1,)):
                        ev = dict(interval=interval, env=env, nv=nv, **kind)
                        cfg = dict(n=n, steps=off + n * iters, offset=off, mel=mel, ckpt=3, eval=ev, eval_len=2)

                        def go(ctx):
                            rec.begin({"cfg": cfg, "choices": ctx.prefix})
                            run_case(rec, ctx, cfg, outs=outs)

                        explore(go, rec)


def unit_score(rec, n, iters, interval, succ):
    for best in (True, False):
        for env in ("vec", "single"):
            ev = dict(interval=interval, env=env, nv=1, n_ep=1, succ=succ, best=best)
            cfg = dict(n=n, steps=n * iters, ckpt=2, eval=ev, eval_len=1,
                       score_of=lambda evs: sum(r if isinstance(r, float) else r[0] for r in [e[2] for e in evs if e[0] == "Eobserve"]))

            def go(ctx):
                rec.begin({"cfg": {k: v for k, v in cfg.items() if k != "score_of"}, "choices": ctx.prefix})
                run_case(rec, ctx, cfg, outs=OUTS2[:2] if n == 1 else OUTS2[:1], scores=(0.0, 1.0, -1.0))

            explore(go, rec)


FAULT_KINDS = ["Treset", "Tstep", "act", "observe", "hook", "save", "Ereset", "Estep", "Eact", "Eobserve", "ehook"]


def unit_fault(rec, n, iters, kind, exc):
    for env in ("vec", "single"):
        for off in (0, 1):
            ev = dict(interval=2, env=env, nv=2, n_ep=2)
            cfg = dict(n=n, steps=off + n * iters, offset=off, mel=2, ckpt=1, eval=ev, eval_len=1, hooks=2)
            for k in range(1, 60):
                hit = [False]

                def go(ctx):
                    rec.begin({"cfg": cfg, "fault": (kind, k, exc), "choices": ctx.prefix})
                    e = KeyboardInterrupt("k") if exc == "ki" else Fault("f")
                    log = run_case(rec, ctx, cfg, fault=(kind, k, e), outs=OUTS2[:2])
                    hit[0] = hit[0] or log.fired

                explore(go, rec)
                if not hit[0]:
                    break


def unit_shared(rec):
    """eval_env omitted: the training env itself is used for evaluation."""
    from mc.core import Violation

    ev = dict(interval=2, env="shared", n_ep=1)
    cfg = dict(n=2, steps=6, eval=ev, eval_len=1)

    def go(ctx):
        rec.begin({"cfg": cfg, "choices": ctx.prefix})
        try:
            run_case(rec, ctx, cfg, outs=OUTS2[:2])
        except Violation as e:
            m = str(e)
            if "env.step at" in m or "agent acts on" in m:
                rec.known(
                    "batch-shared-eval-env",
                    "train_agent_batch_with_evaluation(eval_env=None) evaluates on the training env in the "
                    "middle of training episodes and continues from the evaluation's state",
                )
            else:
                raise

    explore(go, rec)


def units(tier):
    T = tier == "thorough"
    us = []
    for n, its in ((1, (1, 2, 3, 4)), (2, (1, 2)), (3, (1,))):
        for iters in its:
            for mel in (None, 1, 2, 3):
                us.append(("plain-%d-%d-%s" % (n, iters, mel), unit_plain, n, iters, mel, OUTS))
    for n, iters in ((2, 3), (3, 2)) + (((2, 4), (3, 3), (1, 6)) if T else ()):
        for mel in (None, 2, 3):
            us.append(("plain-%d-%d-%s" % (n, iters, mel), unit_plain, n, iters, mel, OUTS2 if n * iters < 8 else OUTS2[:2]))
    for n, iters in ((1, 4), (2, 2), (3, 1)) + (((2, 3),) if T else ()):
        for interval in (1, 2, 3, 4, 5):
            us.append(("eval-%d-%d-%d" % (n, iters, interval), unit_eval, n, iters, interval, OUTS2))
    us += [("eval-2-3-%d-b" % i, unit_eval, 2, 3, i, OUTS2[:2]) for i in (1, 2, 3, 5)]
    for n, iters in ((1, 4), (2, 4)) + (((2, 5),) if T else ()):
        for interval in (1, 2, 3):
            for succ in (None, 0.0, 1.0):
                us.append(("score-%d-%d-%d-%s" % (n, iters, interval, succ), unit_score, n, iters, interval, succ))
    for kind in FAULT_KINDS:
        for exc in ("exc", "ki"):
            us.append(("fault-%s-%s" % (kind, exc), unit_fault, 2, 2, kind, exc))
    us.append(("shared", unit_shared))
    return us
