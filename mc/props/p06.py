"""P06  train_agent / train_agent_with_evaluation drive environment, agent,
hooks, checkpoints and evaluations exactly as documented, for every
environment behaviour, schedule and failure point.

The real loops run on a scripted environment (outcomes enumerated lazily) and
a recording agent; the call log is checked against an independent automaton.
"""
import itertools
import os

from mc.core import explore
from mc.stubs import Fault, Log, RecAgent, ScriptEnv

RULE = (
    "one case per (configuration, environment script, fault point); non-trivial "
    "outcomes = distinct complete call logs"
)
BOUNDS = {
    "quick": "step budgets up to 5; per step all of {continue, done, needs_reset, both}; episode limit "
    "None,1,2,3; checkpoint_freq None,1,2,3; step_offset 0..4; eval_interval 1,2,3,4; "
    "evaluation by episodes or steps, same or separate evaluation env, during episodes or not; "
    "success thresholds; evaluation scores from {-1,0,1}; a failure (Exception and KeyboardInterrupt) at every "
    "call of env/agent/hook/save/evaluation",
    "thorough": "step budgets up to 7",
}
OUTS = [(False, False), (True, False), (False, True), (True, True)]
OUTS2 = [(False, False), (True, False), (False, True)]


class EvHook(object):
    support_train_agent = True
    support_train_agent_batch = True
    support_train_agent_async = True

    def __init__(self, log):
        self.log = log

    def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
        self.log.add("ehook", step, eval_stats["mean"], agent.training)


def run_case(rec, ctx, cfg, fault=None, outs=OUTS, scores=(0.0,)):
    from pfrl import experiments as ex

    log = Log(fault)
    outdir = os.path.join(rec.scratch, "out")
    os.makedirs(outdir, exist_ok=True)
    agent = RecAgent(log, outdir, with_t=cfg.get("with_t", False))
    script = []

    def outcome(phase, ep, k):
        if phase == "E":
            # evaluation episodes last `eval_len` steps; score of the phase is
            # picked at the first step of the episode
            if k == 0:
                outcome.s = ctx.pick(scores, "score")
            d = k + 1 >= cfg.get("eval_len", 2)
            return (outcome.s if k == 0 else 0.0), d, False
        d, n = ctx.pick(outs, "outcome")
        script.append((d, n))
        return float(len(script)), d, n

    env = ScriptEnv(log, outcome, "T")
    env.agent = agent
    hooks = [
        lambda e, a, t, i=i: log.add("hook", i, t, e is env, a is agent)
        for i in range(cfg.get("hooks", 1))
    ]
    kw = dict(
        checkpoint_freq=cfg.get("ckpt"),
        step_offset=cfg.get("offset", 0),
        step_hooks=hooks,
    )
    hist = None
    raised = None
    try:
        if cfg.get("eval") is None:
            hist = ex.train_agent(
                agent, env, cfg["steps"], outdir, max_episode_len=cfg.get("mel"), **kw
            )
        else:
            ev = cfg["eval"]
            eenv = env
            if ev["sep"]:
                eenv = ScriptEnv(log, outcome, "V")
                eenv.agent = agent
            ret = ex.train_agent_with_evaluation(
                agent=agent,
                env=env,
                steps=cfg["steps"],
                eval_n_steps=ev.get("n_steps"),
                eval_n_episodes=ev.get("n_ep"),
                eval_interval=ev["interval"],
                outdir=outdir,
                train_max_episode_len=cfg.get("mel"),
                eval_max_episode_len=ev.get("mel"),
                eval_env=eenv if ev["sep"] else None,
                successful_score=ev.get("succ"),
                evaluation_hooks=[EvHook(log)],
                save_best_so_far_agent=ev.get("best", True),
                eval_during_episode=ev.get("during", False),
                **kw,
            )
            rec.check(ret[0] is agent, "train_agent_with_evaluation did not return the agent")
            hist = ret[1]
    except (Fault, KeyboardInterrupt) as e:
        raised = e
    rec.step(len(script))
    judge(rec, cfg, log, script, hist, raised, fault, agent, outdir)
    rec.state((tuple(script), agent.nact, tuple(sorted(log.seen.items()))))
    rec.outcome(tuple(log))
    return log


def rows(outdir):
    with open(os.path.join(outdir, "scores.txt")) as f:
        lines = [ln.rstrip("\n").split("\t") for ln in f]
    return lines[0], [dict(zip(lines[0], ln)) for ln in lines[1:]]


def judge(rec, cfg, log, script, hist, raised, fault, agent, outdir):
    steps, off = cfg["steps"], cfg.get("offset", 0)
    mel, ckpt = cfg.get("mel"), cfg.get("ckpt")
    nh = cfg.get("hooks", 1)
    ev = cfg.get("eval")
    it = iter(range(len(log)))
    pos = [0]

    def peek():
        return log[pos[0]] if pos[0] < len(log) else None

    def take():
        e = log[pos[0]]
        pos[0] += 1
        return e

    end_of_log = object()
    t = off
    ep_len = 0
    episodes = 0
    prev = off
    best = None
    want_hist = []
    want_rows = []
    finished = False
    ended_by_fault = fault is not None and log.fired
    rec.eq(agent.training, True, "agent.training after training")
    if cfg.get("with_t"):
        rec.eq(agent.t, off, "agent.t set to the step offset")

    def cut():
        """True when the fault ended the log here."""
        if ended_by_fault and log[pos[0] - 1][0] == fault[0]:
            n = sum(1 for e in log[: pos[0]] if e[0] == fault[0])
            return n == fault[1]
        return False

    def except_tail():
        if raised is not fault[2]:
            rec.fail("the exception was swallowed or replaced: %r" % (raised,))
        tail = log[pos[0]:]
        rec.eq(
            [e[:3] for e in tail if e[0] == "save"],
            [("save", "%d_except" % t, agent.version)],
            "saves after a failure in %s at step %d" % (fault[0], t),
        )
        rec.eq([e for e in tail if e[0] != "save"], [], "activity after a failure")

    e = take()
    rec.eq(e[0], "Treset", "first call")
    cur = e[1]
    if cut():
        return  # failure of the very first reset, before training starts
    stop = t >= steps
    while not stop:
        e = take()
        rec.eq(e[:2], ("act", cur), "training step %d: agent acts on the current observation" % t)
        action = e[2]
        if cut():
            return except_tail()
        e = take()
        rec.eq(e, ("Tstep", action, cur, False), "training step %d: env.step" % t)
        if cut():
            return except_tail()
        t += 1
        ep_len += 1
        d, n = script[t - off - 1]
        cur = (cur[0], cur[1], cur[2] + 1)
        reset = bool(n or ep_len == mel)
        e = take()
        rec.eq(
            e,
            ("observe", cur, float(t - off), d, reset),
            "training step %d: agent observes the consequence" % t,
        )
        if cut():
            return except_tail()
        end = d or reset or t == steps
        if end:
            episodes += 1
        # ---- everything up to the next act
        window = []
        did_reset = False
        evald = None
        hook_seen = []
        saves = []
        in_eval = []
        reset_pos = eval_pos = None
        faulted = False
        while peek() is not None and peek()[0] != "act":
            e = take()
            if e[0] == "hook":
                hook_seen.append(e[1:])
            elif e[0] == "save":
                saves.append(e)
            elif e[0] == "Treset":
                rec.check(not did_reset, "training env reset twice after step %d" % t)
                did_reset = True
                reset_pos = pos[0]
                cur = e[1]
            elif e[0] in ("Ereset", "Estep", "Eact", "Eobserve"):
                in_eval.append(e)
                eval_pos = pos[0]
            elif e[0] == "ehook":
                rec.check(evald is None, "two evaluations after step %d" % t)
                evald = e
                eval_pos = pos[0]
            else:
                rec.fail("unexpected %r after step %d" % (e, t))
            if cut():
                faulted = True
                break
        want_hooks = [(i, t, True, True) for i in range(nh)]
        need_eval = ev is not None and (end or ev.get("during")) and (
            t // ev["interval"] > prev // ev["interval"]
        )
        if faulted:
            rec.eq(hook_seen, want_hooks[: len(hook_seen)], "hooks at step %d" % t)
            if in_eval:
                rec.check(need_eval, "evaluation at step %d not due" % t)
            if log[pos[0] - 1][0] == "save" and log[pos[0] - 1][1].endswith("_finish"):
                rec.check(raised is fault[2], "failure of the final save swallowed")
                return
            return except_tail()
        rec.eq(hook_seen, want_hooks, "hooks at step %d" % t)
        rec.eq(bool(in_eval), need_eval, "evaluation after step %d (last evaluated %d)" % (t, prev))
        stop = t == steps
        want_saves = set()
        if need_eval:
            score = evald[2]
            rec.eq(evald[1], t, "step reported for the evaluation")
            exp_score, ok = judge_eval(rec, ev, cfg, in_eval)
            rec.eq(score, exp_score, "evaluation score at step %d" % t)
            prev = t
            want_hist.append({"version": t - off, "eval_score": score})
            want_rows.append((t, episodes, score))
            if best is None or score > best:
                best = score
                if ev.get("best", True):
                    want_saves.add("best")
        if ev is not None and ev.get("succ") is not None and best is not None and best >= ev["succ"]:
            stop = True
        if not stop and ckpt and t % ckpt == 0:
            want_saves.add("%d_checkpoint" % t)
        if stop:
            want_saves.add("%d_finish" % t)
        names = [s[1] for s in saves]
        if stop and ckpt and t % ckpt == 0 and "%d_checkpoint" % t in names:
            names.remove("%d_checkpoint" % t)
        rec.eq(sorted(names), sorted(want_saves), "agents saved at step %d" % t)
        for s in saves:
            rec.eq(s[2], t - off, "%s holds the agent after step %d" % (s[1], t))
        if stop:
            rec.check("%d_finish" % t == saves[-1][1], "final save is not the last save")
        rec.eq(did_reset, end and not stop, "training env reset after step %d" % t)
        if did_reset:
            ep_len = 0
            if eval_pos is not None:
                rec.check(reset_pos > eval_pos, "training env was reset before the evaluation on the same env")
    rec.check(raised is None, "train_agent raised %r" % (raised,))
    if off >= steps:
        rec.eq([e[:2] for e in log[pos[0]:]], [("save", "%d_finish" % off)], "no training left to do")
    else:
        rec.eq(log[pos[0]:], [], "activity after training")
    rec.eq(hist, want_hist, "evaluation history")
    if ev is not None:
        head, rs = rows(outdir)
        rec.eq(
            [(int(r["steps"]), int(r["episodes"]), float(r["mean"])) for r in rs],
            want_rows,
            "scores.txt",
        )


def judge_eval(rec, ev, cfg, events):
    """Evaluation phase: protocol and score, from the environment's own log."""
    mel = ev.get("mel") if ev.get("mel") is not None else cfg.get("mel")
    L = cfg.get("eval_len", 2)
    n_ep, n_st = ev.get("n_ep"), ev.get("n_steps")
    rets = []
    i = 0
    total = 0
    done = False
    while not done:
        e = events[i]
        rec.eq(e[0], "Ereset", "evaluation starts an episode with a reset")
        cur = e[1]
        i += 1
        ret = 0.0
        k = 0
        while True:
            rec.eq(events[i][:2], ("Eact", cur), "evaluation acts on the current observation")
            a = events[i][2]
            rec.eq(events[i + 1], ("Estep", a, cur, False), "evaluation steps the env")
            cur = (cur[0], cur[1], cur[2] + 1)
            o = events[i + 2]
            d = k + 1 >= L
            ret += o[2]
            k += 1
            total += 1
            over = d or k == mel
            if n_ep is not None:
                done = over and len(rets) + 1 >= n_ep
            else:
                done = total >= n_st
            rec.eq(o, ("Eobserve", cur, o[2], d, over or done), "evaluation observes")
            i += 3
            if over:
                rets.append(ret)
            if over or done:
                break
        if done and not rets:
            rets.append(ret)
    rec.eq(events[i:], [], "evaluation continued after its budget")
    return sum(rets) / len(rets), True


def unit_plain(rec, steps, mel, ckpts, offs):
    for ckpt in ckpts:
        for off in offs:
            cfg = dict(steps=steps, mel=mel, ckpt=ckpt, offset=off, hooks=2, with_t=off % 2 == 1)

            def go(ctx):
                rec.begin({"cfg": cfg, "choices": ctx.prefix})
                run_case(rec, ctx, cfg)

            explore(go, rec)


def eval_cfgs(steps, tier):
    for interval in (1, 2, 3, 4):
        for off in (0, 1, 3):
            if off >= steps:
                continue
            for sep, during in ((False, False), (True, False), (True, True)):
                for mel in (None, 2):
                    for kind in ("ep1", "ep2", "st3"):
                        ev = dict(interval=interval, sep=sep, during=during)
                        ev.update({"ep1": {"n_ep": 1}, "ep2": {"n_ep": 2}, "st3": {"n_steps": 3}}[kind])
                        yield dict(steps=steps, offset=off, mel=mel, ckpt=2, eval=ev, eval_len=2)


def unit_eval(rec, steps, part, nparts, tier):
    for i, cfg in enumerate(eval_cfgs(steps, tier)):
        if i % nparts != part:
            continue

        def go(ctx):
            rec.begin({"cfg": cfg, "choices": ctx.prefix})
            run_case(rec, ctx, cfg, outs=OUTS2)

        explore(go, rec)


def unit_score(rec, steps, succ, interval, mel):
    """Success threshold / best agent: all score sequences."""
    for best in (True, False):
        for emel in (None, 1):
            for during in (False, True):
                for nst in ((None, 2) if interval > 1 else (None,)):
                    ev = dict(interval=interval, sep=True, during=during, n_ep=None if nst else 1,
                              n_steps=nst, succ=succ, best=best, mel=emel)
                    cfg = dict(steps=steps, mel=mel, ckpt=3, eval=ev, eval_len=2 if emel else 1, hooks=0)

                    def go(ctx):
                        rec.begin({"cfg": cfg, "choices": ctx.prefix})
                        run_case(rec, ctx, cfg, outs=OUTS2[:2], scores=(0.0, 1.0, -1.0))

                    explore(go, rec)


FAULT_KINDS = ["Treset", "Tstep", "act", "observe", "hook", "save", "Ereset", "Estep", "Eact", "Eobserve", "ehook"]


def unit_fault(rec, steps, kind, exc):
    for during in (False, True):
        for off in (0, 2):
            for succ in (None, 1.0):
                ev = dict(interval=2, sep=during, during=during, n_ep=1, succ=succ)
                cfg = dict(steps=steps, offset=off, mel=3, ckpt=1 if succ is None else 2, eval=ev, eval_len=1, hooks=2)
                for n in range(1, 2 * steps + 3):
                    hit = [False]

                    def go(ctx):
                        rec.begin({"cfg": cfg, "fault": (kind, n, exc), "choices": ctx.prefix})
                        e = KeyboardInterrupt("k") if exc == "ki" else Fault("f")
                        log = run_case(rec, ctx, cfg, fault=(kind, n, e), outs=OUTS2)
                        hit[0] = hit[0] or log.fired

                    explore(go, rec)
                    if not hit[0]:
                        break


def units(tier):
    T = tier == "thorough"
    us = []
    for steps in range(1, 6 if not T else 8):
        for mel in (None, 1, 2, 3):
            if steps > 5 and mel == 1:
                continue
            cks = (None, 1, 2, 3)
            offs = tuple(o for o in (0, 1, 2, 3, 4) if o < steps) if steps <= 5 else (0, 3)
            if steps == 5:
                for ck in cks:
                    us.append(("plain-%d-%s-%s" % (steps, mel, ck), unit_plain, steps, mel, (ck,), offs))
            else:
                us.append(("plain-%d-%s" % (steps, mel), unit_plain, steps, mel, cks, offs))
    us.append(("plain-none-left", unit_plain, 3, None, (None, 3), (3, 4)))
    for steps in (3, 4, 5) if not T else (3, 4, 5, 6):
        np_ = 2 if steps < 4 else 8
        for part in range(np_):
            us.append(("eval-%d-%d" % (steps, part), unit_eval, steps, part, np_, tier))
    for succ in (None, 0.0, 1.0, 0.5):
        for interval in (1, 2, 3):
            for mel in (None, 2):
                us.append(("score-%s-%d-%s" % (succ, interval, mel), unit_score, 4 if not T else (6 if interval > 1 else 5), succ, interval, mel))
    for kind in FAULT_KINDS:
        for exc in ("exc", "ki"):
            us.append(("fault-%s-%s" % (kind, exc), unit_fault, 4 if not T else 5, kind, exc))
    us.sort(key=lambda u: -len(u[0]))
    return us
