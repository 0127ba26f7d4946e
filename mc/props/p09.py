"""P09  asynchronous training under every bounded schedule.

train_agent_async runs with its processes, shared values, locks and events
replaced by controlled ones (mc.sched); all schedules with at most B
preemptions are executed and the joint log is checked.
"""
import contextlib
import os
import sys
import warnings

from mc import sched as SC
from mc.core import explore
from mc.stubs import Fault, Log, RecAgent, ScriptEnv, tb_rows, tensorboard

RULE = "one case per schedule (preemption-bounded) of a configuration; non-trivial outcomes = distinct joint event orders"
BOUNDS = {
    "quick": "2 workers x 3 global steps (all shared-memory accesses, locks, events, hooks, saves and evaluation steps are "
    "scheduling points) with <=2 preemptions; 3 workers <=1 preemption; step offsets; success threshold; external stop; failures of one worker at every call",
    "thorough": "2 workers <=3 preemptions (without success/stop/exception events), 3 workers <=2 preemptions",
}
ASSUMPTIONS = [
    "processes are modelled by threads that share nothing but what the code shares explicitly "
    "(multiprocessing values, locks, events); each access to a shared value is atomic and sequentially consistent",
    "scores.txt rows are appended by one small write each",
]


_NETS = {}


def nets(i):
    """Modules are reused between executions (creating them is slow)."""
    import torch

    if i not in _NETS:
        net = torch.nn.Linear(1, 1)
        _NETS[i] = (net, torch.optim.Adam(net.parameters(), 0.1))
        net(torch.zeros(1, 1)).sum().backward()
        _NETS[i][1].step()
    return _NETS[i]


class AsyncStub(RecAgent):
    shared_attributes = ("net", "opt")
    process_idx = None

    def __init__(self, log, outdir, widx, scores):
        super().__init__(log, outdir)
        self.w = widx
        self.last_score = None
        self.net, self.opt = nets(widx)

    def act(self, obs):
        return (self.w,) + super().act(obs)

    def save(self, dirname):
        SC.S() and SC.S().point("save")
        name = os.path.relpath(dirname, self.outdir)
        self.log.add("save", name, self.w, self.last_score)


class WLog(Log):
    """Log tagging each event with the worker that caused it."""

    def __init__(self, fault=None):
        super().__init__(fault)
        self.who = lambda: None

    def add(self, *ev):
        w = self.who()
        self.append((w,) + ev)
        k = (w, ev[0])
        self.seen[k] = self.seen.get(k, 0) + 1
        if self.fault and not self.fired:
            fw, kind, n, exc = self.fault
            if (fw, kind) == k and self.seen[k] == n:
                self.fired = True
                raise exc


def run_case(rec, ctx, cfg, fault=None, collect=None):
    from pfrl.experiments import evaluator as E
    from pfrl.experiments import train_agent_async as M  # noqa (function or module)

    train = sys.modules["pfrl.experiments.train_agent_async"].train_agent_async
    log = WLog(fault)
    outdir = os.path.join(rec.scratch, "out")
    os.makedirs(outdir, exist_ok=True)
    sc = os.path.join(outdir, "scores.txt")
    if os.path.exists(sc):
        os.unlink(sc)
    s = SC.Sched(ctx)
    W = cfg["w"]
    ident = {}

    def who():
        t = s.me()
        return ident.get(t)

    log.who = who
    envs, agents = [], {}
    script = cfg.get("script", "end")
    evno = [0] * W

    def make_env(process_idx, test):
        ident[s.me()] = process_idx
        w = process_idx

        def outcome(phase, ep, k):
            if test:
                if k == 0:
                    v = cfg["scores"][w][min(evno[w], len(cfg["scores"][w]) - 1)]
                    evno[w] += 1
                    agents[w].last_score = v
                    s.point("evalstep")
                    return v, True, False
                return 0.0, True, False
            if script == "end":
                return 1.0, True, False
            if script == "long":
                return 1.0, False, False
            if script == "alt":
                return 1.0, k == 1, k == 0 and ep % 2 == 1
            if script == "nr":
                return 1.0, False, True
            raise AssertionError

        e = ScriptEnv(log, outcome, "V" if test else "T")
        e.agent = None
        orig_phase = "E" if test else "T"
        e._phase = lambda: orig_phase
        envs.append((process_idx, test, e))
        return e

    def make_agent(process_idx):
        a = AsyncStub(log, outdir, "main" if s.me() is s.main else process_idx, None)
        a.w = process_idx
        if s.me() is s.main:
            agents["main"] = a
        else:
            agents[process_idx] = a
        return a

    def hook(env, agent, t):
        s.point("hook")
        log.add("hook", t)

    orig = E.AsyncEvaluator.evaluate_if_necessary

    def wrapped(self, t, episodes, env, agent):
        log.add("evcall", t)
        r = orig(self, t=t, episodes=episodes, env=env, agent=agent)
        log.append((who(), "evret", t, r))
        return r

    killed = []

    def fake_killpg(pgid, sig):
        killed.append(who())

    kw = dict(cfg.get("kw", {}))
    stop_event = exc_event = None
    ret = None
    warned = []
    real_killpg = os.killpg
    tb = tensorboard() if cfg.get("tb") else contextlib.nullcontext([])
    if cfg.get("tb"):
        kw["use_tensorboard"] = True
    with tb as made, SC.patched(s), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        E.AsyncEvaluator.evaluate_if_necessary = wrapped
        os.killpg = fake_killpg
        try:
            import multiprocessing as mp

            stop_event = mp.Event()
            stop_event.on_set = lambda: log.append((who(), "stop_set"))
            if cfg.get("exc_event"):
                exc_event = mp.Event()
                exc_event.on_set = lambda: log.append((who(), "exc_set"))
            if cfg.get("stopper"):
                # an outside party stops the training at any moment
                s.spawn(stop_event.set, "stopper")
            if cfg.get("exc_event"):
                s.spawn(exc_event.set, "excsetter")
            import random

            import numpy as np
            import torch

            ret = train(
                outdir,
                W,
                make_env,
                steps=cfg["steps"],
                eval_interval=cfg.get("interval"),
                eval_n_steps=None,
                eval_n_episodes=1,
                max_episode_len=cfg.get("mel"),
                step_offset=cfg.get("offset", 0),
                successful_score=cfg.get("succ"),
                make_agent=make_agent,
                global_step_hooks=[hook],
                stop_event=stop_event,
                exception_event=exc_event,
                **kw,
            )
        finally:
            E.AsyncEvaluator.evaluate_if_necessary = orig
            os.killpg = real_killpg
    warned = [w for w in ws if w.category.__name__ == "AbnormalExitWarning"]
    rec.step(s.points)
    judge(rec, cfg, log, envs, agents, outdir, fault, ret, warned, killed, stop_event)
    if cfg.get("tb"):
        # one complete, flushed record per evaluation, whenever training stops
        done = [(e[2], e[3]) for e in log if e[1] == "evret" and e[3] is not None]
        want = sorted(r for t, m in done for r in tb_rows(t, [m], [("version", None)], []) if r[1] != "agent/version")
        got = [r for w in made for r in w.flushed if r[1] != "agent/version"]
        rec.eq([w.log_dir for w in made], [outdir], "tensorboard writers")
        if fault is None or not log.fired:
            rec.eq(sorted(got), want, "tensorboard records")
        else:
            rec.check(all(x in got for x in want), "tensorboard records missing")
        rec.eq(sum(1 for w in made for r in w.flushed if r[1] == "agent/version"), len(got) // 7, "agent statistics in tensorboard")
    rec.outcome(tuple((e[0], e[1]) for e in log))
    rec.state(tuple((e[0], e[1], e[2] if e[1] in ("hook", "save", "evcall") else None) for e in log))


def judge(rec, cfg, log, envs, agents, outdir, fault, ret, warned, killed, stop_event):
    W, steps, off = cfg["w"], cfg["steps"], cfg.get("offset", 0)
    I = cfg.get("interval")
    fired = fault is not None and log.fired
    fw = fault[0] if fired else None
    ts = [e[2] for e in log if e[1] == "hook"]
    nsteps = sum(1 for e in log if e[1] == "observe")
    T = max(ts) if ts else off
    # ---- every step gets its own global step number, consecutive from the offset
    rec.check(len(set(ts)) == len(ts), "duplicate global steps %r" % sorted(ts))
    lost = set(range(off + 1, T + 1)) - set(ts)
    if not fired:
        rec.eq(lost, set(), "global steps never reported")
    else:
        rec.check(len(lost) <= 1, "global steps lost: %r" % lost)
    stopped = any(e[1] == "stop_set" and e[0] is not None for e in log) or cfg.get("stopper")
    if not stopped and not killed and not (fired and W == 1):
        rec.check(T >= steps, "training ended after %d of %d steps" % (T, steps))
    rec.check(T < steps + W or off >= steps, "more than one step per worker beyond the budget: %d" % T)
    # ---- per worker protocol
    for w in range(W):
        mine = [e for e in log if e[0] == w]
        cur = None
        k = 0
        pend = None
        after_end = False
        for e in mine:
            kind = e[1]
            if kind == "Treset":
                rec.check(cur is None or after_end, "worker %d reset its env inside an episode" % w)
                cur = e[2]
                k = 0
                after_end = False
            elif kind == "act":
                rec.check(not after_end, "worker %d acts after the episode end without a reset" % w)
                rec.eq(e[2], cur, "worker %d acts on current observation" % w)
                pend = (w,) + e[3]
            elif kind == "Tstep":
                rec.eq(e[2:], (pend, cur, False), "worker %d steps" % w)
                cur = (cur[0], cur[1], cur[2] + 1)
                k += 1
            elif kind == "observe":
                d, nr = {"end": (True, False), "long": (False, False), "nr": (False, True),
                         "alt": (k == 2, k == 1 and cur[1] % 2 == 1)}[cfg.get("script", "end")]
                reset = nr or k == cfg.get("mel")
                rec.eq(e[2:], (cur, 1.0, d, reset), "worker %d observes" % w)
                after_end = d or reset
        if not (fired and fw == w) and w not in killed:
            e0 = [x for x in envs if x[0] == w]
            rec.check(e0 and all(x[2].closed for x in e0), "worker %d did not close its environments" % w)
    # ---- shared attributes
    if W and "main" in agents:
        rec.check(ret is agents["main"], "train_agent_async does not return the agent")
        for w in range(W):
            if w in agents:
                rec.check(agents[w].net is agents["main"].net and agents[w].opt is agents["main"].opt, "worker %d does not share the attributes" % w)
                rec.eq(agents[w].process_idx, w, "process_idx")
        rec.check(all(p.is_shared() for p in agents["main"].net.parameters()), "parameters not in shared memory")
    # ---- saves
    saves = [e for e in log if e[1] == "save"]
    fin = [e for e in saves if e[2].endswith("_finish")]
    reached = {e[2]: e[0] for e in log if e[1] == "hook"}
    if steps in reached and not (fired and reached[steps] == fw) and not killed:
        # the worker that made step number `steps` saves the final agent unless it stops by success at that step
        rec.eq([(e[0], e[2]) for e in fin], [(reached[steps], "%d_finish" % steps)], "final agents saved")
    else:
        rec.check(len(fin) <= 1 and all(e[2] == "%d_finish" % steps for e in fin), "final agents saved: %r" % fin)
    exc_saves = [e for e in saves if e[2].endswith("_except")]
    if fired:
        if fw == 0 and fault[1] not in ("save",):
            rec.eq([e[0] for e in exc_saves], [0], "workers saving after the failure of worker 0")
            if fault[1] not in ("observe", "hook"):
                my = [e[2] for e in log if e[0] == 0 and e[1] == "hook"]
                rec.eq(exc_saves[0][2], "%d_except" % (my[-1] if my else 0), "step of the saved agent")
        elif fw != 0:
            rec.eq([e for e in exc_saves if not killed], [], "agents saved after the failure of another worker")
        rec.eq(len(warned), 1, "warnings about abnormally exited workers")
    elif killed:
        rec.eq(killed, [0], "worker 0 kills the group when an exception is signalled")
        rec.eq([e[0] for e in exc_saves], [0], "worker 0 saves the agent before exiting")
    else:
        rec.eq(exc_saves, [], "agents saved as failed")
        rec.eq(len(warned), 0, "abnormal exit warnings")
    # ---- evaluations
    if I is not None:
        claims = []
        calls = []
        open_ = {}
        for i, e in enumerate(log):
            if e[1] == "evcall":
                open_[e[0]] = i
                calls.append([e[0], e[2], i, None, None])
            elif e[1] == "evret":
                for c in calls:
                    if c[2] == open_[e[0]]:
                        c[3], c[4] = i, e[3]
        b0 = off // I
        done = [c for c in calls if c[4] is not None]
        unfinished = [c for c in calls if c[3] is None]
        tsd = sorted(c[1] for c in done)
        for k, t in enumerate(tsd):
            rec.check(t >= (b0 + k + 1) * I, "evaluations %r exceed one per %d steps (offset %d)" % (tsd, I, off))
        for c in calls:
            if c[3] is not None and c[4] is None:
                n = sum(1 for d in calls if (d[4] is not None or d[3] is None) and d[2] < c[3])
                rec.check(n >= c[1] // I - b0, "an evaluation due at step %d did not happen" % c[1])
        with open(os.path.join(outdir, "scores.txt")) as f:
            lines = [ln.rstrip("\n").split("\t") for ln in f]
        if done or lines:
            rec.eq(lines[0][:4], ["steps", "episodes", "elapsed", "mean"], "first line of scores.txt")
            rows = sorted((int(r[0]), float(r[3])) for r in lines[1:])
            exp = sorted((c[1], float(c[4])) for c in done)
            if not fired:
                rec.eq(rows, exp, "rows of scores.txt")
            else:
                rec.check(all(x in rows for x in exp), "rows of scores.txt")
        best = [e for e in saves if e[2] == "best"]
        sc = [e[4] for e in best]
        rec.check(all(a < b for a, b in zip(sc, sc[1:])), "best agents saved with scores %r" % sc)
        if done and not fired and cfg.get("kw", {}).get("save_best_so_far_agent", True):
            rec.eq(sc[-1], max(c[4] for c in done), "score of the agent saved as best")
        # ---- success
        succ = cfg.get("succ")
        ok = [c for c in done if succ is not None and c[4] >= succ]
        suc_saves = [e for e in saves if e[2] == "successful"]
        if not fired:
            rec.eq(sorted(e[0] for e in suc_saves), sorted(c[0] for c in ok), "agents saved as successful")
        if ok and not fired:
            rec.check(all(e[4] >= succ for e in suc_saves), "successful agent has score %r" % suc_saves)
    # ---- everybody stops promptly
    pos = [i for i, e in enumerate(log) if e[1] == "stop_set"]
    if pos:
        for w in range(W):
            late = sum(1 for e in log[pos[0]:] if e[0] == w and e[1] == "act")
            rec.check(late <= 1, "worker %d took %d steps after training was stopped" % (w, late))
    rec.check(stop_event.flag, "stop_event not set at the end")


def unit(rec, cfg, bound, first=None, fault=None):
    def go(ctx):
        rec.begin({"cfg": cfg, "fault": None if not fault else fault[:3], "schedule": ctx.prefix})
        f = None
        if fault:
            f = fault[:3] + ((KeyboardInterrupt("k") if fault[3] == "ki" else Fault("f")),)
        run_case(rec, ctx, cfg, fault=f)

    n = explore(go, rec, bound=bound)
    rec.note("schedules", n)


def unit_shared(rec, kind, bound):
    """make_agent + shared memory with real A3C/ACER agents: every worker acts
    with parameters the shared model has (had), from its first step on."""
    import numpy as np
    import torch

    import pfrl
    from mc import agents as AG

    train = sys.modules["pfrl.experiments.train_agent_async"].train_agent_async
    outdir = os.path.join(rec.scratch, "shared")
    os.makedirs(outdir, exist_ok=True)

    def go(ctx):
        rec.begin({"shared memory": kind, "schedule": ctx.prefix})
        hist, bad, made = [], [], []
        S = SC.Sched(ctx)

        def make_agent(i):
            def lin():
                return torch.nn.Linear(1, 2)

            pi = torch.nn.Sequential(lin(), pfrl.policies.SoftmaxCategoricalHead())
            if kind == "a3c":
                m = pfrl.nn.Branched(pi, torch.nn.Linear(1, 1))
            else:
                m = pfrl.agents.acer.ACERDiscreteActionHead(pi, torch.nn.Sequential(lin(), pfrl.q_functions.DiscreteActionValueHead()))
            AG.init(m, 10 + len(made))

            class Opt(torch.optim.SGD):
                def step(self, *a, **k):
                    r = super().step(*a, **k)
                    hist.append(AG.flat(m))
                    return r

            opt = Opt(m.parameters(), lr=0.1)
            if kind == "a3c":
                ag = pfrl.agents.A3C(m, opt, t_max=1, gamma=0.9)
            else:
                ag = pfrl.agents.ACER(m, opt, t_max=1, gamma=0.9, replay_buffer=None)
            if not made:
                hist.append(AG.flat(m))
            made.append(ag)
            act = ag.act

            def checked(obs):
                v = AG.flat(ag.model)
                if not any(np.array_equal(v, h) for h in hist):
                    bad.append((i, v.tolist()))
                return act(obs)

            ag.act = checked
            return ag

        def make_env(i, test):
            class Env(object):
                k = 0

                def reset(self):
                    self.k = 0
                    return np.array([0.5], dtype=np.float32)

                def step(self, a):
                    self.k += 1
                    return np.array([0.5 - self.k], dtype=np.float32), 1.0, self.k >= 2, {}

                def close(self):
                    pass

            return Env()

        with SC.patched(S), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            ret = train(outdir, 2, make_env, steps=3, eval_interval=None, make_agent=make_agent, use_shared_memory=True)
        rec.check(not [w for w in ws if "exited" in str(w.message) or "terminated" in str(w.message)], "a worker failed: %s" % [str(w.message) for w in ws][:2])
        for a in made:
            rec.check(all(getattr(a, k) is getattr(ret, k) for k in ret.shared_attributes), "shared attributes")
        rec.check(not bad, "worker %s acts with parameters the shared model never had" % [b[0] for b in bad])
        rec.step(S.points)
        rec.outcome((kind, len(hist)))
        rec.state((kind, tuple(S.trace)))

    explore(go, rec, bound=bound)


def unit_real(rec, w, steps, interval, script):
    """Conformance of the controlled primitives: the same invariants on real
    processes (one schedule, whatever the OS picks)."""
    import pfrl.experiments.evaluator as E

    train = sys.modules["pfrl.experiments.train_agent_async"].train_agent_async
    rec.begin({"real processes": w, "steps": steps})
    outdir = os.path.join(rec.scratch, "real")
    os.makedirs(outdir, exist_ok=True)
    logf = os.path.join(outdir, "log")

    def put(*x):
        fd = os.open(logf, os.O_APPEND | os.O_CREAT | os.O_WRONLY)
        os.write(fd, (repr(x) + "\n").encode())
        os.close(fd)

    class A(AsyncStub):
        def save(self, dirname):
            put("save", os.path.relpath(dirname, outdir), self.process_idx)

    def make_env(i, test):
        return ScriptEnv(Log(), lambda ph, ep, k: (1.0, script == "end" or k >= 2, False), "V" if test else "T")

    import pfrl  # noqa

    train(
        outdir, w, make_env, steps=steps, eval_interval=interval, eval_n_steps=None, eval_n_episodes=1,
        make_agent=lambda i: A(Log(), outdir, i, None), global_step_hooks=[lambda e, a, t: put("hook", t)],
    )
    ev = [eval(x) for x in open(logf)]
    ts = sorted(e[1] for e in ev if e[0] == "hook")
    rec.eq(ts, list(range(1, len(ts) + 1)), "global steps of real processes")
    rec.check(steps <= len(ts) < steps + w, "number of steps of real processes")
    rec.eq([e[1] for e in ev if e[0] == "save" and "finish" in e[1]], ["%d_finish" % steps], "final agents (real processes)")
    lines = open(os.path.join(outdir, "scores.txt")).read().split("\n")
    rec.check(lines[0].startswith("steps\tepisodes"), "header (real processes)")
    rec.check(1 <= len(lines) - 2 <= len(ts) // interval, "rows (real processes)")
    rec.step(len(ts))
    rec.outcome(("real", w, steps, len(ts)))
    rec.state(("real", w, steps))


def units(tier):
    T = tier == "thorough"
    b2, b3 = (3, 2) if T else (2, 1)
    us = []

    def add(name, cfg, bound):
        us.append((name, unit, cfg, bound))

    S1 = [[1.0, 0.0, 2.0], [0.0, 3.0, 1.0], [2.0, 1.0, 0.0]]
    for script in ("end", "long", "alt", "nr"):
        add("noeval-2-%s" % script, dict(w=2, steps=3, script=script), b2)
    add("mel-2", dict(w=2, steps=4, script="long", mel=2), 2)
    add("eval1-2", dict(w=2, steps=3, script="end", interval=1, scores=S1), b2)
    add("eval1-2-asc", dict(w=2, steps=2, script="end", interval=1, scores=[[0.0, 1.0], [2.0, 3.0]]), b2)
    add("eval2-2", dict(w=2, steps=4, script="end", interval=2, scores=S1), 2)
    add("eval2-2-off", dict(w=2, steps=5, offset=3, script="end", interval=2, scores=S1), b2)
    add("eval3-2-off2", dict(w=2, steps=6, offset=2, script="alt", interval=3, scores=S1), 2)
    add("eval2-2-long", dict(w=2, steps=3, script="long", interval=2, scores=S1), 2)
    add("evalbig", dict(w=2, steps=3, script="end", interval=10, scores=S1), 1)
    add("nobest", dict(w=2, steps=3, script="end", interval=1, scores=S1, kw={"save_best_so_far_agent": False}), 1)
    add("close-scores", dict(w=2, steps=3, script="end", interval=1, scores=[[1.0, 1.0 + 2.0**-40], [1.0 + 2.0**-30, 1.0]]), 2 if T else 1)
    add("succ", dict(w=2, steps=4, script="end", interval=1, scores=[[0.0, 5.0], [0.0, 0.0, 5.0]], succ=5.0), 2)
    add("succ-long", dict(w=2, steps=4, script="alt", interval=2, scores=[[5.0], [5.0]], succ=5.0), 2)
    add("stopper", dict(w=2, steps=3, script="long", stopper=True), 2)
    add("stopper-end", dict(w=2, steps=4, script="end", stopper=True, interval=2, scores=S1), 2 if T else 1)
    add("excevent", dict(w=2, steps=4, script="long", exc_event=True), 2)
    add("w3", dict(w=3, steps=4, script="end", interval=2, scores=S1), b3)
    add("w3-noeval", dict(w=3, steps=4, script="alt"), b3)
    add("w1", dict(w=1, steps=3, script="alt", interval=1, scores=S1), b2)
    add("w1-off", dict(w=1, steps=3, offset=1, script="end", interval=2, scores=S1), 2)
    add("tb", dict(w=2, steps=3, script="end", interval=1, scores=S1, tb=True), 2 if T else 1)
    add("tb-w1", dict(w=1, steps=3, script="alt", interval=1, scores=S1, tb=True), 2 if T else 1)
    add("tb-succ", dict(w=2, steps=4, script="end", interval=1, scores=[[0.0, 5.0], [0.0, 0.0, 5.0]], succ=5.0, tb=True), 2 if T else 1)
    add("tb-stopper", dict(w=1, steps=2, script="end", stopper=True, interval=1, scores=S1, tb=True), 2 if T else 1)
    us.append(("tb-fault", unit, dict(w=2, steps=4, script="end", interval=2, scores=S1, tb=True), 1, None, (1, "Estep", 1, "exc")))
    for w in (0, 1):
        for kind in ("act", "Tstep", "observe", "hook", "Treset", "evcall", "Estep"):
            for n in (1, 2):
                for exc in ("exc", "ki"):
                    if exc == "ki" and n == 2:
                        continue
                    us.append(("fault-%d-%s-%d-%s" % (w, kind, n, exc), unit,
                               dict(w=2, steps=4, script="end", interval=2, scores=S1), 1, None, (w, kind, n, exc)))
    us.append(("shared-a3c", unit_shared, "a3c", 2 if T else 1))
    us.append(("shared-acer", unit_shared, "acer", 2 if T else 1))
    us.append(("real-2", unit_real, 2, 30, 5, "end"))
    us.append(("real-4", unit_real, 4, 60, 7, "long"))
    return us
