"""P22  actor-learner training under every bounded schedule.

DQN.setup_actor_learner_training with the real actors, poller loop and
learner loop, on controlled threads, pipes, locks and events (mc.sched): all
schedules with at most B deviations from round-robin are executed.
"""
import numpy as np

from mc import agents as A
from mc import sched as SC
from mc.core import explore

RULE = "one case per schedule (delay-bounded) of a configuration; non-trivial outcomes = distinct joint event orders"
BOUNDS = {
    "quick": "1-2 actors x 2 episodes of 1-2 steps with poller, learner and main thread; uniform, prioritized (capacity 2, always evicting) and recurrent episodic buffers; <=2 deviations from round-robin order; save, load and statistics requests; failing learner; at most 3 updates",
    "thorough": "<=2 deviations for two actors as well (except statistics and n_updates requests), 3 actors with <=1",
}
ASSUMPTIONS = [
    "actor processes are modelled by threads sharing only pipes, the shared model and the counters",
    "a thread that busy-waits (repeats an event test or poll while no shared state changes) is descheduled until something changes",
    "the learner is stopped before the poller, after the actors are done, as in the examples",
]
OBS, NA = 2, 2


class Log(list):
    def add(self, *e):
        self.append(e)


def point(label):
    s = SC.S()
    if s is not None and s.me() is not None:
        s.point(label)


def monitor(cls, log, busy):
    """Replay buffer that notices concurrent accesses."""

    def wrap(name):
        orig = getattr(cls, name)

        def op(self, *a, **k):
            if busy["in"] is None:
                outer = True
                busy["in"] = (name, SC.S().me())
            elif busy["in"][1] is SC.S().me():
                outer = False
            else:
                busy["bad"] = "%s while %s is running in another thread" % (name, busy["in"][0])
                outer = False
            try:
                if outer:
                    point("rb-" + name)
                r = orig(self, *a, **k)
                if outer:
                    log.add(name, a, k, r, len(self))
                return r
            finally:
                if outer:
                    busy["in"] = None

        return op

    names = [n for n in ("append", "stop_current_episode", "sample", "sample_episodes", "update_errors") if hasattr(cls, n)]
    return type("Mon" + cls.__name__, (cls,), {n: wrap(n) for n in names})


class Explorer(object):
    def __init__(self):
        self.calls = []

    def select_action(self, t, greedy, action_value=None):
        self.calls.append(t)
        return greedy()


def obs_of(actor, i):
    return np.array([0.5 * actor - 0.25, ((i * 3) % 5 - 2) / 2.0], dtype=np.float32)


class Case(object):
    def __init__(self, cfg):
        import torch

        import pfrl
        from pfrl import replay_buffers as RB

        self.cfg = cfg
        self.log = Log()
        self.busy = {"in": None, "bad": None}
        kind = cfg["kind"]
        rec = kind == "recurrent"
        head = pfrl.q_functions.DiscreteActionValueHead()
        if rec:
            q = pfrl.nn.RecurrentSequential(torch.nn.GRU(OBS, 2), torch.nn.Linear(2, NA), head)
        else:
            q = torch.nn.Sequential(torch.nn.Linear(OBS, 2), torch.nn.Tanh(), torch.nn.Linear(2, NA), head)
        A.init(q, 3)
        log = self.log
        case = self

        class Opt(torch.optim.SGD):
            """Updates the parameters one by one, visibly to other threads."""

            def step(self, closure=None):
                log.add("step-begin")
                with torch.no_grad():
                    ps = [p for g in self.param_groups for p in g["params"]]
                    for k, p in enumerate(ps):
                        if k == len(ps) // 2:
                            point("param")
                        p.add_(p.grad, alpha=-0.05)
                log.add("step", A.flat(q))
                case.n_steps += 1

        class Agent(pfrl.agents.DQN):
            def save(self, dirname):
                log.add("save-begin", dirname)
                out = []
                for m in (self.model, self.target_model):
                    v = []
                    for k, p in enumerate(m.parameters()):
                        if k == 2:
                            point("save")
                        v.append(p.detach().numpy().ravel().copy())
                    out.append(np.concatenate(v))
                log.add("save", dirname, out)
                if dirname == "bad":
                    raise OSError("disk full")

            def load(self, dirname):
                with torch.no_grad():
                    for m in (self.model, self.target_model):
                        for k, p in enumerate(m.parameters()):
                            if k == 2:
                                point("load")
                            p.fill_(0.125)
                log.add("load", A.flat(self.model))

        self.n_steps = 0
        cls = {"uniform": RB.ReplayBuffer, "prioritized": RB.PrioritizedReplayBuffer, "recurrent": RB.EpisodicReplayBuffer}[kind]
        self.buf = monitor(cls, log, self.busy)(cfg.get("capacity", 10))
        if cfg.get("fault") == "append":
            append = self.buf.append

            def failing(*a, **k):
                append(*a, **k)
                if k.get("reward", a[2] if len(a) > 2 else None) == 1.0:
                    log.add("failed-append")
                    raise RuntimeError("planned failure of append")

            self.buf.append = failing
        self.explorer = Explorer()
        self.agent = Agent(
            q, Opt(q.parameters(), lr=0.05), self.buf, 0.9, self.explorer,
            replay_start_size=cfg.get("start", 1), minibatch_size=cfg.get("mb", 1), update_interval=cfg.get("ui", 1),
            target_update_interval=cfg.get("tui", 2), recurrent=rec, clip_delta=True, phi=lambda x: x,
            batch_accumulator="mean", logger=quiet(),
        )


def quiet():
    import logging

    l = logging.getLogger("mc.p22")
    l.disabled = True
    return l


def run(rec, cfg, ctx):
    import torch

    np.random.seed(0)
    torch.manual_seed(0)
    c = Case(cfg)
    log, agent = c.log, c.agent
    S = SC.Sched(ctx, delay=True)
    hooks = []
    fault = cfg.get("fault")
    M = cfg.get("max_updates", 2)
    p0 = A.flat(agent.model)
    sent = {i: [] for i in range(cfg["actors"])}
    acked = {i: 0 for i in range(cfg["actors"])}
    ends = {i: [] for i in range(cfg["actors"])}
    stats = []
    rec.begin({"config": cfg, "schedule": ctx.trace})
    with SC.patched(S):
        def ohook(env, ag, t):
            hooks.append(("opt", env, ag is agent, t))
            if fault == "learner" and t == 1:
                raise RuntimeError("planned failure of a hook")
            if c.n_steps >= M:
                S.block(lambda: learner.stop_event.flag, "slow learner")

        def shook(env, ag, t):
            hooks.append(("step", env, ag is agent, t))

        make_actor, learner, poller, exc = agent.setup_actor_learner_training(
            cfg["actors"], n_updates=cfg.get("n_updates"), actor_update_interval=cfg.get("aui", 1),
            step_hooks=[shook], optimizer_step_hooks=[ohook],
        )
        actors = [make_actor(i) for i in range(cfg["actors"])]
        shared = actors[0].model
        counter = agent.update_counter
        rec.check(np.array_equal(A.flat(shared), p0), "the shared model does not start as a copy of the model")

        def act(i):
            a = actors[i]
            k = 0
            for ep in cfg["scripts"][i]:
                for j, e in enumerate(ep):
                    o = obs_of(i, k)
                    action = a.act(o)
                    nxt = obs_of(i, k + 1)
                    k += 1
                    sent[i].append((o, int(action), float(10 * i + k), nxt, e == "d"))
                    a.observe(nxt, float(10 * i + k), e == "d", e == "r")
                    if e in "dr":
                        ends[i].append(len(sent[i]))
                        acked[i] = len(sent[i])
                for what in cfg.get("after", {}).get(i, ()):
                    if what == "save":
                        a.save("dir")
                        log.add("saved", i)
                    elif what == "load":
                        a.load("dir")
                    elif what == "stats":
                        stats.append(a.get_statistics())
                        log.add("stats", i)
                    elif what == "eval":
                        with a.eval_mode():
                            o = obs_of(i, 7)
                            a.act(o)
                            a.observe(o, 0.0, True, False)
            if cfg.get("gone") == i:
                a.pipe.close()
            log.add("actor-done", i)

        poller.start()
        learner.start()
        tasks = [S.spawn(lambda i=i: act(i), "actor%d" % i) for i in range(cfg["actors"])]
        S.block(lambda: all(t.done for t in tasks), "join actors")
        if cfg.get("wait"):
            # enough data for the learner to reach its number of updates
            S.block(lambda: learner.stop_event.flag, "learner reaches n_updates")
        learner.stop()
        learner.join()
        poller.stop()
        poller.join()
        excs = [t.exc for t in S.tasks if t.exc is not None]
        exc_set = exc.flag
        upd = counter._v.value
    rec.step(S.points)
    rec.begin({"config": cfg, "schedule": ctx.trace, "log": [e[0] for e in log]})
    rec.check(not excs, "%r in a thread" % (excs,))
    rec.check(c.busy["bad"] is None, "replay buffer: %s" % c.busy["bad"])
    rec.check(exc_set == (fault is not None and any(e[0] == ("step" if fault == "learner" else "failed-append") for e in log)), "exception_event is %s" % exc_set)

    # transitions: each actor's, in order, in its own environment, up to the last acknowledged one
    for i in range(cfg["actors"]):
        got, gends = [], []
        for e in log:
            if e[0] == "append":
                kw = dict(e[2])
                names = ["state", "action", "reward", "next_state", "next_action", "is_state_terminal", "env_id"]
                kw.update(zip(names, e[1]))
                if kw.get("env_id") == i:
                    got.append((kw["state"], int(kw["action"]), kw["reward"], kw["next_state"], bool(kw["is_state_terminal"])))
                    if cfg["kind"] == "recurrent":
                        rec.check("recurrent_state" in kw and "next_recurrent_state" in kw, "recurrent states missing")
            elif e[0] == "stop_current_episode" and (e[2].get("env_id", e[1][0] if e[1] else None)) == i:
                gends.append(len(got))
        want = sent[i][: len(got)]
        rec.check(acked[i] <= len(got) <= len(sent[i]), "%d transitions of actor %d in the buffer, %d acknowledged, %d sent" % (len(got), i, acked[i], len(sent[i])))
        for g, w in zip(got, want):
            rec.check(np.array_equal(g[0], w[0]) and g[1:3] == w[1:3] and np.array_equal(g[3], w[3]) and g[4] == w[4], "actor %d: stored %r instead of %r" % (i, g, w))
        rec.eq(gends, ends[i], "episode ends of actor %d" % i)
    n_app = sum(e[0] == "append" for e in log)
    n_fail = sum(e[0] == "failed-append" for e in log)
    rec.check(n_app - n_fail <= agent.cumulative_steps <= n_app, "cumulative steps %r after %d transitions" % (agent.cumulative_steps, n_app))
    for s in stats:
        rec.check(isinstance(s, list) and all(len(x) == 2 for x in s), "statistics %r" % (s,))

    # learner
    steps = [e[1] for e in log if e[0] == "step"]
    n = len(steps)
    if fault != "learner":
        rec.eq(agent.optim_t, n, "optim_t")
        if cfg.get("n_updates") is not None:
            rec.check(n == cfg["n_updates"] if cfg.get("wait") else n <= cfg["n_updates"], "%d updates instead of %d" % (n, cfg["n_updates"]))
        ui, aui, tui = cfg.get("ui", 1), cfg.get("aui", 1), cfg.get("tui", 2)
        rec.eq([h for h in hooks if h[0] == "opt"], [("opt", None, True, k) for k in range(1, n + 1)], "optimizer step hooks")
        rec.eq([h for h in hooks if h[0] == "step"], [("step", None, True, k * ui) for k in range(1, n + 1)], "step hooks")
        rec.check(n == 0 or agent.t == n * ui, "agent.t %r after %d updates" % (agent.t, n))
        rec.eq(upd, n // aui, "update counter")
        loads = [k for k, e in enumerate(log) if e[0] == "load"]
        k = (n // aui) * aui
        const = np.full_like(p0, 0.125)
        rec.check(np.array_equal(A.flat(shared), steps[k - 1] if k else p0) or (loads and k and np.array_equal(A.flat(shared), const)), "the shared model is not the model after %d updates" % k)
        if not loads:
            ks = [k for k in range(1, n + 1) if k * ui % tui == 0]
            rec.check(np.array_equal(A.flat(agent.target_model), steps[ks[-1] - 1] if ks else p0), "target network after %d updates" % n)
    seen_load = False
    for k, e in enumerate(log):
        if e[0] in ("sample", "sample_episodes"):
            rec.check(e[4] >= cfg.get("start", 1), "sampled from a buffer of %d" % e[4])
        if e[0] == "load":
            rec.check(np.array_equal(e[1], np.full_like(p0, 0.125)), "an update ran into a load: parameters %r after loading" % (e[1],))
            prev = [x[0] for x in log[:k] if x[0] in ("step-begin", "step")]
            rec.check(not prev or prev[-1] == "step", "a load ran into an update")
            seen_load = True
        if e[0] == "save":
            valid = [p0] + steps + ([np.full_like(p0, 0.125)] if seen_load else [])
            for v, what in zip(e[2], ("model", "target model")):
                rec.check(any(np.array_equal(v, np.asarray(x, dtype=v.dtype)) for x in valid), "saved %s mixes the parameters of two updates" % what)
    rec.state([(e[0],) + tuple(x for x in e[1:2] if isinstance(x, int)) for e in log])
    rec.outcome([e[0] for e in log])
    return S


def unit(rec, cfg, bound, shard):
    explore(lambda ctx: run(rec, cfg, ctx), rec, bound=bound, shard=shard)


def units(tier):
    T = tier == "thorough"
    us = []

    def add(name, bound, **cfg):
        if T and name in ("uniform-2", "prioritized-2", "recurrent-2", "save-2", "fault-2", "shrink"):
            bound = 2
        n = 3 if bound == 2 and cfg["actors"] == 1 else 8 if bound == 2 else 1
        for k in range(n):
            us.append((name + ("/%d" % k if n > 1 else ""), unit, cfg, bound, (k, n)))

    one = [["n", "d"], ["r"]]
    for kind in ("uniform", "prioritized", "recurrent"):
        add(kind + "-1", 2, kind=kind, actors=1, scripts=[one[:1] if kind == "recurrent" else one], start=1, after={0: ["eval"]})
        add(kind + "-2", 1, kind=kind, actors=2, scripts=[[["d"], ["r"]], [["n", "r"]]], start=1, aui=2, capacity=2 if kind != "recurrent" else 10)
    add("evict", 2, kind="prioritized", actors=1, scripts=[[["d"], ["n", "d"]]], start=1, capacity=1, max_updates=2)
    add("shrink", 1, kind="recurrent", actors=1, scripts=[[["d"], ["d"], ["n", "d"]]], start=2, capacity=2, mb=2, max_updates=5)
    add("save", 2, kind="uniform", actors=1, scripts=[[["d"]]], start=1, after={0: ["save"]}, max_updates=2)
    add("save-2", 1, kind="uniform", actors=2, scripts=[[["d"]], [["r"]]], start=1, after={0: ["save", "stats"]})
    add("load", 2, kind="uniform", actors=1, scripts=[[["d"]]], start=1, after={0: ["load", "save"]}, max_updates=2)
    add("stats", 1, kind="prioritized", actors=2, scripts=[[["d"], ["d"]], [["n", "r"]]], start=2, after={0: ["stats"], 1: ["stats"]})
    add("n-updates", 2, kind="uniform", actors=1, scripts=[one], start=3, n_updates=2, ui=2, tui=2, max_updates=9, wait=True)
    add("n-updates-2", 1, kind="uniform", actors=2, scripts=[[["d"]], [["n", "d"]]], start=1, n_updates=1, ui=3, tui=3)
    add("fault", 2, kind="uniform", actors=1, scripts=[[["d"], ["d"]]], start=1, fault="learner", after={0: ["save"]})
    add("fault-2", 1, kind="uniform", actors=2, scripts=[[["d"], ["d"]], [["n", "r"]]], start=1, fault="learner", after={0: ["save"], 1: ["stats"]})
    # an actor that exits (its end of the pipe is closed) or data that cannot be stored do not keep the others from being served
    add("gone", 1, kind="uniform", actors=2, scripts=[[["d"]], [["n", "d"], ["r"]]], start=1, gone=0, after={1: ["save", "stats"]})
    add("gone-1", 1, kind="prioritized", actors=2, scripts=[[["d"], ["n", "r"]], [["d"]]], start=1, gone=1, after={0: ["stats"]})
    add("fault-append", 1, kind="uniform", actors=2, scripts=[[["n", "d"], ["d"]], [["n", "r"]]], start=1, fault="append", after={0: ["stats"], 1: ["save"]})
    if T:
        add("three", 1, kind="prioritized", actors=3, scripts=[[["d"]], [["n", "r"]], [["d"]]], start=1, capacity=2)
    return us
