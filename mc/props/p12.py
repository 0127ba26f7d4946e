"""P12  off-policy agents store exactly what they experience and follow their
update schedule.

Real agents with tiny real networks; every joint script of episode ends over
1..2 (3) environments; the replay contents at every sample() call, every
optimizer step, the greedy action handed to the explorer and the target
networks are compared with an independent model.
"""
import itertools

import numpy as np

from mc import agents as A
from mc.core import scripts

RULE = "one case per (agent, schedule, joint script of episode ends); non-trivial outcomes = distinct event streams"
BOUNDS = {
    "quick": "DQN, IQN, CategoricalDQN, recurrent DQN, DDPG, TD3, SAC; per environment step {continue, done, reset, done+reset}; "
    "1 environment x 4-5 steps, 2 environments x 2 steps (all four outcomes) or 3 steps (three outcomes); 3-4 schedules each "
    "(replay_start_size 1-4, update_interval 1-3, n_times_update 1-2, target interval 2-4 hard/soft, 1- and 3-step, bounded capacity)",
    "thorough": "1 environment x 6 steps, 2 environments x 3 steps with all outcomes, 3 environments x 2 steps",
}
ASSUMPTIONS = ["networks are tiny linear ones; the numerical content of an update is P13's subject"]

OUT4 = [(False, False), (True, False), (False, True), (True, True)]
OUT3 = OUT4[:3]
OBS = 2
N_ACT = 3
A_DIM = 1


def obs_of(uid):
    return np.array([uid / 16.0, 1.0 - (uid % 3) / 4.0], dtype=np.float32)


def uid_of(o):
    return int(round(float(o[0]) * 16))


def ident(t):
    a = t["action"]
    return (
        uid_of(t["state"]),
        np.round(np.asarray(a, dtype=np.float64).ravel(), 5).tolist().__repr__(),
        float(t["reward"]),
        uid_of(t["next_state"]),
        t["next_action"] is None,
        bool(t["is_state_terminal"]),
    )


class Explorer(object):
    def __init__(self, discrete):
        self.calls = []
        self.discrete = discrete

    def select_action(self, t, greedy_action_func, action_value=None):
        g = greedy_action_func()
        if action_value is not None:
            self.calls.append((t, np.asarray(g).copy(), np.asarray(action_value.greedy_actions).ravel().copy()))
        else:
            self.calls.append((t, np.asarray(g).copy(), None))
        n = len(self.calls)
        if self.discrete:
            return n % N_ACT if n % 2 else int(g)
        return np.asarray(g, dtype=np.float32) + np.float32(0.01) * n


class Spec(object):
    """What the harness needs to know about one kind of agent."""

    def __init__(self, kind, cfg):
        import torch

        import pfrl
        from pfrl.replay_buffers import EpisodicReplayBuffer, ReplayBuffer

        self.kind, self.cfg = kind, cfg
        log = self.log = []
        self.discrete = kind in ("dqn", "rdqn", "iqn", "cat")
        self.recurrent = kind == "rdqn"
        self.explorer = Explorer(self.discrete)
        if self.recurrent:
            buf = A.rec_buffer(EpisodicReplayBuffer, log, ident, capacity=cfg.get("cap"))
        else:
            buf = A.rec_buffer(ReplayBuffer, log, ident, capacity=cfg.get("cap"), num_steps=cfg.get("n", 1))
        self.buf = buf
        com = dict(gamma=0.9, replay_start_size=cfg["start"], minibatch_size=cfg["mb"], update_interval=cfg["ui"])
        tgt = dict(target_update_interval=cfg["tgt"], target_update_method=cfg["method"], soft_update_tau=cfg.get("tau", 0.25))
        self.burn = None
        if cfg.get("burn") and kind in ("ddpg", "td3", "sac"):
            cnt = [0]

            def burn():
                cnt[0] += 1
                return np.array([0.5 + cnt[0]], dtype=np.float32)

            self.burn = burn
            self.burn_cnt = cnt
            com["burnin_action_func"] = burn
        if self.discrete:
            q = {
                "dqn": lambda: A.discrete_q(OBS, N_ACT),
                "rdqn": lambda: A.recurrent_q(OBS, N_ACT),
                "iqn": lambda: A.iqn_q(OBS, N_ACT),
                "cat": lambda: A.categorical_q(OBS, N_ACT),
            }[kind]()
            opt = A.log_sgd(q, "q", log, lr=cfg.get("lr", 0.05))
            cls = {"dqn": pfrl.agents.DQN, "rdqn": pfrl.agents.DQN, "iqn": pfrl.agents.IQN, "cat": pfrl.agents.CategoricalDQN}[kind]
            kw = dict(recurrent=True, episodic_update_len=cfg.get("eplen")) if self.recurrent else {}
            if kind == "iqn":
                kw.update(quantile_thresholds_N=2, quantile_thresholds_N_prime=2, quantile_thresholds_K=2)
            self.agent = cls(q, opt, buf, explorer=self.explorer, n_times_update=cfg["nt"], **dict(com, **tgt, **kw))
            self.nets = {"q": q}
            self.targets = {"q": self.agent.target_model}
        elif kind == "ddpg":
            pi, q = A.det_policy(OBS, A_DIM), A.sa_q(OBS, A_DIM, 1)
            self.agent = pfrl.agents.DDPG(
                pi, q, A.log_sgd(pi, "pi", log, lr=cfg.get("lr", 0.05)), A.log_sgd(q, "q", log, lr=cfg.get("lr", 0.05)), buf, explorer=self.explorer,
                n_times_update=cfg["nt"], **dict(com, **tgt)
            )
            self.nets = {"pi": pi, "q": q}
            self.targets = {"pi": self.agent.target_policy, "q": self.agent.target_q_function}
        elif kind == "td3":
            pi, q1, q2 = A.det_policy(OBS, A_DIM), A.sa_q(OBS, A_DIM, 1), A.sa_q(OBS, A_DIM, 2)
            self.agent = pfrl.agents.TD3(
                pi, q1, q2, A.log_sgd(pi, "pi", log, lr=cfg.get("lr", 0.05)), A.log_sgd(q1, "q1", log, lr=cfg.get("lr", 0.05)), A.log_sgd(q2, "q2", log, lr=cfg.get("lr", 0.05)), buf,
                explorer=self.explorer, n_times_update=cfg["nt"], soft_update_tau=cfg.get("tau", 0.25), policy_update_delay=cfg["delay"], **com
            )
            self.nets = {"pi": pi, "q1": q1, "q2": q2}
            self.targets = {"pi": self.agent.target_policy, "q1": self.agent.target_q_func1, "q2": self.agent.target_q_func2}
        elif kind == "sac":
            pi, q1, q2 = A.gauss_policy(OBS, A_DIM), A.sa_q(OBS, A_DIM, 1), A.sa_q(OBS, A_DIM, 2)
            self.agent = pfrl.agents.SoftActorCritic(
                pi, q1, q2, A.log_sgd(pi, "pi", log, lr=cfg.get("lr", 0.05)), A.log_sgd(q1, "q1", log, lr=cfg.get("lr", 0.05)), A.log_sgd(q2, "q2", log, lr=cfg.get("lr", 0.05)), buf,
                soft_update_tau=cfg.get("tau", 0.25), entropy_target=-1.0 if cfg.get("temp") else None, **com
            )
            self.nets = {"pi": pi, "q1": q1, "q2": q2}
            self.targets = {"q1": self.agent.target_q_func1, "q2": self.agent.target_q_func2}
        self.n_times = 1 if kind == "sac" else cfg["nt"]
        # model state
        self.cur = {k: A.flat(m) for k, m in self.nets.items()}
        self.exp_t = {k: A.flat(self.nets[k]) for k in self.targets}
        self.n_updates = 0
        self.n_policy_updates = 0

    def sync(self, tau):
        for k in self.exp_t:
            self.exp_t[k] = self.exp_t[k] * (1 - tau) + self.cur[k] * tau

    def interval_sync(self):
        return self.kind not in ("td3", "sac")

    def opts(self):
        """Optimizer steps of one update, in any order inside a group."""
        if self.discrete:
            return [("q",)]
        if self.kind == "ddpg":
            return [("q",), ("pi",)]
        if self.kind == "td3":
            return [("q1", "q2")] + ([("pi",)] if (self.n_updates + 1) % self.cfg["delay"] == 0 else [])
        return [("q1", "q2"), ("pi",)]

    def after_update(self, names):
        self.n_updates += 1
        if "pi" in names:
            self.n_policy_updates += 1
        if self.kind == "sac" or (self.kind == "td3" and "pi" in names):
            self.sync(self.cfg.get("tau", 0.25))

    def burning(self):
        if self.burn is None:
            return False
        return (self.n_policy_updates if self.kind == "td3" else self.n_updates) == 0


class Ref(object):
    """Reference replay memory (independent of pfrl)."""

    def __init__(self, n, cap, episodic):
        self.n, self.cap, self.episodic = n, cap, episodic
        self.mem = []
        self.eps = []
        self.cur = {}

    def add(self, env, tr, end):
        c = self.cur.setdefault(env, [])
        c.append(tr)
        if self.episodic:
            if end:
                self.eps.append(list(c))
                self.cur[env] = []
                while self.cap is not None and sum(map(len, self.eps)) > self.cap:
                    self.eps.pop(0)
            return
        if len(c) >= self.n:
            self._store(c[-self.n :])
        if end:
            k = min(len(c), self.n)
            if len(c) >= self.n:
                k -= 1
            for j in range(k, 0, -1):
                self._store(c[-j:])
            self.cur[env] = []

    def _store(self, w):
        self.mem.append(tuple(w))
        if self.cap is not None and len(self.mem) > self.cap:
            self.mem.pop(0)

    def contents(self):
        if self.episodic:
            return sorted((t,) for e in self.eps for t in e)
        return sorted(self.mem)


def run_case(rec, kind, cfg, n, script, single):
    import torch

    torch.manual_seed(0)
    np.random.seed(0)
    s = Spec(kind, cfg)
    ag = s.agent
    ref = Ref(cfg.get("n", 1), cfg.get("cap"), s.recurrent)
    uid = [0]

    def new():
        uid[0] += 1
        return obs_of(uid[0])

    obs = [new() for _ in range(n)]
    t = 0
    p = 0
    stream = []
    for step in script:
        nc = len(s.explorer.calls)
        burning = s.burning()
        pre = {k: A.flat(m) for k, m in s.nets.items()}
        if single:
            acts = [ag.act(obs[0])]
        else:
            acts = ag.batch_act(list(obs))
        rec.eq(len(acts), n, "number of actions")
        for k in pre:
            rec.check(np.array_equal(pre[k], A.flat(s.nets[k])), "acting changed the network " + k)
        calls = s.explorer.calls[nc:]
        if kind == "sac":
            rec.eq(calls, [], "explorer")
        elif burning:
            rec.eq(calls, [], "explorer during burn-in")
        else:
            rec.eq([c[0] for c in calls], [t] * n, "step count given to the explorer")
            for i in range(n):
                g = greedy(s, kind, obs[i])
                if g is not None:
                    rec.check(np.allclose(calls[i][1], g, atol=1e-5), "greedy action of env %d: got %r, expected %r" % (i, calls[i][1], g))
                if calls[i][2] is not None:
                    rec.check(np.array_equal(calls[i][2], np.ravel(calls[i][1])), "action values of env %d belong to another observation" % i)
        if burning:
            rec.check(all(float(np.ravel(a)[0]) >= 1.5 for a in acts), "burn-in actions")
        nxt = [new() for _ in range(n)]
        rews = [float(uid_of(o)) for o in nxt]
        dones = [x[0] for x in step]
        resets = [x[1] for x in step]
        p = len(s.log)
        if single:
            ag.observe(nxt[0], rews[0], dones[0], resets[0])
        else:
            ag.batch_observe(list(nxt), list(rews), np.array(dones), np.array(resets))
        ev = s.log[p:]
        q = 0
        for i in range(n):
            t += 1
            tr = ident(dict(state=obs[i], action=acts[i], reward=rews[i], next_state=nxt[i], next_action=None, is_state_terminal=dones[i]))
            if s.interval_sync() and t % cfg["tgt"] == 0:
                s.sync(1.0 if cfg["method"] == "hard" else cfg.get("tau", 0.25))
            ref.add(i, tr, dones[i] or resets[i])
            cont = ref.contents()
            due = len(cont) >= cfg["start"] and t % cfg["ui"] == 0
            if s.recurrent:
                due = due and len(ref.eps) >= cfg["mb"]
            if due:
                for _ in range(s.n_times):
                    want = ("sample", (cfg["mb"], cfg.get("eplen")) if s.recurrent else cfg["mb"], cont)
                    rec.check(q < len(ev), "update missing at step %d" % t)
                    rec.eq(ev[q], want, "replay at the update of step %d" % t)
                    q += 2
                    names = set()
                    for group in s.opts():
                        got = ev[q : q + len(group)]
                        rec.eq(sorted(e[1] for e in got if e[0] == "opt"), sorted(group), "networks updated at step %d" % t)
                        for e in got:
                            names.add(e[1])
                            s.cur[e[1]] = e[2]
                        q += len(group)
                    s.after_update(names)
        rec.check(q == len(ev), "unexpected %s up to step %d" % (ev[q][0] if q < len(ev) else "", t))
        rec.eq(s.buf.contents(), cont, "replay contents after step %d" % t)
        for k, m in s.nets.items():
            rec.check(np.allclose(A.flat(m), s.cur[k], atol=1e-7), "network %s changed outside an update" % k)
        for k, m in s.targets.items():
            rec.check(np.allclose(A.flat(m), s.exp_t[k], atol=1e-5), "target network %s after step %d" % (k, t))
        rec.eq(ag.t, t, "agent.t")
        rec.step(n)
        stream.append((tuple(step), len(ev)))
        obs = [new() if (d or r) else o for o, d, r in zip(nxt, dones, resets)]
    st = dict(ag.get_statistics())
    if kind == "td3":
        rec.eq((st["q_func_n_updates"], st["policy_n_updates"]), (s.n_updates, s.n_policy_updates), "statistics")
    else:
        rec.eq(st["n_updates"], s.n_updates, "n_updates statistic")
    if s.discrete:
        rec.eq((st["cumulative_steps"], st["rlen"]), (t, len(cont)), "statistics")
    rec.state((kind, n, tuple(stream)))
    rec.outcome((kind, n, sorted(cfg.items(), key=str), tuple(stream)))


def greedy(s, kind, o):
    """Greedy action computed from the raw parameters."""
    o = np.asarray(o, dtype=np.float64)
    if kind == "dqn":
        v = A.flat(s.nets["q"])
        W, b = v[: OBS * N_ACT].reshape(N_ACT, OBS), v[OBS * N_ACT :]
        return int(np.argmax(W @ o + b))
    if kind == "cat":
        v = A.flat(s.nets["q"])
        k = N_ACT * 3
        x = (v[: k * OBS].reshape(k, OBS) @ o + v[k * OBS :]).reshape(N_ACT, 3)
        e = np.exp(x - x.max(1, keepdims=True))
        e /= e.sum(1, keepdims=True)
        return int(np.argmax(e @ np.linspace(-1, 1, 3)))
    if kind in ("ddpg", "td3"):
        v = A.flat(s.nets["pi"])
        return v[: OBS * A_DIM].reshape(A_DIM, OBS) @ o + v[OBS * A_DIM :]
    return None


def unit(rec, kind, cfg, n, T, outs, single, part=0, parts=1):
    joint = list(itertools.product(outs, repeat=n))
    for k, script in enumerate(scripts(joint, T)):
        if k % parts != part:
            continue
        rec.begin({"agent": kind, "cfg": cfg, "n": n, "script": script, "single": single})
        run_case(rec, kind, cfg, n, script, single)


def unit_updater(rec):
    """ReplayUpdater alone: update_func gets exactly what the buffer returned."""
    from pfrl.replay_buffer import ReplayUpdater

    class Buf(object):
        def __init__(self):
            self.n = self.n_episodes = 0
            self.out = []

        def __len__(self):
            return self.n

        def sample(self, k):
            x = ["s%d-%d" % (len(self.out), i) for i in range(k)]
            self.out.append(x)
            return x

        def sample_episodes(self, k, max_len):
            x = ["e%d-%d-%s" % (len(self.out), i, max_len) for i in range(k)]
            self.out.append(x)
            return x

    for epi, bs, nt, start, ui, ml in itertools.product((False, True), (1, 2), (1, 2, 3), (2, 3), (1, 2, 3), (None, 2)):
        if start < bs:
            continue
        rec.begin({"updater": [epi, bs, nt, start, ui, ml]})
        b = Buf()
        got = []
        u = ReplayUpdater(b, got.append, bs, epi, nt, start, ui, ml)
        for t in range(1, 7):
            for ln in range(0, 5):
                for ne in range(0, 4):
                    b.n, b.n_episodes = ln, ne
                    del b.out[:], got[:]
                    r = u.update_if_necessary(t)
                    want = ln >= start and t % ui == 0 and (not epi or ne >= bs)
                    rec.eq(bool(r), want, "updated")
                    rec.eq(len(got), nt if want else 0, "number of updates")
                    rec.eq(got, b.out, "what the update function gets")
                    rec.check(all(len(x) == bs and (not epi or x[0].endswith(str(ml))) for x in got), "batch size")
                    rec.step()
    # batch size larger than the start size is refused
    rec.begin({"updater": "refuse"})
    try:
        ReplayUpdater(Buf(), None, 3, False, 1, 2, 1)
    except AssertionError:
        pass
    else:
        rec.fail("batch larger than replay_start_size accepted")


CFGS = {
    "a": dict(start=2, mb=1, ui=1, nt=1, tgt=2, method="hard"),
    "b": dict(start=3, mb=2, ui=2, nt=2, tgt=4, method="soft", n=3),
    "c": dict(start=1, mb=1, ui=3, nt=1, tgt=3, method="hard", cap=2, tau=1.0),
    "d": dict(start=2, mb=2, ui=1, nt=2, tgt=3, method="soft", n=2, cap=3, tau=0.75),
    "r1": dict(start=2, mb=1, ui=1, nt=1, tgt=2, method="hard"),
    "r2": dict(start=3, mb=2, ui=1, nt=2, tgt=3, method="soft", eplen=2),
    "r3": dict(start=1, mb=1, ui=2, nt=1, tgt=4, method="hard", cap=3, eplen=1),
}


def units(tier):
    T = tier == "thorough"
    us = [("updater", unit_updater)]
    for kind in ("dqn", "rdqn", "ddpg", "td3", "sac", "cat", "iqn"):
        keys = ("r1", "r2", "r3") if kind == "rdqn" else ("a", "b", "c", "d")
        if kind in ("cat", "iqn") and not T:
            keys = ("a", "d")
        for key in keys:
            cfg = dict(CFGS[key])
            if kind == "td3":
                cfg["delay"] = {"a": 2, "b": 3, "c": 1, "d": 2}[key]
            if kind in ("ddpg", "td3", "sac"):
                cfg["burn"] = key in ("a", "b")
                cfg["temp"] = key in ("b", "d")
            nm = "%s-%s" % (kind, key)
            light = kind in ("cat", "iqn")
            us.append((nm + "-1s", unit, kind, cfg, 1, 4, OUT4, True))
            us.append((nm + "-long", unit, kind, dict(cfg, lr=0.005), 1, (3, 24) if T else (2, 20), OUT3, False))
            us.append((nm + "-long3", unit, kind, dict(cfg, lr=0.005), 3, (1, 8 if T else 5), OUT3, False))
            if T:
                for k in range(4):
                    us.append((nm + "-1-%d" % k, unit, kind, cfg, 1, 6, OUT3, False, k, 4))
                    us.append((nm + "-2-%d" % k, unit, kind, cfg, 2, 3, OUT4, False, k, 4))
                us.append((nm + "-3", unit, kind, cfg, 3, 2, OUT3, False))
            else:
                us.append((nm + "-1", unit, kind, cfg, 1, 5, OUT3, False))
                us.append((nm + "-2", unit, kind, cfg, 2, 2, OUT4, False))
                if not light:
                    us.append((nm + "-2x", unit, kind, cfg, 2, 3, OUT3, False))
    return us
