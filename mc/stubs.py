"""Scripted environments and recording agents for the training-loop and
evaluation properties.

Every call made by the code under test is appended to one shared log, so the
relative order of environment calls, agent calls, hooks and saves is visible.
Environment outcomes are picked lazily through the exploration context: an
execution that never takes a step never branches on it.
"""
import os

import numpy as np
import contextlib

import pfrl


class Fault(Exception):
    pass


class Log(list):
    """Shared event log with an optional fault: the n-th event of the given
    kind raises *after* being recorded (the call never returns)."""

    def __init__(self, fault=None):
        super().__init__()
        self.fault = fault  # (kind, n, exception instance)
        self.seen = {}
        self.fired = False

    def add(self, *ev):
        self.append(ev)
        k = ev[0]
        self.seen[k] = self.seen.get(k, 0) + 1
        if self.fault and not self.fired:
            kind, n, exc = self.fault
            if kind == k and self.seen[k] == n:
                self.fired = True
                raise exc


class ScriptEnv(pfrl.env.Env):
    """outcome(tag, step_in_episode) -> (reward, done, needs_reset)"""

    def __init__(self, log, outcome, tag="T", stats=False):
        self.log = log
        self.outcome = outcome
        self.tag = tag
        self.episode = -1
        self.k = 0
        self.over = True
        self.nsteps = 0
        self.obs = None
        self.closed = False
        if stats:
            self.get_statistics = lambda: [
                ("env_steps_" + tag, self.nsteps - self._cleared)
            ]
            self.clear_statistics = self._clear
            self._cleared = 0

    agent = None

    def _clear(self):
        self._cleared = self.nsteps

    def _phase(self):
        # calls made while the agent is in evaluation mode belong to evaluation
        if self.agent is not None and not self.agent.training:
            return "E"
        return "T"

    def reset(self):
        self.episode += 1
        self.k = 0
        self.over = False
        self.obs = (self.tag, self.episode, 0)
        self.log.add(self._phase() + "reset", self.obs)
        return self.obs

    def step(self, action):
        self.log.add(self._phase() + "step", action, self.obs, self.over)
        r, done, nr = self.outcome(self._phase(), self.episode, self.k)
        self.k += 1
        self.nsteps += 1
        self.over = bool(done or nr)
        self.obs = (self.tag, self.episode, self.k)
        info = {"needs_reset": True} if nr else ({} if self.k % 2 else {"needs_reset": False})
        self.last = (self.obs, r, done, nr)
        return self.obs, r, done, info

    def close(self):
        self.closed = True
        self.log.add(self.tag + "close")


class ScriptVectorEnv(pfrl.env.VectorEnv):
    """Vector environment with the reset(mask) contract of
    pfrl.envs.SerialVectorEnv (mask True = keep going)."""

    def __init__(self, log, outcome, n, tag="T", np_bool=False):
        self.log = log
        self.num_envs = n
        self.tag = tag
        self.outcome = outcome
        self.episode = [-1] * n
        self.k = [0] * n
        self.over = [True] * n
        self.obs = [None] * n
        self.np_bool = np_bool
        self.closed = 0

    agent = None

    def _phase(self):
        if self.agent is not None and not self.agent.training:
            return "E"
        return "T"

    def reset(self, mask=None):
        if mask is None:
            mask = [False] * self.num_envs
        mask = [bool(m) for m in mask]
        assert len(mask) == self.num_envs
        for i, m in enumerate(mask):
            if not m:
                self.episode[i] += 1
                self.k[i] = 0
                self.over[i] = False
                self.obs[i] = (self.tag, i, self.episode[i], 0)
        self.log.add(self._phase() + "reset", tuple(mask), tuple(self.obs))
        return list(self.obs)

    def step(self, actions):
        acts = tuple(actions)
        assert len(acts) == self.num_envs
        self.log.add(self._phase() + "step", acts, tuple(self.obs), tuple(self.over))
        rs, ds, infos = [], [], []
        for i in range(self.num_envs):
            r, d, nr = self.outcome(self._phase(), i, self.episode[i], self.k[i])
            self.k[i] += 1
            self.over[i] = bool(d or nr)
            self.obs[i] = (self.tag, i, self.episode[i], self.k[i])
            rs.append(r)
            ds.append(bool(d))
            infos.append({"needs_reset": True} if nr else {})
        return list(self.obs), tuple(rs), tuple(ds), tuple(infos)

    def seed(self, seeds):
        pass

    def close(self):
        self.closed += 1
        self.log.add(self.tag + "close")


class RecAgent(pfrl.agent.Agent):
    """Records everything; 'parameters' = number of training observes."""

    def __init__(self, log, outdir=None, with_t=False):
        self.log = log
        self.outdir = outdir
        self.version = 0
        self.nact = 0
        if with_t:
            self.t = -1

    def act(self, obs):
        self.nact += 1
        a = ("a", self.nact)
        self.log.add("act" if self.training else "Eact", obs, a)
        return a

    def observe(self, obs, reward, done, reset):
        if self.training:
            self.version += 1
        self.log.add(
            "observe" if self.training else "Eobserve", obs, reward, bool(done), bool(reset)
        )

    def batch_act(self, batch_obs):
        acts = []
        for _ in batch_obs:
            self.nact += 1
            acts.append(("a", self.nact))
        self.log.add(
            "act" if self.training else "Eact", tuple(batch_obs), tuple(acts)
        )
        return acts

    def batch_observe(self, batch_obs, batch_reward, batch_done, batch_reset):
        if self.training:
            self.version += 1
        self.log.add(
            "observe" if self.training else "Eobserve",
            tuple(batch_obs),
            tuple(float(r) for r in batch_reward),
            tuple(bool(d) for d in batch_done),
            tuple(bool(d) for d in batch_reset),
        )

    def save(self, dirname):
        name = os.path.relpath(dirname, self.outdir) if self.outdir else dirname
        self.log.add("save", name, self.version, self.training)

    def load(self, dirname):
        raise AssertionError("load is not part of a training loop")

    def get_statistics(self):
        return [("version", self.version)]


def split_windows(log):
    """[(prologue)], then per training step: (act_obs, action, step event,
    observe event, [events up to the next training act])."""
    pro, steps = [], []
    cur = pro
    for ev in log:
        if ev[0] == "act":
            steps.append({"act": ev, "post": [], "step": [], "observe": []})
            cur = None
        elif cur is None and not steps[-1]["observe"] and ev[0] in ("Tstep", "observe"):
            steps[-1]["step" if ev[0] == "Tstep" else "observe"].append(ev)
            continue
        elif steps:
            steps[-1]["post" if steps[-1]["observe"] else "step"].append(ev)
        else:
            pro.append(ev)
    return pro, steps


class TBWriter(object):
    """Stands for torch.utils.tensorboard.SummaryWriter (tensorboard is not
    installed): keeps what has been flushed apart from what has not."""

    made = []

    def __init__(self, log_dir=None, *a, **k):
        self.log_dir = log_dir
        self.pending, self.flushed, self.layout = [], [], []
        TBWriter.made.append(self)

    def add_custom_scalars(self, layout):
        self.layout.append(layout)

    def add_scalar(self, tag, scalar_value, global_step=None, walltime=None, **k):
        self.pending.append((global_step, tag, float(scalar_value)))

    def add_scalars(self, main_tag, tag_scalar_dict, global_step=None, walltime=None):
        for k, v in tag_scalar_dict.items():
            self.add_scalar(main_tag + "/" + k, v, global_step, walltime)

    def flush(self):
        self.flushed += self.pending
        self.pending = []

    def close(self):
        self.flush()


@contextlib.contextmanager
def tensorboard():
    """Makes `from torch.utils.tensorboard import SummaryWriter` work."""
    import sys
    import types

    import torch.utils

    name = "torch.utils.tensorboard"
    mod = types.ModuleType(name)
    mod.SummaryWriter = TBWriter
    old = sys.modules.get(name)
    old_attr = torch.utils.__dict__.get("tensorboard")
    sys.modules[name] = mod
    torch.utils.tensorboard = mod
    TBWriter.made = made = []
    try:
        yield made
    finally:
        if old is None:
            sys.modules.pop(name, None)
        else:
            sys.modules[name] = old
        if old_attr is None:
            del torch.utils.tensorboard
        else:
            torch.utils.tensorboard = old_attr


def tb_rows(t, scores, agent_stats, env_stats):
    """What one evaluation writes to tensorboard."""
    import statistics

    mean = statistics.mean(scores)
    sd = statistics.stdev(scores) if len(scores) > 1 else 0.0
    d = {"eval/mean": mean, "eval/median": statistics.median(scores), "eval/max": max(scores), "eval/min": min(scores),
         "eval/stdev": sd, "extras/meanplusstdev": mean + sd, "extras/meanminusstdev": mean - sd}
    d.update(("agent/" + k, 0.0 if v is None else v) for k, v in agent_stats)
    d.update(("env/" + k, v) for k, v in env_stats)
    return sorted((t, k, float(v)) for k, v in d.items())
