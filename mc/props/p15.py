"""P15  A2C, A3C and REINFORCE: rollouts, returns and updates.

The real agents (tiny networks, scripted action choice) are driven through every
script of episode ends; a shadow rollout predicts each optimizer step in double
precision: when it happens, the discounted / lambda / Monte-Carlo returns, the
loss, gradient clipping, and for A3C the exchange with the shared model, which
another worker changes at every possible moment.
"""
import copy
import itertools
import math
import warnings

import numpy as np

from mc import agents as A
from mc.core import scripts
from mc.props.p14 import NA, OUT4, Twin, batch_states, build, clipped, close, given, grads, heads, phi, rew

RULE = "one case per (agent, options, script of episode ends, moment of a foreign update); non-trivial outcomes = distinct parameter trajectories"
BOUNDS = {
    "quick": "per environment step {continue, done, reset, done+reset}; A2C: 1 environment x 5 steps, 2 environments x 3 steps, update_steps 1-4, with and without GAE; "
    "A3C (feed-forward and recurrent): 5-6 steps, t_max 1-4, foreign update of the shared model at any step; REINFORCE (feed-forward and recurrent): 5-6 steps, batchsize 1-3, "
    "backward_separately or not; 4-6 option sets each; initial step number 0 and 7",
    "thorough": "A2C 1 x 7, 2 x 4, 3 x 2 steps; A3C and REINFORCE 7 steps",
}
ASSUMPTIONS = ["floating point results are compared with tolerance 5e-4 relative to the step", "A2C treats a reset without termination as a terminal state (documented by its warning)"]


def sgd(module, log, lr):
    return A.log_sgd(module, "m", log, lr=lr)


def verify(rec, got, p, g, lr, what):
    want = p - lr * g
    rec.check(close(got, want, lr * np.abs(g).max()), "%s: parameters differ by %g (step %g)" % (what, np.abs(got - want).max(), np.abs(want - p).max()))


# ------------------------------------------------------------------------- A2C


def run_a2c(rec, o, n, script, single):
    import torch
    from pfrl.agents import A2C

    cfg = dict(dict(gamma=0.9, K=2, vc=0.5, pc=1.0, ec=0.01, gae=False, tau=0.8, gnorm=None, lr=0.3, cont=False, t0=0), **o)
    mods = build("ppo", False, cfg["cont"], 4)
    model = mods["model"]
    log = []
    ag = A2C(
        model, sgd(model, log, cfg["lr"]), gamma=cfg["gamma"], num_processes=n, update_steps=cfg["K"], phi=phi, pi_loss_coef=cfg["pc"], v_loss_coef=cfg["vc"],
        entropy_coeff=cfg["ec"], use_gae=cfg["gae"], tau=cfg["tau"], max_grad_norm=cfg["gnorm"], batch_states=batch_states,
    )
    if cfg["t0"]:
        ag.t = cfg["t0"]
    tw = Twin("ppo", mods, False, cfg["cont"])
    uid = itertools.count(1)
    cur = [next(uid) for _ in range(n)]
    roll = []
    for t, outs in enumerate(script):
        p0 = A.flat(model)
        acts = [ag.act(given(cur[0]))] if single else list(ag.batch_act([given(u) for u in cur]))
        rec.eq(len(log), 0, "optimizer steps while acting")
        nu = [next(uid) for _ in range(n)]
        rs = [rew(u) for u in nu]
        dn, rt = [x[0] for x in outs], [x[1] for x in outs]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if single:
                ag.observe(given(nu[0]), rs[0], dn[0], rt[0])
            else:
                ag.batch_observe([given(u) for u in nu], rs, dn, rt)
        rec.step()
        roll.append((list(cur), [np.array(a) for a in acts], rs, [d or r for d, r in zip(dn, rt)], nu))
        rec.eq(ag.t, cfg["t0"] + t + 1, "agent.t")
        if len(roll) < cfg["K"]:
            rec.eq(len(log), 0, "optimizer steps after %d of %d steps" % (len(roll), cfg["K"]))
            rec.check(np.array_equal(A.flat(model), p0), "parameters changed without an update")
        else:
            rec.eq(len(log), 1, "optimizer steps after update_steps steps")
            A.set_flat(tw.m["model"], p0)
            logits, vals, ents, rets = [], [], [], []
            for i in range(n):
                us = [x[0][i] for x in roll]
                out, v, _ = tw.run(us, None)
                lp, ent = tw.logp_ent(out, [x[1][i] for x in roll])
                with torch.no_grad():
                    nv = tw.run([x[4][i] for x in roll], None)[1]
                g = []
                for j in range(cfg["K"]):
                    if cfg["gae"]:
                        acc, f = float(v[j].detach()), 1.0
                        for k in range(j, cfg["K"]):
                            end = roll[k][3][i]
                            acc += f * (roll[k][2][i] + (0.0 if end else cfg["gamma"] * float(nv[k])) - float(v[k].detach()))
                            f *= cfg["gamma"] * cfg["tau"]
                            if end:
                                break
                    else:
                        acc, f = 0.0, 1.0
                        for k in range(j, cfg["K"]):
                            acc += f * roll[k][2][i]
                            f *= cfg["gamma"]
                            if roll[k][3][i]:
                                break
                        else:
                            acc += f * float(nv[cfg["K"] - 1])
                    g.append(acc)
                logits.append(lp)
                vals.append(v)
                ents.append(ent)
                rets.append(torch.tensor(g).double())
            lp, v, ent, R = torch.cat(logits), torch.cat(vals), torch.cat(ents), torch.cat(rets)
            adv = R - v
            loss = cfg["vc"] * (adv**2).mean() - cfg["pc"] * (adv.detach() * lp).mean() - cfg["ec"] * ent.mean()
            gr = clipped(grads(loss, [tw.m["model"]]), cfg["gnorm"])
            verify(rec, log[0][2], p0, gr, cfg["lr"], "A2C update at step %d" % t)
            rec.outcome(("a2c", np.round(log[0][2], 3).tolist()))
            del log[:]
            roll = []
        cur = [next(uid) if d or r else u for d, r, u in zip(dn, rt, nu)]


# ------------------------------------------------------------------------- A3C


def run_a3c(rec, o, script, foreign):
    import torch
    from pfrl.agents import A3C

    cfg = dict(dict(gamma=0.9, K=2, vc=0.5, pc=1.0, beta=0.01, same=False, norm=False, gnorm=None, lr=0.3, cont=False, rec=False, t0=0), **o)
    mods = build("ppo", cfg["rec"], cfg["cont"], 4)
    model = mods["model"]
    model.share_memory()
    log = []
    ag = A3C(
        model, sgd(model, log, cfg["lr"]), t_max=cfg["K"], gamma=cfg["gamma"], beta=cfg["beta"], phi=phi, pi_loss_coef=cfg["pc"], v_loss_coef=cfg["vc"],
        keep_loss_scale_same=cfg["same"], normalize_grad_by_t_max=cfg["norm"], max_grad_norm=cfg["gnorm"], recurrent=cfg["rec"], batch_states=batch_states,
    )
    if cfg["t0"]:
        ag.t = cfg["t0"]
    tw = Twin("ppo", mods, cfg["rec"], cfg["cont"])
    zero = lambda: tw.zero() if cfg["rec"] else None
    delta = np.linspace(-0.2, 0.3, len(A.flat(model)))
    uid = itertools.count(1)
    cur = next(uid)
    h = zero()
    roll = []
    local = A.flat(model)
    for t, (dn, rt) in enumerate(script):
        A.set_flat(tw.m["model"], local)
        a = ag.act(given(cur))
        nh = tw.run([cur], h)[2][0]
        roll.append((cur, np.array(a), None, h))
        if t == foreign:
            A.set_flat(model, A.flat(model) + delta)  # another worker
        shared = A.flat(model)
        h = nh
        nu = next(uid)
        r = rew(nu)
        ag.observe(given(nu), r, dn, rt)
        rec.step()
        rec.eq(ag.t, cfg["t0"] + t + 1, "agent.t")
        roll[-1] = roll[-1][:2] + (r,) + roll[-1][3:]
        if dn or rt or len(roll) == cfg["K"]:
            rec.eq(len(log), 1, "optimizer steps at the end of a rollout")
            m = len(roll)
            A.set_flat(tw.m["model"], local)
            R = 0.0
            if not dn:
                with torch.no_grad():
                    R = float(tw.run([nu], h)[1][0])
            rets = [sum(cfg["gamma"] ** (k - j) * roll[k][2] for k in range(j, m)) + cfg["gamma"] ** (m - j) * R for j in range(m)]
            out, v, _ = tw.run([x[0] for x in roll], roll[0][3])
            lp, ent = tw.logp_ent(out, [x[1] for x in roll])
            R_ = torch.tensor(rets).double()
            adv = R_ - v.detach()
            f = (cfg["K"] / m if cfg["same"] else 1.0) / (m if cfg["norm"] else 1.0)
            loss = f * (cfg["pc"] * (-adv * lp - cfg["beta"] * ent).sum() + cfg["vc"] * ((v - R_) ** 2).sum() / 2)
            gr = clipped(grads(loss, [tw.m["model"]]), cfg["gnorm"])
            verify(rec, log[0][2], shared, gr, cfg["lr"], "A3C update at step %d" % t)
            rec.check(np.array_equal(A.flat(model), log[0][2]), "shared model changed after the optimizer step")
            rec.check(np.array_equal(A.flat(ag.model), A.flat(model)), "local model not synchronized after the update")
            local = A.flat(model)
            rec.outcome(("a3c", np.round(local, 3).tolist()))
            del log[:]
            roll = []
        else:
            rec.eq(len(log), 0, "optimizer steps in the middle of a rollout")
            rec.check(np.array_equal(A.flat(model), shared), "shared model changed without an update")
            rec.check(np.array_equal(A.flat(ag.model), local), "local model changed without an update")
        if dn or rt:
            h = zero()
            cur = next(uid)
        else:
            cur = nu


# -------------------------------------------------------------------- REINFORCE


class PolTwin(Twin):
    def parts(self):
        import torch

        m = self.m["model"]
        lin = [x for x in m.modules() if type(x) is torch.nn.Linear][0]
        g = [x for x in m.modules() if isinstance(x, torch.nn.GRU)][0] if self.recurrent else None
        return g, lin, g, lambda x: x[:, :1]


def run_reinforce(rec, o, script):
    import torch
    from torch import nn

    import pfrl
    from pfrl.agents import REINFORCE

    cfg = dict(dict(beta=0.0, bs=1, sep=False, gnorm=None, lr=0.3, cont=False, rec=False), **o)
    Cat, Gau = heads()
    head = Gau if cfg["cont"] else Cat
    if cfg["rec"]:
        model = pfrl.nn.RecurrentSequential(nn.GRU(2, 2), nn.Linear(2, NA), head())
    else:
        model = nn.Sequential(nn.Linear(2, NA), head())
    A.init(model, 4)
    log = []
    ag = REINFORCE(
        model, sgd(model, log, cfg["lr"]), beta=cfg["beta"], phi=phi, batchsize=cfg["bs"], backward_separately=cfg["sep"], batch_states=batch_states,
        recurrent=cfg["rec"], max_grad_norm=cfg["gnorm"],
    )
    tw = PolTwin("ppo", {"model": model}, cfg["rec"], cfg["cont"])
    uid = itertools.count(1)
    cur = next(uid)
    ep, eps = [], []
    for t, (dn, rt) in enumerate(script):
        p0 = A.flat(model)
        a = ag.act(given(cur))
        nu = next(uid)
        r = rew(nu)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ag.observe(given(nu), r, dn, rt)
        rec.step()
        ep.append((cur, np.array(a), r))
        cur = nu
        if dn or rt:
            if dn:
                eps.append(ep)
            ep = []
            cur = next(uid)
        if len(eps) == cfg["bs"]:
            rec.eq(len(log), 1, "optimizer steps after batchsize episodes")
            A.set_flat(tw.m["model"], p0)
            loss = 0.0
            for e in eps:
                out, _, _ = tw.run([x[0] for x in e], tw.zero() if cfg["rec"] else None)
                lp, ent = tw.logp_ent(out, [x[1] for x in e])
                R = torch.tensor([sum(x[2] for x in e[j:]) for j in range(len(e))]).double()
                loss = loss + (-R * lp - cfg["beta"] * ent).sum() / cfg["bs"]
            gr = clipped(grads(loss, [tw.m["model"]]), cfg["gnorm"])
            verify(rec, log[0][2], p0, gr, cfg["lr"], "REINFORCE update at step %d (episodes of length %s)" % (t, [len(e) for e in eps]))
            rec.outcome(("reinforce", np.round(log[0][2], 3).tolist()))
            del log[:]
            eps = []
        else:
            rec.eq(len(log), 0, "optimizer steps before batchsize episodes have terminated")
            rec.check(np.array_equal(A.flat(model), p0), "parameters changed without an update")


def unit_a2c(rec, o, n, T, outs, single, part=0, parts=1):
    for k, script in enumerate(scripts(itertools.product(outs, repeat=n), T)):
        if k % parts == part:
            rec.begin({"agent": "A2C", "options": o, "script": script})
            run_a2c(rec, o, n, script, single)
            rec.state(("a2c", repr(o), script))


def unit_a3c(rec, o, T, outs, foreign):
    for script in scripts(outs, T):
        for f in foreign:
            rec.begin({"agent": "A3C", "options": o, "script": script, "foreign": f})
            run_a3c(rec, o, script, f)
            rec.state(("a3c", repr(o), script, f))


def unit_reinforce(rec, o, T, outs):
    for script in scripts(outs, T):
        rec.begin({"agent": "REINFORCE", "options": o, "script": script})
        run_reinforce(rec, o, script)
        rec.state(("reinforce", repr(o), script))


def units(tier):
    T = tier == "thorough"
    us = []
    a2c = [{}, dict(K=3, gae=True, gnorm=0.5), dict(K=1, vc=1.0, pc=0.3, ec=0.2, t0=7), dict(K=4, gamma=1.0, gae=True, tau=1.0), dict(K=3, cont=True, gamma=0.5), dict(K=2, gae=True, tau=0.0, t0=7)]
    for i, o in enumerate(a2c):
        us.append(("a2c-%d-1" % i, unit_a2c, o, 1, 7 if T else 5, OUT4[:3], True))
        us.append(("a2c-%d-long" % i, unit_a2c, o, 1, (3, 16), OUT4[:3], False))
        us.append(("a2c-%d-long3" % i, unit_a2c, o, 3, (1, 8), OUT4[:3], False))
        us.append(("a2c-%d-2" % i, unit_a2c, o, 2, 4 if T else 3, OUT4[:3], False))
        if T:
            us.append(("a2c-%d-3" % i, unit_a2c, o, 3, 2, OUT4, False))
    a3c = [{}, dict(K=3, same=True, gnorm=0.5), dict(K=4, norm=True, beta=0.2, gamma=1.0), dict(K=1, pc=0.3, vc=1.0, t0=7), dict(K=3, cont=True, same=True, norm=True), dict(K=3, t0=7)]
    for i, o in enumerate(a3c):
        us.append(("a3c-%d" % i, unit_a3c, o, 6 if T else 5, OUT4 if T else OUT4[:3], (-1,)))
        us.append(("a3c-%d-long" % i, unit_a3c, o, (3, 16), OUT4[:3], (-1,)))
        us.append(("a3c-%d-longr" % i, unit_a3c, dict(o, rec=True), (3, 12), OUT4[:3], (-1,)))
        us.append(("a3c-%d-f" % i, unit_a3c, o, 5 if T else 4, OUT4[:3], range(4)))
        o2 = dict(o, rec=True)
        us.append(("a3c-%d-r" % i, unit_a3c, o2, 6 if T else 5, OUT4[:3], (-1,)))
        us.append(("a3c-%d-rf" % i, unit_a3c, o2, 4 if T else 3, OUT4[:3], range(3)))
    rf = [{}, dict(bs=2, beta=0.1), dict(bs=2, sep=True, gnorm=0.5), dict(bs=3, beta=0.2, gnorm=0.3), dict(cont=True, sep=True)]
    for i, o in enumerate(rf):
        us.append(("rf-%d" % i, unit_reinforce, o, 7 if T else 6, OUT4[:3]))
        us.append(("rf-%d-r" % i, unit_reinforce, dict(o, rec=True), 6 if T else 5, OUT4[:3]))
        us.append(("rf-%d-long" % i, unit_reinforce, o, (3, 16), OUT4[:3]))
        us.append(("rf-%d-4" % i, unit_reinforce, o, 5 if T else 4, OUT4))
    return us
