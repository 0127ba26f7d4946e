"""P16  ACER: rollouts, replay and updates.

The real agent (tiny networks, scripted action choice) with a recording episodic
replay buffer is driven through every script of episode ends; a shadow predicts
every online and replayed update in double precision: retrace targets,
truncated importance weights with bias correction, trust region, Q loss, the
exchange with the shared model and the average model.
"""
import copy
import itertools
import math

import numpy as np

from mc import agents as A
from mc.core import scripts
from mc.props.p14 import NA, OUT4, clipped, dists, given, grads, heads, obs_of, phi, rew, uid_of

RULE = "one case per (options, script of episode ends, moment of a foreign update); non-trivial outcomes = distinct parameter trajectories"
BOUNDS = {
    "quick": "4-5 steps, per step {continue, done, reset}(+done and reset for 4 steps); t_max 1-4; discrete, continuous and recurrent models; trust region on/off, "
    "truncation None/0.5/1/10, online update on/off, Q_opc, 0-2 replays, replay_start_size 1-3, loss coefficients, gradient-norm limit; foreign update of the shared model at any step",
    "thorough": "6 steps",
}
ASSUMPTIONS = ["floating point results are compared with tolerance 1e-3 relative to the step", "sub-sequences sampled from the replay buffer are observed (their distribution is P02's subject)"]
TOL = 1e-3


def batch(o):
    return o * 4  # phi multiplies by 8, given() divides by 2: see obs_in


def obs_in(uid):
    """What the network sees: phi(given(uid))."""
    return phi(given(uid))


def gau2():
    """Gaussian head with learned mean and scale."""
    from torch import distributions as D
    from torch import nn
    from torch.nn import functional as F

    _, SInd = dists()

    class Gau2(nn.Module):
        def forward(self, x):
            return SInd(D.Normal(x[..., :NA], F.softplus(x[..., NA:]) + 0.3), 1)

    return Gau2()


def make_model(cont, rec_, seed):
    from torch import nn

    import pfrl
    from pfrl.agents.acer import ACERContinuousActionHead, ACERDiscreteActionHead

    Cat, _ = heads()
    d = 2
    if cont:
        head = ACERContinuousActionHead(
            pi=nn.Sequential(nn.Linear(d, 2 * NA), gau2()), v=nn.Linear(d, 1), adv=nn.Sequential(pfrl.nn.ConcatObsAndAction(), nn.Linear(d + NA, 3), nn.Tanh(), nn.Linear(3, 1)), n=2
        )
    else:
        head = ACERDiscreteActionHead(pi=nn.Sequential(nn.Linear(d, NA), Cat()), q=nn.Sequential(nn.Linear(d, NA), pfrl.q_functions.DiscreteActionValueHead()))
    m = pfrl.nn.RecurrentSequential(nn.GRU(2, d), head) if rec_ else head
    return A.init(m, seed, 0.6)


class Net(object):
    """Double-precision copy, one step at a time, with the shape of the head."""

    def __init__(self, model, cont, rec_):
        import torch

        self.m = copy.deepcopy(model).double()
        self.cont, self.rec = cont, rec_
        self.head = self.m[1] if rec_ else self.m
        self.gru = self.m[0] if rec_ else None

    def zero(self):
        import torch

        return torch.zeros(1, 1, 2).double() if self.rec else None

    def step(self, uid, h):
        import torch

        x = torch.tensor(obs_in(uid)).double().reshape(1, -1)
        if self.rec:
            y, h = self.gru(x.reshape(1, 1, -1), h)
            x = y[0]
        hd = self.head
        out = hd.pi[0](x)[0]
        if self.cont:
            v = hd.v(x)[0, 0]
            out = torch.cat([out[:NA], torch.nn.functional.softplus(out[NA:]) + 0.3])
            loc = out[:NA]
            smp = (loc + 0.4 * torch.sin(50 * loc)).detach()

            def q(a):
                f = lambda z: hd.adv[1:](torch.cat([x[0], z]).reshape(1, -1))[0, 0]
                return v + f(a) - f(smp)

            par = (out,)
        else:
            par = (torch.log_softmax(out, 0),)
            qs = hd.q[0](x)[0]
            v = (par[0].exp() * qs).sum()
            q = lambda a: qs[int(a)]
        return dict(par=par[0], v=v, q=q, sample=smp if self.cont else None), h

    def logp(self, par, a):
        import torch

        if self.cont:
            return (-0.5 * ((a - par[:NA]) / par[NA:]) ** 2 - torch.log(par[NA:]) - 0.5 * math.log(2 * math.pi)).sum()
        return par[int(a)]

    def ent(self, par):
        if self.cont:
            return NA * (0.5 + 0.5 * math.log(2 * math.pi)) + par[NA:].log().sum()
        return -(par.exp() * par).sum()

    def kl(self, old, new):
        if self.cont:
            lo, so, ln, sn = old[:NA], old[NA:], new[:NA], new[NA:]
            return ((sn / so).log() + (so**2 + (lo - ln) ** 2) / (2 * sn**2) - 0.5).sum()
        return (old.exp() * (old - new)).sum()


def loss_of(net, steps, R, cfg):
    """steps: list of dict(n=step output, a, r, mu or None, avg)."""
    import torch

    total = 0.0
    qret = qopc = R
    for s in reversed(steps):
        n, a = s["n"], s["a"]
        par, v = n["par"], n["v"]
        vf = float(v.detach())
        rho = 1.0 if s["mu"] is None else float(torch.exp(net.logp(par, a) - net.logp(s["mu"], a)).detach())
        qret = s["r"] + cfg["gamma"] * qret
        qopc = s["r"] + cfg["gamma"] * qopc
        adv = (qopc if cfg["opc"] else qret) - vf
        lp = net.logp(par, a)
        c = cfg["trunc"]
        if s["mu"] is None:
            g = -lp * adv
        elif c is None:
            g = -rho * lp * adv
        else:
            g = -min(c, rho) * lp * adv
            if net.cont:
                b = n["sample"]
                w = max(0.0, 1 - c * float(torch.exp(net.logp(s["mu"], b) - net.logp(par, b)).detach()))
                g = g - w * net.logp(par, b) * (float(n["q"](b).detach()) - vf)
            else:
                for j in range(NA):
                    pj = float(par[j].exp().detach())
                    w = max(0.0, 1 - c * float((s["mu"][j] - par[j]).exp().detach())) * pj
                    g = g - w * par[j] * (float(n["q"](j).detach()) - vf)
        if cfg["tr"]:
            gv = torch.autograd.grad(g, par, retain_graph=True)[0]
            kv = torch.autograd.grad(-net.kl(s["avg"], par), par, retain_graph=True)[0]
            kk = float(kv @ kv)
            f = max(0.0, (float(kv @ gv) - cfg["delta"]) / kk) if kk > 0 else 0.0
            pl = (par * (gv - f * kv).detach()).sum()
        else:
            pl = g
        pl = pl - cfg["beta"] * net.ent(par)
        Q = n["q"](a)
        Qf = float(Q.detach())
        ql = (qret - Q) ** 2 / 2
        if net.cont:
            vt = min(1.0, rho) * (qret - Qf) + vf
            ql = ql + (vt - v) ** 2 / 2
        total = total + cfg["pc"] * pl + cfg["qc"] * ql
        cc = min(1.0, rho if not net.cont else rho ** (1.0 / NA))
        qret = cc * (qret - Qf) + vf
        qopc = qopc - Qf + vf
    return total / len(steps) if cfg["norm"] else total


DEF = dict(gamma=0.9, K=2, beta=0.01, pc=1.0, qc=0.5, tr=True, alpha=0.9, delta=0.05, trunc=10, online=True, nrep=1, start=1, norm=True, gnorm=None, lr=0.2, opc=False, cont=False, rec=False, t0=0, buf=True)


def run(rec, o, script, foreign):
    import random

    import torch

    from pfrl.agents import ACER
    from pfrl.replay_buffers import EpisodicReplayBuffer

    cfg = dict(DEF, **o)
    random.seed(3)
    np.random.seed(3)
    model = make_model(cfg["cont"], cfg["rec"], 6)
    model.share_memory()
    log = []
    opt = A.log_sgd(model, "m", log, lr=cfg["lr"])

    class Buf(EpisodicReplayBuffer):
        def sample_episodes(self, n, max_len=None):
            r = super().sample_episodes(n, max_len)
            log.append(("ep", n, max_len, r))
            return r

    ag = ACER(
        model, opt, t_max=cfg["K"], gamma=cfg["gamma"], replay_buffer=Buf(10**3) if cfg["buf"] else None, beta=cfg["beta"], phi=phi, pi_loss_coef=cfg["pc"], Q_loss_coef=cfg["qc"],
        use_trust_region=cfg["tr"], trust_region_alpha=cfg["alpha"], trust_region_delta=cfg["delta"], truncation_threshold=cfg["trunc"], disable_online_update=not cfg["online"],
        n_times_replay=cfg["nrep"], replay_start_size=cfg["start"], normalize_loss_by_steps=cfg["norm"], max_grad_norm=cfg["gnorm"], recurrent=cfg["rec"], use_Q_opc=cfg["opc"],
    )
    if cfg["t0"]:
        ag.t = cfg["t0"]
    net, avg = Net(model, cfg["cont"], cfg["rec"]), Net(model, cfg["cont"], cfg["rec"])
    # `roll` keeps graphs of the rollout: parameters are constant during it
    delta = np.linspace(-0.1, 0.15, len(A.flat(model)))
    local = A.flat(model)
    avg_p = A.flat(model)
    uid = itertools.count(1)
    cur = next(uid)
    h, ha, hu = net.zero(), net.zero(), None
    roll = []
    done_n = open_n = 0
    hist = {}

    def check_update(got, shared, steps, R, what):
        g = clipped(grads(loss_of(net, steps, R, cfg), [net.m]), cfg["gnorm"])
        want = shared - cfg["lr"] * g
        rec.check(
            np.abs(got - want).max() <= TOL * max(1.0, cfg["lr"] * np.abs(g).max()),
            "%s: parameters differ by %g (step %g)" % (what, np.abs(got - want).max(), np.abs(want - shared).max()),
        )

    for t, (dn, rt) in enumerate(script):
        A.set_flat(net.m, local)
        A.set_flat(avg.m, avg_p)
        a = ag.act(given(cur))
        h0 = h
        n, h = net.step(cur, h)
        with torch.no_grad():
            na, ha = avg.step(cur, ha)
        ta = torch.tensor(a).double() if cfg["cont"] else int(a)
        # recomputed at update time from the beginning of the rollout
        roll.append(dict(u=cur, a=ta, avg=na["par"].detach(), h=None if h0 is None else h0.detach()))
        hist[cur] = dict(a=ta, mu=n["par"].detach())
        h = None if h is None else h.detach()
        if t == foreign:
            A.set_flat(model, A.flat(model) + delta)
        shared = A.flat(model)
        nu = next(uid)
        r = rew(nu)
        roll[-1]["r"] = r
        hist[cur].update(r=r, nu=nu, done=dn)
        del log[:]
        ag.observe(given(nu), r, dn, rt)
        rec.step()
        rec.eq(ag.t, cfg["t0"] + t + 1, "agent.t")
        open_n += 1
        if dn or rt:
            done_n += open_n
            open_n = 0
        ev = list(log)
        if dn or rt or len(roll) == cfg["K"]:
            kinds = (["opt"] if cfg["online"] else []) + (["ep", "opt"] * cfg["nrep"] if cfg["buf"] and done_n >= cfg["start"] else [])
            rec.eq([e[0] for e in ev], kinds, "updates at the end of a rollout (%d transitions stored)" % done_n)
            i = 0
            if cfg["online"]:
                A.set_flat(net.m, local)
                hh = roll[0]["h"]
                for s in roll:
                    s["n"], hh = net.step(s["u"], hh)
                    s["mu"] = None
                R = 0.0
                if not dn:
                    with torch.no_grad():
                        R = float(net.step(nu, h)[0]["v"])
                check_update(ev[0][2], shared, roll, R, "online update at step %d" % t)
                shared = local = ev[0][2]
                avg_p = cfg["alpha"] * avg_p + (1 - cfg["alpha"]) * local
                i = 1
            while i < len(ev):
                _, ne, ml, eps = ev[i]
                got = ev[i + 1][2]
                i += 2
                rec.eq((ne, ml, len(eps)), (1, cfg["K"], 1), "sampled episodes")
                A.set_flat(net.m, local)
                A.set_flat(avg.m, avg_p)
                hh, hb = net.zero(), net.zero()
                steps = []
                for tr in eps[0]:
                    u = uid_of(np.asarray(tr["state"]) * 2)
                    x = hist[u]
                    rec.check(np.allclose(tr["next_state"], given(x["nu"])) and tr["reward"] == x["r"] and bool(tr["is_state_terminal"]) == x["done"], "stored transition")
                    rec.check(np.allclose(np.asarray(tr["action"]), np.asarray(x["a"]), atol=1e-6), "stored action")
                    mu = torch.cat([tr["mu"].base_dist.loc[0], tr["mu"].base_dist.scale[0]]) if cfg["cont"] else tr["mu"].logits[0]
                    rec.check(np.allclose(mu.detach().numpy(), x["mu"].numpy(), atol=1e-4), "stored behaviour distribution")
                    st, hh = net.step(u, hh)
                    with torch.no_grad():
                        sa, hb = avg.step(u, hb)
                    steps.append(dict(u=u, n=st, a=x["a"], r=x["r"], mu=x["mu"], avg=sa["par"]))
                last = hist[steps[-1]["u"]]
                R = 0.0
                if not last["done"]:
                    with torch.no_grad():
                        R = float(net.step(last["nu"], hh)[0]["v"])
                check_update(got, local if i > 2 or cfg["online"] else shared, steps, R, "replay update at step %d" % t)
                local = got
                avg_p = cfg["alpha"] * avg_p + (1 - cfg["alpha"]) * local
            if ev:
                rec.check(np.array_equal(A.flat(model), local), "shared model changed after the last update")
            roll = []
            rec.outcome(np.round(local, 3).tolist())
        else:
            rec.eq([e[0] for e in ev], [], "updates in the middle of a rollout")
            rec.check(np.array_equal(A.flat(model), shared), "shared model changed without an update")
        rec.check(np.array_equal(A.flat(ag.model), local), "local model is not the synchronized one")
        rec.check(np.allclose(A.flat(ag.shared_average_model), avg_p, atol=1e-5), "average model")
        if dn or rt:
            h, ha = net.zero(), net.zero()
            cur = next(uid)
        else:
            cur = nu


def unit(rec, o, T, outs, foreign, part=0, parts=1):
    k = -1
    for script in scripts(outs, T):
        for f in foreign:
            k += 1
            if k % parts != part:
                continue
            rec.begin({"options": o, "script": script, "foreign": f})
            run(rec, o, script, f)
            rec.state((repr(o), script, f))


def units(tier):
    T = tier == "thorough"
    cfgs = [
        {}, dict(K=3, trunc=1, nrep=2, start=3), dict(K=4, tr=False, trunc=0.5, norm=False, lr=0.05, beta=0.2), dict(K=3, tr=False, trunc=None, opc=True, gnorm=0.5),
        dict(K=2, online=False, nrep=2), dict(K=1, buf=False, pc=0.3, qc=1.0, t0=7), dict(K=3, nrep=0, delta=1.0), dict(K=3, alpha=0.5, delta=0.0, trunc=1, lr=0.5, t0=7),
        dict(K=3, cont=True, trunc=0.8, lr=0.02), dict(K=2, cont=True, opc=True, tr=False, trunc=None, nrep=2, lr=0.02), dict(K=3, cont=True, tr=True, norm=False, lr=0.01, trunc=1.5, delta=0.01),
    ]
    us = []
    for i, o in enumerate(cfgs):
        for r in (False, True):
            o2 = dict(o, rec=True) if r else o
            nm = "%d%s" % (i, "r" if r else "")
            for k in range(2):
                us.append((nm + "-a-%d" % k, unit, o2, 6 if T else 5 if not r else 4, OUT4[:3], (-1,), k, 2))
            if not r:
                us.append((nm + "-b", unit, o2, 5 if T else 4, OUT4, (-1,)))
            us.append((nm + "-long", unit, o2, (3, 16) if T else (2, 12), OUT4[:3], (-1,)))
            us.append((nm + "-f", unit, o2, 4 if T else 3, OUT4[:3], range(3)))
    return us
