"""P14  PPO and TRPO: what they collect, when they update and what the update is.

The real agents (tiny networks, scripted action choice) are driven through every
joint script of episode ends. A shadow of the collection (segments, recurrent
states) predicts when an update happens; the minibatches actually fed to the
network are observed from outside, and every optimizer step is compared with
an independent double-precision computation of GAE, the clipped loss, the
natural-gradient step and the line search.
"""
import copy
import itertools
import math

import numpy as np

from mc import agents as A
from mc.core import scripts

RULE = "one case per (agent, options, joint script of episode ends); non-trivial outcomes = distinct parameter trajectories"
BOUNDS = {
    "quick": "per environment step {continue, done, reset, done+reset}; 1 environment x 4 steps (5 for long intervals, without done+reset), 2 environments x 3 steps (continue/done) and x 2 steps (all), update_interval 1-5, 7 option sets "
    "(minibatch size below/above the data set size, 1-3 epochs, value clipping, gradient clipping, (un)standardized advantages, gamma/lambda, discrete and continuous actions); "
    "recurrent PPO with sequence limits; TRPO and recurrent TRPO with max_kl small/large and 0-10 backtracks, all outcome sequences of up to 3 line search trials (worse, too far, NaN or infinite objective or divergence); observation normalizer",
    "thorough": "1 environment x 5-6 steps, 2 environments x 4 steps (three outcomes), 3 environments x 2 steps",
}
ASSUMPTIONS = [
    "with standardize_advantages, data sets whose advantages are all equal are judged for the schedule only (the standardized values are rounding noise)",
    "floating point results are compared with tolerance 5e-4 relative to the step",
    "the numerical content of updates with an observation normalizer is not judged, only its statistics and the schedule",
]
OUT4 = [(False, False), (True, False), (False, True), (True, True)]
NA = 2
H = 2
TOL = 5e-4


def obs_of(uid):
    return np.array([uid / 16.0, math.sin(1.7 * uid)], dtype=np.float32)


def uid_of(x):
    return int(round(float(x[0]) * 16))


def given(uid):
    """What the environment hands out; phi and batch_states of the agent turn
    it into obs_of(uid)."""
    return obs_of(uid) / 2


def phi(o):
    return o * 8


def batch_states(states, device, phi):
    import torch

    return torch.tensor(np.stack([phi(s) for s in states]) / 4, device=device)


def rew(uid):
    return (-1.0, 0.5, 2.0, 0.0)[(uid * 7) % 4] + 0.1 * (uid % 3)


def dists():
    import torch
    from torch import distributions as D

    class SCat(D.Categorical):
        def sample(self, sample_shape=torch.Size()):
            z = (self.logits * 997.0).sin().abs() * 1000
            return (z.floor().long()[..., 0]) % self.logits.shape[-1]

    class SInd(D.Independent):
        def sample(self, sample_shape=torch.Size()):
            loc = self.base_dist.loc
            return (loc + 0.4 * torch.sin(50 * loc)).detach()

    return SCat, SInd


def heads():
    import torch
    from torch import distributions as D
    from torch import nn

    SCat, SInd = dists()

    class Cat(nn.Module):
        def forward(self, x):
            return SCat(logits=x)

    class Gau(nn.Module):
        def forward(self, x):
            return SInd(D.Normal(x, torch.full_like(x, 0.7)), 1)

    return Cat, Gau


def build(agent_kind, recurrent, cont, seed):
    from torch import nn

    import pfrl

    Cat, Gau = heads()
    head = Gau if cont else Cat

    if agent_kind == "ppo":
        if recurrent:
            m = pfrl.nn.RecurrentSequential(
                nn.GRU(2, H), pfrl.nn.Branched(nn.Sequential(nn.Linear(H, NA), head()), nn.Linear(H, 1))
            )
        else:
            m = pfrl.nn.Branched(nn.Sequential(nn.Linear(2, NA), head()), nn.Linear(2, 1))
        return {"model": A.init(m, seed)}
    if recurrent:
        p = pfrl.nn.RecurrentSequential(nn.GRU(2, H), nn.Linear(H, NA), head())
        v = pfrl.nn.RecurrentSequential(nn.GRU(2, H), nn.Linear(H, 1))
    else:
        p = nn.Sequential(nn.Linear(2, NA), head())
        v = nn.Linear(2, 1)
    return {"policy": A.init(p, seed), "vf": A.init(v, seed + 1)}


class Twin(object):
    """Double-precision copy evaluated one step at a time."""

    def __init__(self, kind, mods, recurrent, cont):
        self.kind, self.recurrent, self.cont = kind, recurrent, cont
        self.m = {k: copy.deepcopy(v).double() for k, v in mods.items()}

    def load(self, mods):
        for k, v in mods.items():
            A.set_flat(self.m[k], A.flat(v))

    def parts(self):
        import torch

        lin = [x for x in (self.m["model"] if self.kind == "ppo" else self.m["policy"]).modules() if type(x) is torch.nn.Linear]
        gru = lambda m: [x for x in m.modules() if isinstance(x, torch.nn.GRU)][0] if self.recurrent else None
        if self.kind == "ppo":
            g = gru(self.m["model"])
            return g, lin[0], g, lin[1]
        lv = [x for x in self.m["vf"].modules() if type(x) is torch.nn.Linear][0]
        return gru(self.m["policy"]), lin[0], gru(self.m["vf"]), lv

    def zero(self):
        import torch

        return (torch.zeros(1, 1, H).double(), torch.zeros(1, 1, H).double())

    def run(self, uids, h):
        """(T, NA) policy outputs, (T,) values, hidden states after each step."""
        import torch

        gp, lp, gv, lv = self.parts()
        if not self.recurrent:
            x = torch.tensor(np.array([obs_of(u) for u in uids])).double()
            return lp(x), lv(x)[:, 0], [None] * len(uids)
        ps, vs, hs = [], [], []
        hp, hv = h
        for u in uids:
            x = torch.tensor(obs_of(u)).double().reshape(1, 1, -1)
            yp, hp = gp(x, hp)
            yv, hv = gv(x, hv)
            ps.append(lp(yp[0])[0])
            vs.append(lv(yv[0])[0, 0])
            hs.append((hp.detach(), hv.detach()))
        return torch.stack(ps), torch.stack(vs), hs

    def logp_ent(self, out, actions):
        import torch

        if self.cont:
            a = torch.tensor(np.array(actions)).double()
            lp = (-0.5 * ((a - out) / 0.7) ** 2 - math.log(0.7) - 0.5 * math.log(2 * math.pi)).sum(1)
            ent = torch.full((len(actions),), NA * (0.5 + 0.5 * math.log(2 * math.pi) + math.log(0.7))).double()
            return lp, ent
        ls = torch.log_softmax(out, 1)
        lp = ls[torch.arange(len(actions)), torch.tensor([int(a) for a in actions])]
        return lp, -(ls.exp() * ls).sum(1)

    def kl(self, old, new):
        import torch

        if self.cont:
            return (((old - new) ** 2) / (2 * 0.49)).sum(1).mean()
        lo, ln = torch.log_softmax(old, 1), torch.log_softmax(new, 1)
        return (lo.exp() * (lo - ln)).sum(1).mean()


class Feed(object):
    """Observes the batches fed to a module with gradients enabled."""

    def __init__(self, module, recurrent):
        self.last = None
        self.recurrent = recurrent
        module.register_forward_pre_hook(self.hook)

    def hook(self, mod, args):
        import torch

        if not torch.is_grad_enabled():
            return
        x = args[0]
        if isinstance(x, torch.nn.utils.rnn.PackedSequence):
            padded, lens = torch.nn.utils.rnn.pad_packed_sequence(x, batch_first=True)
            self.last = [[uid_of(o) for o in p[:n]] for p, n in zip(padded.detach(), lens)]
        else:
            self.last = [[uid_of(o)] for o in x.detach()]


def gae(seg, tw, cfg):
    """Adds lp, v, adv, vt to the transitions of one segment (double)."""
    import torch

    with torch.no_grad():
        out, v, _ = tw.run([x["u"] for x in seg], seg[0]["h"])
        lp, _ = tw.logp_ent(out, [x["a"] for x in seg])
        _, nv, _ = tw.run([x["nu"] for x in seg], seg[0]["nh"])
    n = len(seg)
    for i, x in enumerate(seg):
        x["lp"], x["v"] = float(lp[i]), float(v[i])
        x["delta"] = x["r"] + (0.0 if x["done"] else cfg["gamma"] * float(nv[i])) - x["v"]
    for i, x in enumerate(seg):
        x["adv"] = sum((cfg["gamma"] * cfg["lambd"]) ** (j - i) * seg[j]["delta"] for j in range(i, n))
        x["vt"] = x["adv"] + x["v"]


def ppo_loss(tw, seqs, by, cfg, mean, std):
    import torch

    out, vs, items = [], [], []
    for s in seqs:
        o, v, _ = tw.run(s, by[s[0]]["h"])
        out.append(o)
        vs.append(v)
        items += [by[u] for u in s]
    out, vs = torch.cat(out), torch.cat(vs)
    t = lambda k: torch.tensor([x[k] for x in items]).double()
    lp, ent = tw.logp_ent(out, [x["a"] for x in items])
    adv = t("adv")
    if cfg["std"]:
        adv = (adv - mean) / (std + 1e-8)
    ratio = torch.exp(lp - t("lp"))
    lo, hi = 1 - cfg["clip"], 1 + cfg["clip"]
    pol = -torch.where(
        ratio * adv <= ratio.clamp(lo, hi) * adv, ratio * adv, ratio.clamp(lo, hi) * adv
    ).mean()
    vt = t("vt")
    if cfg["vclip"] is None:
        vl = ((vs - vt) ** 2).mean()
    else:
        vo = t("v")
        cv = vo + (vs - vo).clamp(-cfg["vclip"], cfg["vclip"])
        a, b = (vs - vt) ** 2, (cv - vt) ** 2
        vl = torch.where(a >= b, a, b).mean()
    return pol + cfg["vcoef"] * vl - cfg["ecoef"] * ent.mean()


def grads(loss, mods):
    import torch

    ps = [p for m in mods for p in m.parameters()]
    gs = torch.autograd.grad(loss, ps, allow_unused=True)
    return np.concatenate([(torch.zeros_like(p) if g is None else g).reshape(-1).numpy() for p, g in zip(ps, gs)])


def clipped(g, c):
    n = np.linalg.norm(g)
    return g if c is None or n <= c else g * (c / n)


def close(a, b, scale):
    return np.abs(a - b).max() <= TOL * max(1.0, scale)


def batch_usage(rec, minis, dataset, cfg, epochs, M, recurrent, segs, maxlen):
    """Which items the minibatches of one update used."""
    N = len(dataset)
    ids = {x["u"] for x in dataset}
    if not recurrent:
        rec.eq(len(minis), -(-N * epochs // M), "number of minibatches of %d transitions, %d epochs of size %d" % (N, epochs, M))
        cnt = {u: 0 for u in ids}
        for k, mb in enumerate(minis):
            us = [u for s in mb for u in s]
            rec.eq(len(us), M, "minibatch size")
            for u in us:
                rec.check(u in cnt, "minibatch contains observation %d that is not in the data set" % u)
                cnt[u] += 1
            rec.check(max(cnt.values()) - min(cnt.values()) <= 1, "some transitions used %d times while others %d times" % (max(cnt.values()), min(cnt.values())))
        return
    per = N // M
    rec.eq(len(minis), per * epochs, "number of minibatches of %d transitions, %d epochs of size %d" % (N, epochs, M))
    nxt = {}
    for s in segs:
        for a, b in zip(s, s[1:]):
            nxt[a["u"]] = b["u"]
    for e in range(epochs):
        seen = set()
        for mb in minis[e * per : (e + 1) * per]:
            us = [u for s in mb for u in s]
            rec.eq(len(us), M, "minibatch size")
            for s in mb:
                rec.check(maxlen is None or len(s) <= maxlen, "sequence longer than max_recurrent_sequence_len")
                for a, b in zip(s, s[1:]):
                    rec.check(nxt.get(a) == b, "observation %d follows %d in a training sequence" % (b, a))
            for u in us:
                rec.check(u in ids, "minibatch contains observation %d that is not in the data set" % u)
                rec.check(u not in seen, "transition used twice in one epoch")
                seen.add(u)


def drive(rec, ag, mods, tw, n, script, single, on_update, U, cfg):
    """Runs one script; calls on_update(dataset segments, params before)."""
    uid = itertools.count(1)
    cur = [next(uid) for _ in range(n)]
    hid = [tw.zero() if tw.recurrent else None for _ in range(n)]
    segs = [[] for _ in range(n)]
    memory = []
    for t, outs in enumerate(script):
        obs = [given(u) for u in cur]
        tw.load(mods)
        p0 = {k: A.flat(m) for k, m in mods.items()}
        acts = [ag.act(obs[0])] if single else list(ag.batch_act(obs))
        if tw.recurrent:
            import torch

            nh = []
            with torch.no_grad():
                for i in range(n):
                    nh.append(tw.run([cur[i]], hid[i])[2][0])
        else:
            nh = [None] * n
        nu = [next(uid) for _ in range(n)]
        rs = [rew(u) for u in nu]
        dn, rt = [o[0] for o in outs], [o[1] for o in outs]
        for i in range(n):
            segs[i].append(dict(u=cur[i], a=np.array(acts[i]), r=rs[i], nu=nu[i], done=dn[i], h=hid[i], nh=nh[i]))
            hid[i] = nh[i]
            if dn[i] or rt[i]:
                memory.append(segs[i])
                segs[i] = []
                hid[i] = tw.zero() if tw.recurrent else None
        size = sum(map(len, memory)) + sum(map(len, segs))
        if single:
            ag.observe(given(nu[0]), rs[0], dn[0], rt[0])
        else:
            ag.batch_observe([given(u) for u in nu], rs, dn, rt)
        rec.step()
        data = None
        if size >= U:
            data = memory + [s for s in segs if s]
            memory, segs = [], [[] for _ in range(n)]
        on_update(data, p0, t)
        cur = [next(uid) if dn[i] or rt[i] else nu[i] for i in range(n)]


DEF = dict(gamma=0.9, lambd=0.8, std=True, clip=0.2, vclip=None, vcoef=1.0, ecoef=0.01, M=2, E=2, gnorm=None, lr=0.3, cont=False, maxlen=None, norm=False)


def run_ppo(rec, recurrent, over, U, n, script, single):
    import random

    import pfrl
    import torch
    from pfrl.agents import PPO

    cfg = dict(DEF, **over)
    random.seed(1)
    mods = build("ppo", recurrent, cfg["cont"], 5)
    model = mods["model"]
    log = []
    opt = A.log_sgd(model, "m", log, lr=cfg["lr"])
    feed = Feed(model, recurrent)
    norm = pfrl.nn.EmpiricalNormalization(2) if cfg["norm"] else None
    ag = PPO(
        model, opt, phi=phi, batch_states=batch_states, obs_normalizer=norm, gamma=cfg["gamma"], lambd=cfg["lambd"], value_func_coef=cfg["vcoef"], entropy_coef=cfg["ecoef"],
        update_interval=U, minibatch_size=cfg["M"], epochs=cfg["E"], clip_eps=cfg["clip"], clip_eps_vf=cfg["vclip"],
        standardize_advantages=cfg["std"], recurrent=recurrent, max_recurrent_sequence_len=cfg["maxlen"], max_grad_norm=cfg["gnorm"],
    )
    minis = []
    old = opt.step

    def step(*a, **k):
        minis.append(feed.last)
        return old(*a, **k)

    opt.step = step
    tw = Twin("ppo", mods, recurrent, cfg["cont"])
    seen_obs = []
    nup = [0]

    def on_update(segs, p0, t):
        steps = [x[2] for x in log]
        if segs is None:
            rec.eq(len(steps), 0, "optimizer steps at step %d, data set not full" % t)
            rec.check(np.array_equal(A.flat(model), p0["model"]), "parameters changed without an update")
            return
        data = [x for s in segs for x in s]
        ms = list(minis)
        del minis[:], log[:]
        seen_obs.extend(obs_of(x["u"]) for x in data)
        if norm is not None:
            want = -(-len(data) * cfg["E"] // cfg["M"]) if not recurrent else cfg["E"] * (len(data) // cfg["M"])
            rec.eq(len(steps), want, "optimizer steps")
            rec.eq(int(norm.count), len(seen_obs), "observations seen by the normalizer")
            rec.check(np.allclose(norm.mean.numpy(), np.mean(seen_obs, 0), atol=1e-5), "normalizer mean")
            return
        tw.load(mods)
        A.set_flat(tw.m["model"], p0["model"])
        for s in segs:
            gae(s, tw, cfg)
        advs = np.array([x["adv"] for x in data])
        by = {x["u"]: x for x in data}
        batch_usage(rec, ms, data, cfg, cfg["E"], cfg["M"], recurrent, segs, cfg["maxlen"])
        nup[0] += len(steps)
        rec.eq(dict(ag.get_statistics())["n_updates"], nup[0], "n_updates")
        if cfg["std"] and advs.std() < 1e-3:
            return  # standardized advantages are rounding noise
        p = p0["model"]
        for k, (mb, got) in enumerate(zip(ms, steps)):
            A.set_flat(tw.m["model"], p)
            g = clipped(grads(ppo_loss(tw, mb, by, cfg, advs.mean(), advs.std()), [tw.m["model"]]), cfg["gnorm"])
            want = p - cfg["lr"] * g
            rec.check(
                close(got, want, cfg["lr"] * np.abs(g).max()),
                "parameters after gradient step %d of the update at step %d differ by %g (step %g)" % (k, t, np.abs(got - want).max(), np.abs(want - p).max()),
            )
            p = got
        rec.outcome(np.round(p, 3).tolist())

    drive(rec, ag, mods, tw, n, script, single, on_update, U, cfg)


TDEF = dict(gamma=0.9, lambd=0.8, std=True, ecoef=0.01, M=2, E=1, gnorm=None, lr=0.2, cont=False, maxlen=None, max_kl=0.01, back=10, damp=0.1, norm=False)


def run_trpo(rec, recurrent, over, U, n, script, single):
    import random

    import pfrl
    import torch
    from pfrl.agents import TRPO

    cfg = dict(TDEF, **over)
    random.seed(1)
    mods = build("trpo", recurrent, cfg["cont"], 5)
    log = []
    opt = A.log_sgd(mods["vf"], "v", log, lr=cfg["lr"])
    feed = Feed(mods["vf"], recurrent)
    norm = pfrl.nn.EmpiricalNormalization(2) if cfg["norm"] else None
    ag = TRPO(
        mods["policy"], mods["vf"], opt, phi=phi, batch_states=batch_states, obs_normalizer=norm, gamma=cfg["gamma"], lambd=cfg["lambd"], entropy_coef=cfg["ecoef"], update_interval=U,
        max_kl=cfg["max_kl"], vf_epochs=cfg["E"], vf_batch_size=cfg["M"], standardize_advantages=cfg["std"], line_search_max_backtrack=cfg["back"],
        conjugate_gradient_max_iter=40, conjugate_gradient_damping=cfg["damp"], recurrent=recurrent, max_recurrent_sequence_len=cfg["maxlen"], max_grad_norm=cfg["gnorm"],
    )
    minis = []
    old = opt.step

    def step(*a, **k):
        minis.append(feed.last)
        return old(*a, **k)

    opt.step = step
    tw = Twin("trpo", mods, recurrent, cfg["cont"])
    seen_obs = []

    def on_update(segs, p0, t):
        steps = [x[2] for x in log]
        if segs is None:
            rec.eq(len(steps), 0, "value updates at step %d, data set not full" % t)
            for k in mods:
                rec.check(np.array_equal(A.flat(mods[k]), p0[k]), "parameters changed without an update")
            return
        data = [x for s in segs for x in s]
        ms = list(minis)
        del minis[:], log[:]
        seen_obs.extend(obs_of(x["u"]) for x in data)
        if norm is not None:
            rec.eq(int(norm.count), len(seen_obs), "observations seen by the normalizer")
            rec.check(np.allclose(norm.mean.numpy(), np.mean(seen_obs, 0), atol=1e-5), "normalizer mean")
            return
        for k in mods:
            A.set_flat(tw.m[k], p0[k])
        for s in segs:
            gae(s, tw, cfg)
        by = {x["u"]: x for x in data}
        # value function
        batch_usage(rec, ms, data, cfg, cfg["E"], cfg["M"], recurrent, segs, cfg["maxlen"])
        p = p0["vf"]
        for k, (mb, got) in enumerate(zip(ms, steps)):
            A.set_flat(tw.m["vf"], p)
            vs, vt = [], []
            for s in mb:
                vs.append(tw.run(s, by[s[0]]["h"])[1])
                vt += [by[u]["vt"] for u in s]
            loss = ((torch.cat(vs) - torch.tensor(vt).double()) ** 2).mean()
            g = clipped(grads(loss, [tw.m["vf"]]), cfg["gnorm"])
            want = p - cfg["lr"] * g
            rec.check(close(got, want, cfg["lr"] * np.abs(g).max()), "value parameters after step %d differ by %g" % (k, np.abs(got - want).max()))
            p = got
        # policy
        chunks = []
        for s in segs:
            L = cfg["maxlen"] or len(s)
            if not recurrent:
                L = len(s)
            chunks += [s[i : i + L] for i in range(0, len(s), L)]
        items = [x for c in chunks for x in c]
        adv = torch.tensor([x["adv"] for x in items]).double()
        if cfg["std"] and float(adv.std(unbiased=False)) < 1e-3:
            return  # standardized advantages are rounding noise
        if cfg["std"]:
            adv = (adv - adv.mean()) / (adv.std(unbiased=False) + 1e-8)
        lp_old = torch.tensor([x["lp"] for x in items]).double()

        def outs():
            return torch.cat([tw.run([x["u"] for x in c], c[0]["h"])[0] for c in chunks])

        def gain(o):
            lp, ent = tw.logp_ent(o, [x["a"] for x in items])
            return (torch.exp(lp - lp_old) * adv).mean() + cfg["ecoef"] * ent.mean()

        A.set_flat(tw.m["policy"], p0["policy"])
        ps = list(tw.m["policy"].parameters())
        o = outs()
        o_old = o.detach()
        g0 = gain(o)
        fl = lambda xs: torch.cat([x.reshape(-1) for x in xs])
        g = fl(torch.autograd.grad(g0, ps, retain_graph=True)).detach()
        kg = fl(torch.autograd.grad(tw.kl(o_old, o), ps, create_graph=True))
        F = torch.stack([fl(torch.autograd.grad(kg[i], ps, retain_graph=True)) for i in range(len(kg))])
        F = F.detach() + cfg["damp"] * torch.eye(len(kg)).double()
        got = A.flat(mods["policy"])
        b = p0["policy"]
        gn = float(g.norm())
        if gn < 1e-6:
            rec.check(close(got, b, 0.1), "policy changed without a gradient")
            return
        if gn < 1e-4:
            return  # a direction of rounding noise
        d = torch.linalg.solve(F, g)
        full = ((2 * cfg["max_kl"] / (float(d @ (F @ d)) + 1e-8)) ** 0.5 * d).numpy()
        ok = None
        margin = []
        for k in range(cfg["back"] + 1):
            A.set_flat(tw.m["policy"], b + 0.5**k * full)
            with torch.no_grad():
                on = outs()
                imp, kl = float(gain(on) - g0), float(tw.kl(o_old, on))
            if abs(imp) < 2e-6 or abs(kl - cfg["max_kl"]) < 1e-3 * cfg["max_kl"]:
                margin.append(k)
                continue
            if imp >= 0 and kl <= cfg["max_kl"]:
                ok = k
                break
        cands = [b + 0.5**k * full for k in margin]
        cands.append(b if ok is None else b + 0.5**ok * full)
        dist = min(np.abs(got - c).max() for c in cands)
        scale = max(np.abs(full).max(), 1e-3)
        rec.check(
            dist <= 5e-3 * scale + 1e-6,
            "policy after the natural-gradient step and line search (%s halvings) differs by %g (step %g)" % (ok, dist, np.abs(cands[-1] - b).max()),
        )
        A.set_flat(tw.m["policy"], got)
        with torch.no_grad():
            on = outs()
            rec.check(float(tw.kl(o_old, on)) <= cfg["max_kl"] * 1.002 + 1e-6, "KL divergence exceeds max_kl")
            rec.check(float(gain(on) - g0) >= -5e-6, "surrogate objective got worse")
        rec.outcome(("trpo", ok, np.round(got, 3).tolist()))

    drive(rec, ag, mods, tw, n, script, single, on_update, U, cfg)


def unit(rec, fn, recurrent, over, U, n, T, outs, single, part=0, parts=1):
    joint = list(itertools.product(outs, repeat=n))
    for k, script in enumerate(scripts(joint, T)):
        if k % parts != part:
            continue
        rec.begin({"agent": fn.__name__, "recurrent": recurrent, "options": over, "update_interval": U, "script": script})
        fn(rec, recurrent, over, U, n, script, single)
        rec.state((fn.__name__, recurrent, repr(over), U, script))


def unit_helpers(rec):
    """conjugate_gradient and clip_l2_grad_norm_ over small systems."""
    import torch

    import pfrl
    from pfrl.utils import clip_l2_grad_norm_, conjugate_gradient

    vals = (-1.0, 0.0, 0.5)
    for a, b, c in itertools.product((1.0, 2.0, 10.0), (0.0, 0.5, -0.9), (1.0, 4.0)):
        M = torch.tensor([[a, b], [b, c]]).double()
        for rhs in itertools.product(vals + (1e3,), repeat=2):
            rec.begin({"cg": [a, b, c], "rhs": rhs})
            r = torch.tensor(rhs).double()
            x = conjugate_gradient(lambda v: M @ v, r)
            rec.check(torch.allclose(M @ x, r, atol=1e-6), "conjugate_gradient: residual %s" % (M @ x - r).tolist())
            rec.step()
            rec.outcome(("cg", np.round(x.numpy(), 4).tolist()))
    for gs in itertools.product((None, (0.0, 0.0), (3.0, -4.0), (1e-3, 0.0)), repeat=3):
        for mx in (0.1, 1, 5, 100.0):
            rec.begin({"clip": gs, "max": mx})
            ps = [torch.nn.Parameter(torch.zeros(2)) for _ in gs]
            for p, g in zip(ps, gs):
                p.grad = None if g is None else torch.tensor(g)
            tot = math.sqrt(sum(x * x for g in gs if g for x in g))
            got = clip_l2_grad_norm_(ps if mx != 1 else iter(ps), mx)
            rec.check(abs(float(got) - tot) < 1e-5, "returned norm %s, expected %s" % (got, tot))
            f = min(1.0, mx / tot) if tot else 1.0
            for p, g in zip(ps, gs):
                if g is None:
                    rec.check(p.grad is None, "gradient appeared")
                else:
                    rec.check(np.allclose(p.grad.numpy(), np.array(g) * f, rtol=1e-4, atol=1e-7), "clipped gradient")
            rec.step()


_LS = {}


def _ls_dist():
    """Categorical distribution whose entropy and divergence can be dictated."""
    import torch
    from torch import distributions as D

    if not _LS:

        class LS(D.Categorical):
            trial = None

            def sample(self, sample_shape=torch.Size()):
                return torch.arange(self.logits.shape[0]) % self.logits.shape[-1]

            def entropy(self):
                e = super().entropy()
                v = {"worse": -1e3, "nan-gain": float("nan"), "inf-gain": float("inf"), "-inf-gain": -float("inf")}.get(self.trial, 1e3 if self.trial else None)
                return e if v is None else torch.full_like(e, v)

        @D.register_kl(LS, LS)
        def kl(p, q):
            r = (p.probs * (p.logits - q.logits)).sum(-1)
            v = {"nan-kl": float("nan"), "inf-kl": float("inf"), "far": 2 * _LS["max_kl"]}.get(q.trial, 0.5 * _LS["max_kl"] if q.trial else None)
            return r if v is None else torch.full_like(r, v)

        _LS["cls"] = LS
    return _LS["cls"]


def unit_line_search(rec, backs, outs, recurrent):
    """TRPO: all sequences of outcomes of the line search trials, including
    surrogate objectives and divergences that are not finite."""
    import torch
    from torch import nn

    import pfrl

    LS = _ls_dist()
    _LS["max_kl"] = 0.25
    for back in backs:
        for pat in itertools.product(outs, repeat=back + 1):
            rec.begin({"line search": pat, "recurrent": recurrent})
            seen = []
            base = [None]

            class Head(nn.Module):
                def forward(self, x):
                    d = LS(logits=x)
                    v = A.flat(pol)
                    if base[0] is not None and not np.array_equal(v, base[0]):
                        k = [i for i, w in enumerate(seen) if np.array_equal(w, v)]
                        if not k:
                            seen.append(v)
                        i = k[0] if k else len(seen) - 1
                        d.trial = pat[i] if i < len(pat) else "ok"
                    return d

            if recurrent:
                pol = A.init(pfrl.nn.RecurrentSequential(nn.GRU(2, 2), nn.Linear(2, NA), Head()), 5)
                vf = A.init(pfrl.nn.RecurrentSequential(nn.GRU(2, 2), nn.Linear(2, 1)), 6)
            else:
                pol = A.init(nn.Sequential(nn.Linear(2, NA), Head()), 5)
                vf = A.init(nn.Linear(2, 1), 6)
            ag = pfrl.agents.TRPO(
                pol, vf, torch.optim.SGD(vf.parameters(), lr=0.01), gamma=0.9, lambd=0.9, entropy_coef=0.1, update_interval=3,
                max_kl=_LS["max_kl"], vf_epochs=1, vf_batch_size=3, line_search_max_backtrack=back, recurrent=recurrent,
            )
            base[0] = A.flat(pol)
            for t in range(3):
                ag.act(np.array([0.3 * t, 1.0 - t], dtype=np.float32))
                ag.observe(np.array([0.3 * t + 0.3, -t], dtype=np.float32), 1.0 - 2.0 * (t == 1), t == 2, False)
            got = A.flat(pol)
            ok = [i for i, x in enumerate(pat) if x == "ok"]
            rec.check(seen, "no step was tried")
            full = seen[0] - base[0]
            n = ok[0] + 1 if ok else len(pat)
            rec.check(len(seen) >= n, "the line search gave up after %d of %d steps" % (len(seen), n))
            want = base[0] + full * 0.5 ** ok[0] if ok else base[0]
            rec.check(np.allclose(got, want, rtol=1e-4, atol=1e-5 * max(1e-3, np.abs(full).max())), "trials %r: the policy moved by %s of the full step" % (pat, np.round((got - base[0]) / full, 4).tolist()))
            rec.step()
            rec.state((back, pat, recurrent))
            rec.outcome((ok[:1], back))


def units(tier):
    T = tier == "thorough"
    us = [("helpers", unit_helpers)]
    ls = ("ok", "worse", "far", "nan-gain", "inf-gain", "-inf-gain", "nan-kl", "inf-kl")
    for rc in (False, True):
        us.append(("line-search-%d" % rc, unit_line_search, (0, 1, 2) if not T or rc else (0, 1, 2, 3), ls if not rc or T else ("ok", "worse", "nan-gain", "inf-kl"), rc))
    ppo = [
        ("a", {}, 3), ("b", dict(M=3, E=3, vclip=0.05, gnorm=0.5, ecoef=0.1), 4), ("c", dict(M=4, E=1, std=False, clip=0.05, gamma=1.0, lambd=1.0, vcoef=0.5), 2),
        ("d", dict(M=1, E=2, cont=True, std=False), 3), ("e", dict(M=2, E=3, lambd=0.0, vclip=0.3, clip=0.02), 5), ("f", dict(M=5, E=3, gamma=0.5), 1), ("g", dict(norm=True), 3),
    ]
    rppo = [("ra", dict(M=2, E=2), 4), ("rb", dict(M=3, E=2, maxlen=2, vclip=0.05, gnorm=0.5), 3), ("rc", dict(M=1, E=1, std=False), 2), ("rd", dict(M=4, E=2, maxlen=1), 5), ("re", dict(norm=True), 3), ("rf", dict(M=1, E=1), 1)]
    trpo = [("ta", {}, 3), ("tb", dict(max_kl=0.5, back=3, std=False, ecoef=0.0), 4), ("tc", dict(max_kl=1.0, back=0, cont=True, M=3, E=2), 2), ("td", dict(max_kl=0.2, M=1, gnorm=0.3, lambd=0.0), 5), ("te", dict(norm=True), 3)]
    rtrpo = [("rta", dict(M=2, E=1), 4), ("rtb", dict(maxlen=2, max_kl=0.5, back=2, std=False, M=3), 3), ("rtc", dict(M=1, maxlen=1), 2)]
    for fn, rc, cfgs in ((run_ppo, False, ppo), (run_ppo, True, rppo), (run_trpo, False, trpo), (run_trpo, True, rtrpo)):
        for nm, o, U in cfgs:
            long = fn is run_ppo and not rc
            T1, o1 = (5, OUT4[:3]) if U >= 4 else (4, OUT4)
            if T:
                T1, o1 = (6, OUT4[:3]) if long else (5, OUT4)
            for k in range(4 if T else 2):
                us.append(("%s-1-%d" % (nm, k), unit, fn, rc, o, U, 1, T1, o1, True, k, 4 if T else 2))
            us.append(("%s-long" % nm, unit, fn, rc, o, U, 1, (3, 16) if T else (2, 12), OUT4[:3], False))
            us.append(("%s-long3" % nm, unit, fn, rc, o, U, 3, (1, 6 if T else 4), OUT4[:3], False))
            us.append(("%s-2" % nm, unit, fn, rc, o, U, 2, 3 if not T else 4, OUT4[:3] if T else OUT4[:2], False))
            if not T:
                us.append(("%s-2b" % nm, unit, fn, rc, o, U, 2, 2, OUT4, False))
            if T:
                us.append(("%s-3" % nm, unit, fn, rc, o, U, 3, 2, OUT4[:3], False))
    return us
