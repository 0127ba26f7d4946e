"""P13  one update of a value-based / off-policy agent is exactly the update its
algorithm defines, for every batch of experiences in a finite space.

agent.update(batch) of the real agent (tabular or tiny networks, SGD, float32)
is compared with an independent double-precision computation: parameters after
the update, priorities reported for the batch, batching of experiences.
"""
import copy
import itertools

import numpy as np

from mc import agents as A

RULE = "one case per (algorithm, options, batch of experiences); non-trivial outcomes = distinct resulting parameters"
BOUNDS = {
    "quick": "3 states, 2-3 actions, rewards {-1, .5, 3}, n-step experiences of length 1..3, terminal or not, any next state: all single "
    "experiences and all pairs of a representative set; Huber or squared loss, mean/sum, importance weights or none, gradient clipping; "
    "DQN, DoubleDQN, AL, PAL, DoublePAL, DPP/DPPL/DPPGreedy, CategoricalDQN, CategoricalDoubleDQN, IQN, DDPG, TD3, SAC; "
    "recurrent variants (DQN family, categorical, IQN) on all pairs of episode lengths 1..3",
    "thorough": "larger representative set, two parameter tables, batches of three",
}
ASSUMPTIONS = ["floating point compared with tolerance 2e-4", "no ties between action values"]
GAMMA = 0.9
S, NA = 3, 2
TOL = 2e-4


def onehot(s):
    v = np.zeros(S, dtype=np.float32)
    v[s] = 1
    return v


def mk_exp(s, a, rs, s2, term, w=None, act=lambda a: a):
    """n-step experience; intermediate transitions are filled in."""
    out = []
    for i, r in enumerate(rs):
        last = i == len(rs) - 1
        out.append(
            dict(
                state=onehot(s) if i == 0 else onehot((s + i) % S),
                action=act(a) if i == 0 else act((a + i) % NA),
                reward=r,
                next_state=onehot(s2) if last else onehot((s + i + 1) % S),
                next_action=None,
                is_state_terminal=bool(term and last),
            )
        )
    if w is not None:
        out[0]["weight"] = w
    return out


RSEQ = [(-1.0,), (0.5,), (3.0,), (0.5, -1.0), (3.0, 0.5), (0.5, -1.0, 3.0), (-1.0, 3.0, 0.5)]


def singles():
    return [x for x in itertools.product(range(S), range(NA), RSEQ, range(S), (False, True))]


def rep(n):
    """Representative experiences (every length, terminal flag, state)."""
    al = singles()
    step = max(1, len(al) // n)
    return [al[i] for i in range(0, len(al), step)][:n]


def batches(n_rep, triples=False):
    for x in singles():
        yield (x,)
    r = rep(n_rep)
    for p in itertools.product(r, repeat=2):
        yield p
    if triples:
        r = rep(8)
        for p in itertools.product(r, repeat=3):
            yield p


# ------------------------------------------------------------- Q-table family


def tables(seed):
    rs = np.random.RandomState(seed)
    return rs.uniform(-2, 2, size=(S, NA)), rs.uniform(-2, 2, size=(S, NA))


def ref_targets(algo, Q, T, b, alpha=0.9, eta=1.0):
    """Target per experience, plain numpy."""
    out = []

    def L(row):
        if algo == "DPP":
            e = np.exp(eta * row - (eta * row).max())
            e /= e.sum()
            return float((e * row).sum())
        if algo == "DPPL":
            m = (eta * row).max()
            return float((np.log(np.exp(eta * row - m).sum()) + m) / eta)
        return float(row.max())

    for s, a, rs, s2, term in b:
        R = sum(GAMMA**i * r for i, r in enumerate(rs))
        cont = 0.0 if term else GAMMA ** len(rs)
        if algo in ("DQN", "AL", "PAL"):
            t = R + cont * T[s2].max()
        elif algo in ("DoubleDQN", "DoublePAL"):
            t = R + cont * T[s2][Q[s2].argmax()]
        else:
            t = R + cont * L(T[s2]) + T[s][a] - L(T[s])
        if algo == "AL":
            t += alpha * (T[s][a] - T[s].max())
        if algo in ("PAL", "DoublePAL"):
            t += alpha * max(T[s][a] - T[s].max(), T[s2][a] - T[s2].max())
        out.append(t)
    return out


def ref_grad(Q, b, ts, clip, acc, ws):
    g = np.zeros_like(Q)
    for k, ((s, a, _, _, _), t) in enumerate(zip(b, ts)):
        d = Q[s][a] - t
        dd = max(-1.0, min(1.0, d)) if clip else d
        w = 1.0 if ws is None else ws[k]
        g[s][a] += w * dd / (len(b) if acc == "mean" else 1)
    return g


def agent_cls(algo):
    import pfrl
    from pfrl.agents import dpp

    return getattr(pfrl.agents, algo) if hasattr(pfrl.agents, algo) else getattr(dpp, algo)


def err_buffer(errs):
    from pfrl.replay_buffers import PrioritizedReplayBuffer

    class B(PrioritizedReplayBuffer):
        def update_errors(self, e):
            errs.append([float(x) for x in e])

    return B(10)


def clip_norm(g, m):
    if m is None:
        return g
    n = np.sqrt((g**2).sum())
    return g * min(1.0, m / (n + 1e-6))


def unit_q(rec, algo, clip, acc, weighted, norm, n_rep, triples, seed=3):
    import torch
    from torch import nn

    import pfrl

    Q0, T0 = tables(seed)
    net = nn.Sequential(nn.Linear(S, NA, bias=False), pfrl.q_functions.DiscreteActionValueHead())
    errs = []
    buf = err_buffer(errs) if weighted else pfrl.replay_buffers.ReplayBuffer(10)
    opt = torch.optim.SGD(net.parameters(), lr=1.0)
    kw = {}
    if algo in ("AL", "PAL", "DoublePAL"):
        kw["alpha"] = 0.7
    if algo in ("DPP", "DPPL"):
        kw["eta"] = 0.6
    calls = [0]

    def bs(states, device, phi):
        calls[0] += 1
        return torch.stack([torch.as_tensor(phi(s)) for s in states])

    ag = agent_cls(algo)(
        net, opt, buf, GAMMA, None, replay_start_size=1, minibatch_size=1, clip_delta=clip, batch_accumulator=acc,
        max_grad_norm=norm, batch_states=bs, phi=lambda x: x * 1.0, **kw
    )
    f32 = lambda x: np.asarray(x, dtype=np.float32).astype(np.float64)
    Q0, T0 = f32(Q0), f32(T0)
    n = 0
    for b in batches(n_rep, triples):
        rec.begin({"algo": algo, "clip": clip, "acc": acc, "weighted": weighted, "norm": norm, "batch": b})
        A.set_flat(ag.model, Q0.T.ravel())
        A.set_flat(ag.target_model, T0.T.ravel())
        ws = [0.25 + 0.5 * k for k in range(len(b))] if weighted else None
        ag.update([mk_exp(*x, w=None if ws is None else ws[k]) for k, x in enumerate(b)])
        rec.check(calls[0] > 0, "the given batch_states is not used")
        calls[0] = 0
        ts = ref_targets(algo, Q0, T0, b, 0.7, 0.6)
        want = Q0 - clip_norm(ref_grad(Q0, b, ts, clip, acc, ws), norm)
        got = A.flat(ag.model).reshape(NA, S).T
        rec.check(np.allclose(got, want, atol=TOL), "Q-values after the update: got %s, expected %s" % (got.round(4).tolist(), want.round(4).tolist()))
        rec.check(np.array_equal(A.flat(ag.target_model), T0.T.ravel()), "the target network changed")
        if weighted:
            rec.eq(len(errs), 1, "number of priority updates")
            w = [abs(Q0[s][a] - t) for (s, a, _, _, _), t in zip(b, ts)]
            rec.check(np.allclose(errs[0], w, atol=TOL), "reported errors %s, expected %s" % (errs[0], w))
            del errs[:]
        n += 1
        rec.eq(ag.optim_t, n, "number of updates")
        rec.step()
        rec.outcome((algo, want.round(3).tolist()))
        rec.state((algo, clip, acc, weighted, b))


# ---------------------------------------------------------------- categorical


def project(ys, ps, z):
    """Distribution of ys projected on the support z (scalar loops)."""
    out = np.zeros(len(z))
    dz = z[1] - z[0]
    for y, p in zip(ys, ps):
        y = min(max(y, z[0]), z[-1])
        k = (y - z[0]) / dz
        lo = int(np.floor(k + 1e-9))
        if lo >= len(z) - 1:
            out[-1] += p
            continue
        fr = k - lo
        out[lo] += p * (1 - fr)
        out[lo + 1] += p * fr
    return out


def unit_cat(rec, double, acc, weighted, n_atoms, vmin, vmax, n_rep):
    import torch

    import pfrl

    net = A.categorical_q(S, NA, n_atoms, vmin, vmax, seed=5)
    rs = np.random.RandomState(11)
    P0 = rs.uniform(-1.5, 1.5, size=A.flat(net).shape).astype(np.float32).astype(np.float64)
    T0 = rs.uniform(-1.5, 1.5, size=A.flat(net).shape).astype(np.float32).astype(np.float64)
    errs = []
    buf = err_buffer(errs) if weighted else pfrl.replay_buffers.ReplayBuffer(10)
    cls = pfrl.agents.CategoricalDoubleDQN if double else pfrl.agents.CategoricalDQN
    ag = cls(net, torch.optim.SGD(net.parameters(), lr=1.0), buf, GAMMA, None, replay_start_size=1, minibatch_size=1, batch_accumulator=acc)
    z = np.linspace(vmin, vmax, n_atoms)
    k = NA * n_atoms

    def dist(v, s):
        x = (v[: k * S].reshape(k, S)[:, s] + v[k * S :]).reshape(NA, n_atoms)
        e = np.exp(x - x.max(1, keepdims=True))
        return e / e.sum(1, keepdims=True)

    for b in batches(n_rep):
        rec.begin({"algo": cls.__name__, "acc": acc, "weighted": weighted, "atoms": n_atoms, "batch": b})
        A.set_flat(ag.model, P0)
        A.set_flat(ag.target_model, T0)
        ws = [0.25 + 0.5 * i for i in range(len(b))] if weighted else None
        ag.update([mk_exp(*x, w=None if ws is None else ws[i]) for i, x in enumerate(b)])
        g = np.zeros_like(P0)
        loss = []
        for i, (s, a, rsq, s2, term) in enumerate(b):
            R = sum(GAMMA**j * r for j, r in enumerate(rsq))
            cont = 0.0 if term else GAMMA ** len(rsq)
            td = dist(T0, s2)
            sel = (dist(P0, s2) if double else td) @ z
            m = project(R + cont * z, td[sel.argmax()], z)
            p = dist(P0, s)[a]
            loss.append(float(-(m * np.log(np.clip(p, 1e-10, 1))).sum()))
            d = (p * m.sum() - m) * (1.0 if ws is None else ws[i]) / (len(b) if acc == "mean" else 1)
            W = g[: k * S].reshape(NA, n_atoms, S)
            W[a, :, s] += d
            g[k * S :].reshape(NA, n_atoms)[a] += d
        want = P0 - g
        got = A.flat(ag.model)
        rec.check(np.allclose(got, want, atol=TOL), "parameters after the update differ by %g" % np.abs(got - want).max())
        rec.check(np.array_equal(A.flat(ag.target_model), T0), "the target network changed")
        if weighted:
            rec.check(len(errs) == 1 and np.allclose(errs[0], loss, atol=TOL), "reported errors %s, expected %s" % (errs, loss))
            del errs[:]
        rec.step()
        rec.outcome((cls.__name__, np.round(want, 2).tolist()))
        rec.state((cls.__name__, acc, weighted, n_atoms, b))


# ------------------------------------------------------------------------ IQN


def unit_iqn(rec, acc, weighted, n_rep):
    import torch

    import pfrl

    NT, NP, NK, H, NB = 2, 3, 4, 2, 3
    net = A.iqn_q(S, NA, H, seed=5)
    rs = np.random.RandomState(4)
    P0 = rs.uniform(-1, 1, size=A.flat(net).shape).astype(np.float32).astype(np.float64)
    T0 = rs.uniform(-1, 1, size=A.flat(net).shape).astype(np.float32).astype(np.float64)
    errs = []
    buf = err_buffer(errs) if weighted else pfrl.replay_buffers.ReplayBuffer(10)
    ag = pfrl.agents.IQN(
        net, torch.optim.SGD(net.parameters(), lr=1.0), buf, GAMMA, None, replay_start_size=1, minibatch_size=1,
        batch_accumulator=acc, quantile_thresholds_N=NT, quantile_thresholds_N_prime=NP, quantile_thresholds_K=NK,
    )

    def taus(n, m):
        return np.array([[((7 * i + 3 * j + m) % 11) / 11.0 + 0.03 for j in range(m)] for i in range(n)], dtype=np.float32)

    def rand(*size, **k):
        if len(size) == 1 and isinstance(size[0], (tuple, list)):
            size = tuple(size[0])
        assert len(size) == 2 and size[1] in (NT, NP, NK), size
        return torch.as_tensor(taus(*size))

    shapes = [p.shape for p in net.parameters()]

    def unpack(v):
        out, i = [], 0
        for sh in shapes:
            n = int(np.prod(sh))
            out.append(v[i : i + n].reshape(tuple(sh)))
            i += n
        return out

    def quant(ps, s, tau):
        """(n_tau, NA) quantiles at state s (torch double)."""
        Wpsi, bpsi, Wphi, bphi, Wf, bf = ps
        psi = Wpsi[:, s] + bpsi
        tau = torch.as_tensor(tau, dtype=torch.float64)
        basis = torch.cos(tau[:, None] * torch.arange(1, NB + 1, dtype=torch.float64)[None] * np.pi)
        phi = basis @ Wphi.T + bphi
        return (psi[None] * phi) @ Wf.T + bf

    keep = torch.rand
    for b in batches(n_rep):
        rec.begin({"algo": "IQN", "acc": acc, "weighted": weighted, "batch": b})
        A.set_flat(ag.model, P0)
        A.set_flat(ag.target_model, T0)
        ws = [0.25 + 0.5 * i for i in range(len(b))] if weighted else None
        torch.rand = rand
        try:
            ag.update([mk_exp(*x, w=None if ws is None else ws[i]) for i, x in enumerate(b)])
        finally:
            torch.rand = keep
        v = torch.tensor(P0, requires_grad=True)
        ps = unpack(v)
        ts = unpack(torch.tensor(T0))
        total = 0
        per = []
        n = len(b)
        for i, (s, a, rsq, s2, term) in enumerate(b):
            R = sum(GAMMA**j * r for j, r in enumerate(rsq))
            cont = 0.0 if term else GAMMA ** len(rsq)
            ga = int(quant(ts, s2, taus(n, NK)[i]).mean(0).argmax())
            tz = R + cont * quant(ts, s2, taus(n, NP)[i])[:, ga]
            y = quant(ps, s, taus(n, NT)[i])[:, a]
            L = []
            for q in range(NT):
                for r_ in range(NP):
                    d = tz[r_].detach() - y[q]
                    hub = 0.5 * d * d if abs(float(d)) < 1 else abs(d) - 0.5
                    L.append(abs(float(taus(n, NT)[i][q]) - (1.0 if float(d) < 0 else 0.0)) * hub)
            ex = sum(L) / NP  # mean over N', sum over N
            per.append(float(sum(L)) / (NT * NP))
            total = total + ex * (1.0 if ws is None else ws[i])
        if acc == "mean":
            total = total / n
        total.backward()
        want = P0 - v.grad.numpy()
        got = A.flat(ag.model)
        rec.check(np.allclose(got, want, atol=5e-4), "parameters after the update differ by %g" % np.abs(got - want).max())
        rec.check(np.array_equal(A.flat(ag.target_model), T0), "the target network changed")
        if weighted:
            rec.check(len(errs) == 1 and np.allclose(errs[0], per, atol=TOL), "reported errors %s, expected %s" % (errs, per))
            del errs[:]
        rec.step()
        rec.outcome(("iqn", np.round(want, 2).tolist()))
        rec.state(("iqn", acc, weighted, b))


# --------------------------------------------------------------- actor-critic

AVALS = [np.array([-0.5], dtype=np.float32), np.array([0.75], dtype=np.float32)]


class FixedGauss(object):
    """Distribution with prescribed noise (so that an update is a function)."""

    EPS = (0.3, -0.8, 0.55)

    def __init__(self, mean, ls):
        import torch

        self.mean, self.std = mean, torch.exp(ls)

    def rsample(self):
        import torch

        e = torch.as_tensor(self.EPS[: self.mean.shape[0]], dtype=self.mean.dtype)[:, None]
        return self.mean + self.std * e

    def sample(self):
        return self.rsample().detach()

    def log_prob(self, x):
        import torch

        return (-((x - self.mean) ** 2) / (2 * self.std**2) - torch.log(self.std) - 0.5 * np.log(2 * np.pi)).sum(-1)

    def entropy(self):
        raise NotImplementedError


def gauss_net(seed):
    import torch
    from torch import nn

    class M(nn.Module):
        def __init__(self):
            super().__init__()
            self.l = nn.Linear(S, 2)

        def forward(self, x):
            y = self.l(x)
            return FixedGauss(y[:, :1], y[:, 1:])

    return A.init(M(), seed, 0.7)


def q_net(seed):
    """Q(s,a) non-linear in a."""
    import torch
    from torch import nn

    class M(nn.Module):
        def __init__(self):
            super().__init__()
            self.l1 = nn.Linear(S + 1, 3)
            self.l2 = nn.Linear(3, 1)

        def forward(self, x):
            s, a = x
            return self.l2(torch.tanh(self.l1(torch.cat([s, a], dim=1))))

    return A.init(M(), seed)


def det_net(seed):
    return A.det_policy(S, 1, seed)


def dbl(m):
    return copy.deepcopy(m).double()


def sgd_step(params, grads, lr, norm):
    import torch

    n = torch.sqrt(sum((g**2).sum() for g in grads))
    c = 1.0 if norm is None else min(1.0, float(norm / (n + 1e-6)))
    with torch.no_grad():
        for p, g in zip(params, grads):
            p -= lr * c * g


def grads(loss, m):
    import torch

    ps = list(m.parameters())
    return ps, torch.autograd.grad(loss, ps)


def unit_ac(rec, kind, opt, n_rep):
    import torch

    import pfrl

    LR = 0.5
    norm = opt.get("norm")
    sg = lambda m: torch.optim.SGD(m.parameters(), lr=LR)
    calls = [0]

    def bs(states, device, phi):
        calls[0] += 1
        return torch.stack([torch.as_tensor(phi(s)) for s in states])

    com = dict(gamma=GAMMA, replay_start_size=1, minibatch_size=1, batch_states=bs)
    buf = pfrl.replay_buffers.ReplayBuffer(10)
    if kind == "ddpg":
        pi, q1 = det_net(1), q_net(2)
        ag = pfrl.agents.DDPG(pi, q1, sg(pi), sg(q1), buf, explorer=None, **com)
        nets = dict(pi=ag.policy, q1=ag.q_function, tpi=ag.target_policy, tq1=ag.target_q_function)
    elif kind == "td3":
        pi, q1, q2 = det_net(1), q_net(2), q_net(3)
        ag = pfrl.agents.TD3(
            pi, q1, q2, sg(pi), sg(q1), sg(q2), buf, explorer=None, soft_update_tau=0.25, max_grad_norm=norm,
            policy_update_delay=1, target_policy_smoothing_func=lambda a: a + 0.2, **com
        )
        nets = dict(pi=ag.policy, q1=ag.q_func1, q2=ag.q_func2, tpi=ag.target_policy, tq1=ag.target_q_func1, tq2=ag.target_q_func2)
    else:
        pi, q1, q2 = gauss_net(1), q_net(2), q_net(3)
        ag = pfrl.agents.SoftActorCritic(
            pi, q1, q2, sg(pi), sg(q1), sg(q2), buf, soft_update_tau=0.25, max_grad_norm=norm, initial_temperature=0.7,
            entropy_target=-0.4 if opt.get("temp") else None, temperature_optimizer_lr=0.01 if opt.get("temp") else None, **com
        )
        nets = dict(pi=ag.policy, q1=ag.q_func1, q2=ag.q_func2, tq1=ag.target_q_func1, tq2=ag.target_q_func2)
        if opt.get("temp"):
            nets["temp"] = ag.temperature_holder
    for i, k in enumerate(("tpi", "tq1", "tq2")):
        if k in nets:
            A.init(nets[k], 20 + i)
    start = {k: A.flat(m) for k, m in nets.items()}
    opts0 = copy.deepcopy(ag.temperature_optimizer.state_dict()) if opt.get("temp") else None
    for b in batches(n_rep):
        rec.begin({"algo": kind, "opt": opt, "batch": b})
        for k, m in nets.items():
            A.set_flat(m, start[k])
        if opts0 is not None:
            ag.temperature_optimizer.load_state_dict(copy.deepcopy(opts0))
        D = {k: dbl(m) for k, m in nets.items()}
        for m in D.values():
            m.requires_grad_(True)
        calls[0] = 0
        ag.update([mk_exp(*x, act=lambda a: AVALS[a]) for x in b])
        rec.check(calls[0] > 0, "the given batch_states is not used")
        n = len(b)
        s = torch.tensor(np.stack([onehot(x[0]) for x in b])).double()
        a = torch.tensor(np.stack([AVALS[x[1]] for x in b])).double()
        R = torch.tensor([sum(GAMMA**j * r for j, r in enumerate(x[2])) for x in b]).double()
        s2 = torch.tensor(np.stack([onehot(x[3]) for x in b])).double()
        cont = torch.tensor([0.0 if x[4] else GAMMA ** len(x[2]) for x in b]).double()
        with torch.no_grad():
            if kind == "ddpg":
                nq = D["tq1"]((s2, D["tpi"](s2).sample()))
            elif kind == "td3":
                a2 = D["tpi"](s2).sample() + 0.2
                nq = torch.min(D["tq1"]((s2, a2)), D["tq2"]((s2, a2)))
            else:
                dist = D["pi"](s2)
                a2 = dist.sample()
                temp = float(np.exp(start["temp"][0])) if opt.get("temp") else 0.7
                nq = torch.min(D["tq1"]((s2, a2)), D["tq2"]((s2, a2))) - temp * dist.log_prob(a2)[:, None]
            tgt = R + cont * nq[:, 0]
        for k in ("q1", "q2"):
            if k in D:
                pred = D[k]((s, a))[:, 0]
                loss = ((pred - tgt) ** 2).mean() * (0.5 if kind == "sac" else 1.0)
                sgd_step(*grads(loss, D[k]), lr=LR, norm=norm)
        if kind in ("ddpg", "td3"):
            loss = -D["q1"]((s, D["pi"](s).rsample())).mean()
            sgd_step(*grads(loss, D["pi"]), lr=LR, norm=norm)
        else:
            dist = D["pi"](s)
            ac = dist.rsample()
            lp = dist.log_prob(ac)
            loss = (temp * lp - torch.min(D["q1"]((s, ac)), D["q2"]((s, ac)))[:, 0]).mean()
            lpd = lp.detach()
            sgd_step(*grads(loss, D["pi"]), lr=LR, norm=norm)
            if opt.get("temp"):
                # the first step of Adam is lr * sign(gradient)
                g = -float((temp * (lpd - 0.4)).mean())
                D["temp"].log_temperature.data -= 0.01 * np.sign(g) * (1.0 if abs(g) > 1e-5 else 0.0)
        if kind in ("td3", "sac"):
            for k in ("pi", "q1", "q2"):
                if "t" + k in D:
                    A.set_flat(D["t" + k], 0.75 * start["t" + k] + 0.25 * A.flat(D[k]))
        for k, m in nets.items():
            got, want = A.flat(m), A.flat(D[k])
            rec.check(np.allclose(got, want, atol=TOL), "%s after the update differs by %g" % (k, np.abs(got - want).max()))
        rec.step()
        rec.outcome((kind, np.round(A.flat(D["q1"]), 2).tolist()))
        rec.state((kind, str(opt), b))


# ------------------------------------------------------------------- recurrent


def unit_recurrent(rec, algo, acc, part=0, parts=1):
    """update_from_episodes on every pair of episode lengths / stored states."""
    import torch
    from torch import nn

    import pfrl
    from pfrl.replay_buffers import EpisodicReplayBuffer

    H = 2
    cat = algo.startswith("Categorical")
    NZ = 3
    z = np.linspace(-1.0, 2.0, NZ)
    if cat:
        from pfrl.action_value import DistributionalDiscreteActionValue

        class Head(nn.Module):
            def forward(self, x):
                return DistributionalDiscreteActionValue(torch.softmax(x.reshape(-1, NA, NZ), 2), torch.tensor(z, dtype=torch.float32))

        net = A.init(pfrl.nn.RecurrentSequential(nn.GRU(S, H), nn.Linear(H, NA * NZ), Head()), 3, 1.5)
    elif algo == "IQN":
        from pfrl.agents.iqn import CosineBasisLinear, RecurrentImplicitQuantileQFunction

        net = A.init(
            RecurrentImplicitQuantileQFunction(
                psi=pfrl.nn.RecurrentSequential(nn.GRU(S, H), nn.Linear(H, 2)), phi=CosineBasisLinear(3, 2), f=nn.Linear(2, NA)
            ), 3, 1.5)
    else:
        net = A.init(A.recurrent_q(S, NA, seed=3, hidden=H), 3, 1.5)
    ag = agent_cls(algo)(
        net, torch.optim.SGD(net.parameters(), lr=1.0), EpisodicReplayBuffer(10), GAMMA, None, replay_start_size=1,
        minibatch_size=1, recurrent=True, batch_accumulator=acc,
        **(dict(quantile_thresholds_N=2, quantile_thresholds_N_prime=3, quantile_thresholds_K=4) if algo == "IQN" else {}),
    )

    def taus(m):
        return [((3 * j + m) % 11) / 11.0 + 0.03 for j in range(m)]

    def rand(*size, **k):
        """The same thresholds in every row (rows may be in any order)."""
        if len(size) == 1 and isinstance(size[0], (tuple, list)):
            size = tuple(size[0])
        assert len(size) == 2 and size[1] in (2, 3, 4), size
        return torch.tensor([taus(size[1])] * size[0], dtype=torch.float32)

    def quant(m, psi, k):
        tau = torch.tensor(taus(k), dtype=torch.float32).double()
        basis = torch.cos(tau[:, None] * torch.arange(1, 4, dtype=torch.float64)[None] * np.pi)
        W, b = m.phi.parameters()
        return m.f(psi[None] * (basis @ W.T + b))

    real_rand = torch.rand
    P0 = A.flat(ag.model)
    T0 = np.random.RandomState(9).uniform(-1, 1, size=P0.shape)
    A.set_flat(ag.target_model, T0)
    T0 = A.flat(ag.target_model)

    def run(m, xs, h):
        """Q-values of one sequence, one step at a time."""
        gru, lin = (m.psi[0], m.psi[1]) if algo == "IQN" else (m[0], m[1])
        out = []
        for x in xs:
            y, h = gru(torch.tensor(x).double().reshape(1, 1, -1), h)
            out.append(lin(y[0, 0]))
        return out

    seqs = []
    for ln in (1, 2, 3):
        for st in (0, 1):  # stored recurrent states or not
            for term in (False, True):
                for v in (0, 1):
                    seqs.append((ln, st, term, v))
    k = -1
    for combo in [(x,) for x in seqs] + list(itertools.product(seqs, repeat=2)):
        k += 1
        if k % parts != part:
            continue
        rec.begin({"algo": algo, "episodes": combo})
        A.set_flat(ag.model, P0)
        A.set_flat(ag.target_model, T0)
        eps = []
        for e, (ln, st, term, v) in enumerate(combo):
            states = [onehot((v + e + i) % S) for i in range(ln + 1)]
            mkh = lambda c: None if not st else (np.array([[0.3 + 0.1 * c + e, -0.2 * (c + 1)]], dtype=np.float32),)
            eps.append(
                [
                    dict(
                        state=states[i], action=(v + i) % NA, reward=(-1.0, 0.5, 3.0)[(i + v) % 3], next_state=states[i + 1],
                        next_action=None, is_state_terminal=term and i == ln - 1,
                        recurrent_state=mkh(i), next_recurrent_state=(np.array([[1.5 * (-1) ** (i + v) + 0.1 * i, -1.2 * (-1) ** (i + e)]], dtype=np.float32),),
                    )
                    for i in range(ln)
                ]
            )
        if algo == "IQN":
            torch.rand = rand
        try:
            ag.update_from_episodes(copy.deepcopy(eps))
        finally:
            torch.rand = real_rand
        m, t = dbl(ag.model), dbl(ag.target_model)
        A.set_flat(m, P0)
        losses = []
        for ep in eps:
            h = lambda x: torch.zeros(1, 1, H).double() if x is None else torch.tensor(x[0]).double().reshape(1, 1, H)
            qs = run(m, [x["state"] for x in ep], h(ep[0]["recurrent_state"]))
            with torch.no_grad():
                tq = run(t, [x["state"] for x in ep], h(ep[0]["recurrent_state"]))
                tn = run(t, [x["next_state"] for x in ep], h(ep[0]["next_recurrent_state"]))
                mn = run(m, [x["next_state"] for x in ep], h(ep[0]["next_recurrent_state"]))
            for i, x in enumerate(ep):
                a = x["action"]
                cont = 0.0 if x["is_state_terminal"] else GAMMA
                if algo == "IQN":
                    with torch.no_grad():
                        ga = int(quant(t, tn[i], 4).mean(0).argmax())
                        tz = x["reward"] + cont * quant(t, tn[i], 3)[:, ga]
                    y = quant(m, qs[i], 2)[:, a]
                    L = 0
                    for q in range(2):
                        for r_ in range(3):
                            d = tz[r_] - y[q]
                            hub = 0.5 * d * d if abs(float(d)) < 1 else abs(d) - 0.5
                            L = L + abs(taus(2)[q] - (1.0 if float(d) < 0 else 0.0)) * hub
                    losses.append(L / 3)
                    continue
                if cat:
                    ds = lambda v: torch.softmax(v.reshape(NA, NZ), 1)
                    td = ds(tn[i]).numpy()
                    sel = (ds(mn[i]).numpy() if algo == "CategoricalDoubleDQN" else td) @ z
                    tgt = project(x["reward"] + cont * z, td[sel.argmax()], z)
                    losses.append(-(torch.tensor(tgt) * torch.log(torch.clamp(ds(qs[i])[a], 1e-10, 1))).sum())
                    continue
                if algo in ("DoubleDQN", "DoublePAL"):
                    nv = tn[i][mn[i].argmax()]
                elif algo == "DPP":
                    nv = (torch.softmax(tn[i], 0) * tn[i]).sum()
                else:
                    nv = tn[i].max()
                y = x["reward"] + cont * nv
                if algo == "AL":
                    y = y + 0.9 * (tq[i][a] - tq[i].max())
                if algo in ("PAL", "DoublePAL"):
                    y = y + 0.9 * max(tq[i][a] - tq[i].max(), tn[i][a] - tn[i].max())
                if algo == "DPP":
                    y = y + tq[i][a] - (torch.softmax(tq[i], 0) * tq[i]).sum()
                d = qs[i][a] - y
                losses.append(0.5 * d * d if abs(float(d)) < 1 else abs(d) - 0.5)
        loss = sum(losses) / (len(losses) if acc == "mean" else 1)
        ps = list(m.parameters())
        gs = torch.autograd.grad(loss, ps)
        want = P0 - np.concatenate([g.reshape(-1).numpy() for g in gs])
        got = A.flat(ag.model)
        rec.check(np.allclose(got, want, atol=TOL), "parameters after the update differ by %g" % np.abs(got - want).max())
        rec.step()
        rec.outcome((algo, np.round(want, 2).tolist()))
        rec.state((algo, acc, combo))


# --------------------------------------------------------------------- batching


def unit_batch(rec):
    import torch

    from pfrl.replay_buffer import batch_experiences

    seen = []

    def bs(states, device, phi):
        seen.append([phi(s) for s in states])
        return ("B", tuple(tuple(phi(s)) for s in states))

    phi = lambda o: o * 2
    for gamma in (0.0, 0.5, 1.0):
        for b in batches(12):
            rec.begin({"batch_experiences": b, "gamma": gamma})
            e = [mk_exp(*x) for x in b]
            for na in (False, True):
                if na:
                    for i, x in enumerate(e):
                        for j, tr in enumerate(x):
                            tr["next_action"] = 10 * i + j
                out = batch_experiences(e, torch.device("cpu"), phi, gamma, batch_states=bs)
                rec.eq(out["state"], ("B", tuple(tuple(onehot(x[0]) * 2) for x in b)), "state")
                rec.eq(out["next_state"], ("B", tuple(tuple(onehot(x[3]) * 2) for x in b)), "next_state")
                rec.eq(out["action"].tolist(), [x[1] for x in b], "action")
                rec.check(np.allclose(out["reward"], [sum(gamma**i * r for i, r in enumerate(x[2])) for x in b]), "n-step return")
                rec.eq(out["is_state_terminal"].tolist(), [float(x[4]) for x in b], "terminal")
                rec.check(np.allclose(out["discount"], [gamma ** len(x[2]) for x in b]), "discount")
                if na:
                    rec.eq(out["next_action"].tolist(), [10 * i + len(x[2]) - 1 for i, x in enumerate(b)], "next_action")
                else:
                    rec.check("next_action" not in out, "next_action")
                rec.step()


def unit_long_batch(rec):
    """Experiences of up to 8 transitions, every pair of lengths, the first one
    ending in a terminal state or not."""
    import torch

    from pfrl.replay_buffer import batch_experiences

    for gamma in (0.5, 0.9, 1.0):
        for la, lb, ta in itertools.product(range(1, 9), range(1, 9), (False, True)):
            rec.begin({"batch_experiences": [la, lb, ta], "gamma": gamma})
            b = [(0, 1, tuple(float(i + 1) for i in range(la)), 2, ta), (1, 0, tuple(-2.0 + i for i in range(lb)), 0, not ta)]
            out = batch_experiences([mk_exp(*x) for x in b], torch.device("cpu"), lambda o: o, gamma)
            rec.check(np.allclose(out["reward"], [sum(gamma**i * r for i, r in enumerate(x[2])) for x in b]), "n-step return")
            rec.eq(out["is_state_terminal"].tolist(), [float(ta), float(not ta)], "terminal")
            rec.check(np.allclose(out["discount"], [gamma**la, gamma**lb]), "discount")
            rec.eq(out["state"].argmax(1).tolist(), [0, 1], "state")
            rec.eq(out["next_state"].argmax(1).tolist(), [2, 0], "next_state")
            rec.eq(out["action"].tolist(), [1, 0], "action")
            rec.step()


def unit_smoothing(rec):
    """TD3's default target policy smoothing: clipped noise, clipped action."""
    import torch

    import pfrl

    keep = {k: getattr(torch, k) for k in ("randn_like", "randn", "normal")}
    noise = [None]

    def draw(shape):
        return noise[0].reshape(shape).clone()

    def normal(mean, std, size=None, **k):
        if size is None:
            size = mean.shape if isinstance(mean, torch.Tensor) else std.shape
        return mean + std * draw(tuple(size))

    fake = {
        "randn_like": lambda x, **k: draw(tuple(x.shape)),
        "randn": lambda *size, **k: draw(tuple(size[0]) if len(size) == 1 and not isinstance(size[0], int) else size),
        "normal": normal,
    }
    ns = [-9.0, -2.75, -2.5, -2.25, -1.0, -0.1, 0.0, 0.1, 1.0, 2.25, 2.5, 2.75, 9.0]
    acts = [-1.5, -1.0, -0.9, -0.4, 0.0, 0.3, 0.6, 1.0, 1.2]
    for n1, n2 in itertools.product(ns, repeat=2):
        for a1, a2 in itertools.product(acts, repeat=2):
            rec.begin({"noise": (n1, n2), "actions": (a1, a2)})
            for shape in ((2, 1), (1, 2)):
                noise[0] = torch.tensor([n1, n2])
                a = torch.tensor([a1, a2]).reshape(shape)
                a0 = a.clone()
                for k in fake:
                    setattr(torch, k, fake[k])
                try:
                    got = pfrl.agents.td3.default_target_policy_smoothing_func(a)
                finally:
                    for k in keep:
                        setattr(torch, k, keep[k])
                want = [min(max(x + min(max(0.2 * n, -0.5), 0.5), -1.0), 1.0) for x, n in ((a1, n1), (a2, n2))]
                rec.check(tuple(got.shape) == shape and np.allclose(got.reshape(-1).numpy(), want, atol=1e-5), "smoothed actions %s, expected %s" % (got.reshape(-1).tolist(), want))
                rec.check(torch.equal(a, a0), "smoothing changed its argument")
            rec.step()
            rec.state((n1, n2, a1, a2))
            rec.outcome(tuple(round(x, 4) for x in want))


def units(tier):
    T = tier == "thorough"
    nr = 14 if not T else 26
    us = [("td3-smoothing", unit_smoothing), ("batching", unit_batch), ("batching-long", unit_long_batch)]
    for seed in (3, 8) if T else (3,):
        for algo in ("DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "DPPL", "DPPGreedy"):
            base = algo in ("DQN", "DoubleDQN") or T
            for clip, acc, w, norm in itertools.product((True, False), ("mean", "sum"), (False, True), (None, 0.3)):
                if norm is not None and not (clip and algo == "DQN"):
                    continue
                if not base and (clip, acc, w) not in ((True, "mean", True), (False, "sum", False)):
                    continue
                us.append(("q-%s-%d-%s-%d-%s-%d" % (algo, clip, acc, w, norm, seed), unit_q, algo, clip, acc, w, norm, nr, T, seed))
    for dbl_, acc, w in itertools.product((False, True), ("mean", "sum"), (False, True)):
        us.append(("cat-%d-%s-%d" % (dbl_, acc, w), unit_cat, dbl_, acc, w, 3, -1.0, 1.0, nr))
    us.append(("cat-5", unit_cat, False, "mean", True, 5, -2.0, 4.0, nr))
    for acc, w in itertools.product(("mean", "sum"), (False, True)):
        us.append(("iqn-%s-%d" % (acc, w), unit_iqn, acc, w, nr if T else 8))
    us.append(("ddpg", unit_ac, "ddpg", {}, nr))
    for norm in (None, 0.2):
        us.append(("td3-%s" % norm, unit_ac, "td3", {"norm": norm}, nr))
    for norm, temp in ((None, False), (0.2, False), (None, True), (0.2, True)):
        us.append(("sac-%s-%d" % (norm, temp), unit_ac, "sac", {"norm": norm, "temp": temp}, nr))
    for algo in ("DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "CategoricalDQN", "CategoricalDoubleDQN", "IQN"):
        for acc in ("mean", "sum") if (T or algo == "DQN") else ("mean",):
            for k in range(2):
                us.append(("rec-%s-%s-%d" % (algo, acc, k), unit_recurrent, algo, acc, k, 2))
    return us
