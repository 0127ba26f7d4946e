"""One small real instance of every agent, for properties that compare runs.

make(kind, o) returns a Zoo object. Networks contain a `Mode` module whose
output depends on its training flag and which counts its training-mode forward
passes in a buffer (a deterministic stand-in for dropout and batch
normalization).
"""
import copy
import random

import numpy as np

from mc import agents as A

NA = 4
AD = 1


def obs_of(uid, dim=2):
    return np.array([uid / 16.0, 1.0 - (uid % 3) / 4.0], dtype=np.float32)


def mode():
    import torch
    from torch import nn

    class Mode(nn.Module):
        def __init__(self):
            super().__init__()
            self.register_buffer("n", torch.zeros(1))

        def forward(self, x):
            if self.training:
                self.n += 1
                return x * 1.25
            return x

    return Mode()


def gru_q(kind):
    from torch import nn

    import pfrl

    return A.init(pfrl.nn.RecurrentSequential(mode(), nn.GRU(2, 2), nn.Linear(2, NA), pfrl.q_functions.DiscreteActionValueHead()), 2)


def gauss_head():
    import torch
    from torch import distributions as D
    from torch import nn

    class Head(nn.Module):
        """Learned mean and (bounded) scale."""

        def forward(self, x):
            mean, ls = torch.chunk(x, 2, dim=1)
            return D.Independent(D.Normal(mean, torch.exp(torch.tanh(ls))), 1)

    return Head()


def gauss(seed):
    from torch import nn

    return A.init(nn.Sequential(mode(), nn.Linear(2, 2 * AD), gauss_head()), seed, 0.5)


def cat_head(n_in=2):
    from torch import nn

    import pfrl

    return nn.Sequential(nn.Linear(n_in, NA), pfrl.policies.SoftmaxCategoricalHead())


def pre(m):
    """Put a Mode module in front of m."""
    from torch import nn

    return nn.Sequential(mode(), m)


OFF = ["dqn", "ddqn", "al", "pal", "dpal", "dpp", "cat", "catd", "iqn", "rdqn", "riqn", "ddpg", "td3", "sac", "sact"]
ON = ["ppo", "rppo", "ppon", "trpo", "rtrpo", "a2c", "a3c", "ra3c", "reinforce", "rreinforce", "acer", "racer", "cacer"]
KINDS = OFF + ON
SINGLE = {"a3c", "ra3c", "reinforce", "rreinforce", "acer", "racer", "cacer"}  # no batch interface
RECURRENT = {"rdqn", "riqn", "rppo", "rtrpo", "ra3c", "rreinforce", "racer"}


class Zoo(object):
    def __init__(self, kind, seed=0, det=False, n_envs=1, opt="sgd", exact=False, extra=None):
        import torch
        from torch import nn

        import pfrl
        from pfrl import agents as PA
        from pfrl.replay_buffers import EpisodicReplayBuffer, PrioritizedReplayBuffer, ReplayBuffer

        self.kind = kind
        self.buf = None
        X = extra or {}  # further arguments of the agent
        I = lambda m, k=0, s=0.7: A.init(m, seed + k, 1.4 if kind in RECURRENT else s)

        def sgd(m):
            if opt == "adam":
                return torch.optim.Adam(m.parameters(), lr=0.05)
            if opt == "momentum":
                return torch.optim.SGD(m.parameters(), lr=0.05, momentum=0.9)
            if opt == "rms":
                return pfrl.optimizers.RMSpropEpsInsideSqrt(m.parameters(), lr=0.05)
            if opt == "shared":
                return pfrl.optimizers.SharedRMSpropEpsInsideSqrt(m.parameters(), lr=0.05)
            return torch.optim.SGD(m.parameters(), lr=0.001 if kind == "cacer" else 0.01 if kind in ("sac", "sact") else 0.05)

        if kind in OFF and kind not in ("ddpg", "td3", "sac", "sact"):
            com = dict(gamma=0.9, replay_start_size=2, minibatch_size=2, update_interval=1, target_update_interval=3)
            ex = pfrl.explorers.ConstantEpsilonGreedy(0.3, lambda: np.random.randint(NA))
            kw = {}
            if kind in ("cat", "catd"):
                q = pre(A.categorical_q(2, NA))
            elif kind == "iqn":
                from pfrl.agents.iqn import CosineBasisLinear, ImplicitQuantileQFunction

                q = ImplicitQuantileQFunction(psi=pre(nn.Linear(2, 2)), phi=CosineBasisLinear(3, 2), f=nn.Linear(2, NA))
                kw = dict(quantile_thresholds_N=2, quantile_thresholds_N_prime=2, quantile_thresholds_K=2)
            elif kind == "rdqn":
                q = gru_q(kind)
            elif kind == "riqn":
                from pfrl.agents.iqn import CosineBasisLinear, RecurrentImplicitQuantileQFunction

                q = RecurrentImplicitQuantileQFunction(psi=pfrl.nn.RecurrentSequential(mode(), nn.GRU(2, 2)), phi=CosineBasisLinear(3, 2), f=nn.Linear(2, NA))
                kw = dict(quantile_thresholds_N=2, quantile_thresholds_N_prime=2, quantile_thresholds_K=2)
            else:
                q = pre(A.discrete_q(2, NA))
            I(q)
            if kind in ("rdqn", "riqn"):
                self.buf = EpisodicReplayBuffer(None)
                kw.update(recurrent=True, episodic_update_len=2)
            elif kind == "ddqn":
                self.buf = PrioritizedReplayBuffer(None, betasteps=None if exact else 10)
            else:
                self.buf = ReplayBuffer(None, num_steps=2 if kind == "dqn" else 1)
            cls = dict(
                dqn=PA.DQN, ddqn=PA.DoubleDQN, al=PA.AL, pal=PA.PAL, dpal=PA.DoublePAL, dpp=PA.DPP, cat=PA.CategoricalDQN, catd=PA.CategoricalDoubleDQN,
                iqn=PA.IQN, rdqn=PA.DQN, riqn=PA.IQN,
            )[kind]
            self.agent = cls(q, sgd(q), self.buf, explorer=ex, **dict(com, **kw, **X))
        elif kind in ("ddpg", "td3", "sac", "sact"):
            com = dict(gamma=0.9, replay_start_size=2, minibatch_size=2, update_interval=1, **X)
            self.buf = ReplayBuffer(None, num_steps=2 if kind == "ddpg" else 1)
            ex = pfrl.explorers.AdditiveGaussian(0.2)
            qf = lambda k: I(nn.Sequential(pfrl.nn.ConcatObsAndAction(), mode(), nn.Linear(2 + AD, 1)), k)
            if kind == "ddpg":
                pi, q = I(nn.Sequential(mode(), nn.Linear(2, AD), pfrl.policies.DeterministicHead())), qf(1)
                ex = ex if exact else pfrl.explorers.AdditiveOU(sigma=0.2)
                self.agent = PA.DDPG(pi, q, sgd(pi), sgd(q), self.buf, explorer=ex, target_update_interval=3, **com)
            elif kind == "td3":
                pi, q1, q2 = I(nn.Sequential(mode(), nn.Linear(2, AD), pfrl.policies.DeterministicHead())), qf(1), qf(2)
                self.agent = PA.TD3(pi, q1, q2, sgd(pi), sgd(q1), sgd(q2), self.buf, explorer=ex, policy_update_delay=1 if exact else 2, **com)
            else:
                pi, q1, q2 = I(gauss(0), 0, 0.5), qf(1), qf(2)
                self.agent = PA.SoftActorCritic(
                    pi, q1, q2, sgd(pi), sgd(q1), sgd(q2), self.buf, entropy_target=-1.0 if kind == "sact" else None, temperature_optimizer_lr=0.1 if kind == "sact" else None,
                    act_deterministically=det, **com
                )
        elif kind in ("ppo", "rppo", "ppon"):
            if kind == "rppo":
                m = pfrl.nn.RecurrentSequential(mode(), nn.GRU(2, 2), pfrl.nn.Branched(cat_head(), nn.Linear(2, 1)))
            else:
                m = pre(pfrl.nn.Branched(cat_head(), nn.Linear(2, 1)))
            I(m)
            self.agent = PA.PPO(
                m, sgd(m), obs_normalizer=pfrl.nn.EmpiricalNormalization(2) if kind == "ppon" else None, gamma=0.9, update_interval=2 * n_envs, minibatch_size=2, epochs=1,
                recurrent=kind == "rppo", act_deterministically=det, **X,
            )
        elif kind in ("trpo", "rtrpo"):
            if kind == "rtrpo":
                pi = pfrl.nn.RecurrentSequential(mode(), nn.GRU(2, 2), cat_head())
                vf = pfrl.nn.RecurrentSequential(mode(), nn.GRU(2, 2), nn.Linear(2, 1))
            else:
                pi, vf = pre(cat_head()), pre(nn.Linear(2, 1))
            I(pi), I(vf, 1)
            self.agent = PA.TRPO(
                pi, vf, sgd(vf), obs_normalizer=pfrl.nn.EmpiricalNormalization(2) if kind == "trpo" else None, gamma=0.9, update_interval=2 * n_envs, vf_epochs=1, vf_batch_size=2,
                recurrent=kind == "rtrpo", act_deterministically=det, max_kl=0.05, **X,
            )
        elif kind == "a2c":
            m = I(pre(pfrl.nn.Branched(cat_head(), nn.Linear(2, 1))))
            self.agent = PA.A2C(m, sgd(m), gamma=0.9, num_processes=n_envs, update_steps=2, act_deterministically=det, **X)
        elif kind in ("a3c", "ra3c"):
            m = pfrl.nn.Branched(cat_head(), nn.Linear(2, 1))
            m = pfrl.nn.RecurrentSequential(mode(), nn.GRU(2, 2), m) if kind == "ra3c" else pre(m)
            I(m).share_memory()
            self.agent = PA.A3C(m, sgd(m), t_max=2, gamma=0.9, recurrent=kind == "ra3c", act_deterministically=det, **X)
        elif kind in ("reinforce", "rreinforce"):
            m = pfrl.nn.RecurrentSequential(mode(), nn.GRU(2, 2), cat_head()) if kind == "rreinforce" else pre(cat_head())
            I(m)
            self.agent = PA.REINFORCE(m, sgd(m), batchsize=2, recurrent=kind == "rreinforce", act_deterministically=det, backward_separately=kind == "reinforce", **X)
        elif kind in ("acer", "racer", "cacer"):
            from pfrl.agents.acer import ACERContinuousActionHead, ACERDiscreteActionHead

            if kind == "cacer":
                m = ACERContinuousActionHead(
                    pi=gauss(0), v=nn.Linear(2, 1),
                    adv=nn.Sequential(pfrl.nn.ConcatObsAndAction(), nn.Linear(2 + AD, 1)), n=2,
                )
            else:
                m = ACERDiscreteActionHead(pi=pre(cat_head()), q=nn.Sequential(nn.Linear(2, NA), pfrl.q_functions.DiscreteActionValueHead()))
            if kind == "racer":
                m.pi[0] = nn.Identity()
                m = pfrl.nn.RecurrentSequential(mode(), nn.GRU(2, 2), m)
            I(m).share_memory()
            self.buf = EpisodicReplayBuffer(10**3)
            self.agent = PA.ACER(m, sgd(m), t_max=2, gamma=0.9, replay_buffer=self.buf, n_times_replay=1, replay_start_size=1, use_trust_region=not exact, recurrent=kind == "racer", act_deterministically=det, **X)
        else:
            raise KeyError(kind)

    def modules(self):
        """(name, module) of every saved network, plus shared and target ones."""
        from torch import nn

        ag = self.agent
        names = list(ag.saved_attributes) + ["obs_normalizer", "shared_model", "shared_average_model", "target_model"]
        seen = []
        for n in names:
            m = getattr(ag, n, None)
            if isinstance(m, nn.Module) and not any(m is x for _, x in seen):
                seen.append((n, m))
        return seen

    def fingerprint(self):
        """Parameters, buffers and optimizer state, bit for bit."""
        import torch

        out = []
        for n, m in self.modules():
            for k, v in m.state_dict().items():
                out.append((n + "." + k, v.detach().numpy().tobytes()))
        for n in self.agent.saved_attributes:
            o = getattr(self.agent, n)
            if isinstance(o, torch.optim.Optimizer):
                for i, s in o.state_dict()["state"].items():
                    for k, v in sorted(s.items()):
                        out.append(("%s.%s.%s" % (n, i, k), np.asarray(v.detach() if isinstance(v, torch.Tensor) else v, dtype=np.float64).tobytes()))
        return out


def rng_get():
    import torch

    return random.getstate(), np.random.get_state(), torch.get_rng_state()


def rng_set(s):
    import torch

    random.setstate(s[0])
    np.random.set_state(s[1])
    torch.set_rng_state(s[2])


def rng_seed(k):
    import torch

    random.seed(k)
    np.random.seed(k)
    torch.manual_seed(k)


def diff(a, b):
    """Names of entries that differ between two fingerprints."""
    da, db = dict(a), dict(b)
    return sorted(k for k in set(da) | set(db) if da.get(k) != db.get(k))
