"""Small real agents (tiny real networks, logging optimizers and buffers)."""
import numpy as np


def flat(module):
    import torch

    with torch.no_grad():
        ps = [p.detach().reshape(-1).double() for p in module.parameters()]
        return torch.cat(ps).numpy().copy() if ps else np.zeros(0)


def set_flat(module, vec):
    import torch

    i = 0
    with torch.no_grad():
        for p in module.parameters():
            n = p.numel()
            p.copy_(torch.as_tensor(np.asarray(vec[i : i + n]), dtype=p.dtype).reshape(p.shape))
            i += n


def init(module, seed=0, scale=1.0):
    """Deterministic, tie-free parameters."""
    v = flat(module)
    rs = np.random.RandomState(seed)
    set_flat(module, rs.uniform(-1, 1, size=v.shape) * scale)
    return module


def log_sgd(module, name, log, lr=0.05, base=None):
    import torch

    class LogSGD(base or torch.optim.SGD):
        def step(self, *a, **k):
            r = super().step(*a, **k)
            log.append(("opt", name, flat(module)))
            return r

    return LogSGD(module.parameters(), lr=lr)


def rec_buffer(cls, log, ident, *args, **kwargs):
    """Real buffer that logs its contents whenever it is sampled."""

    class RecBuffer(cls):
        quiet = False

        def contents(self):
            self.quiet = True
            try:
                return sorted(tuple(ident(t) for t in e) for e in cls.sample(self, len(self)))
            finally:
                self.quiet = False

        def sample(self, n):
            if not self.quiet:
                log.append(("sample", n, self.contents()))
            r = cls.sample(self, n)
            if not self.quiet:
                log.append(("sampled", [tuple(ident(t) for t in e) for e in r]))
            return r

        if hasattr(cls, "sample_episodes"):

            def sample_episodes(self, n, max_len=None):
                log.append(("sample", (n, max_len), self.contents()))
                r = cls.sample_episodes(self, n, max_len)
                log.append(("sampled", [tuple(ident(t) for t in e) for e in r]))
                return r

    return RecBuffer(*args, **kwargs)


def discrete_q(obs_dim, n_actions, seed=0):
    import torch
    from torch import nn

    import pfrl

    return init(nn.Sequential(nn.Linear(obs_dim, n_actions), pfrl.q_functions.DiscreteActionValueHead()), seed)


def recurrent_q(obs_dim, n_actions, seed=0, hidden=2):
    from torch import nn

    import pfrl

    return init(
        pfrl.nn.RecurrentSequential(
            nn.GRU(obs_dim, hidden), nn.Linear(hidden, n_actions), pfrl.q_functions.DiscreteActionValueHead()
        ),
        seed,
    )


def categorical_q(obs_dim, n_actions, n_atoms=3, v_min=-1.0, v_max=1.0, seed=0):
    import torch
    from torch import nn

    from pfrl.action_value import DistributionalDiscreteActionValue

    class M(nn.Module):
        def __init__(self):
            super().__init__()
            self.l = nn.Linear(obs_dim, n_actions * n_atoms)
            self.z = torch.linspace(v_min, v_max, n_atoms)

        def forward(self, x):
            return DistributionalDiscreteActionValue(
                torch.softmax(self.l(x).reshape(-1, n_actions, n_atoms), dim=2), self.z
            )

    return init(M(), seed)


def iqn_q(obs_dim, n_actions, hidden=2, seed=0):
    from torch import nn

    from pfrl.agents.iqn import CosineBasisLinear, ImplicitQuantileQFunction

    return init(
        ImplicitQuantileQFunction(
            psi=nn.Linear(obs_dim, hidden),
            phi=CosineBasisLinear(3, hidden),
            f=nn.Linear(hidden, n_actions),
        ),
        seed,
    )


def det_policy(obs_dim, action_dim, seed=0):
    from torch import nn

    from pfrl.policies import DeterministicHead

    return init(nn.Sequential(nn.Linear(obs_dim, action_dim), DeterministicHead()), seed, 0.3)


def gauss_policy(obs_dim, action_dim, seed=0):
    import torch
    from torch import nn
    from torch import distributions as D

    class Head(nn.Module):
        def forward(self, x):
            mean, ls = torch.chunk(x, 2, dim=1)
            return D.Independent(D.Normal(mean, torch.exp(ls.clamp(-2, 0))), 1)

    return init(nn.Sequential(nn.Linear(obs_dim, 2 * action_dim), Head()), seed, 0.3)


def sa_q(obs_dim, action_dim, seed=0):
    from torch import nn

    import pfrl

    return init(nn.Sequential(pfrl.nn.ConcatObsAndAction(), nn.Linear(obs_dim + action_dim, 1)), seed)
