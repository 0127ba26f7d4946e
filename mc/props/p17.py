"""P17  evaluation does not interfere with training, and depends on nothing but
the parameters and the evaluation episode.

Every agent (tiny real networks whose output depends on their mode) is trained
over every script of episode ends, without and with evaluations inserted at
every step boundary; random number generators are put back after an
evaluation. The two training runs have to agree bit for bit (actions,
parameters, network buffers, optimizer state, modes of every submodule,
counters, size of the replay buffer), and every evaluation has to give the
actions of a fresh agent with the same parameters.
"""
import copy
import itertools

import numpy as np

from mc import zoo as Z

RULE = "one case per (agent, options, script of episode ends, position and kind of evaluation); non-trivial outcomes = distinct final parameters and evaluation actions"
BOUNDS = {
    "quick": "28 agents (all classes, recurrent and continuous variants), 3 training steps with {continue, done, reset}, 1 environment; 2 environments x 2 steps for batch agents; "
    "evaluations (two episodes, one ended by a reset, one aborted by an exception, two environments ending at different times) singly at every step boundary (one kind per boundary, rotating with the script) and at all boundaries; deterministic and stochastic policies; a frozen submodule",
    "thorough": "every kind at every boundary, 4 training steps, 3 steps with 2 environments",
}
ASSUMPTIONS = [
    "random number generators are put back to their state before the evaluation",
    "evaluations are run between steps, as the training loops do, with the same number of evaluation environments each time",
]

OUT = [(False, False), (True, False), (False, True)]
EVALS = {
    "two": [[(1, 0), (1, 0), (0, 1)], [(1, 0), (0, 1)]],  # (continue) ... ended by reset
    "done": [[(1, 0), (2, 0)]],
    "abort": [[(1, 0), (9, 0)]],
}


class Abort(Exception):
    pass


def flags(z):
    return [(n, [m.training for m in mod.modules()]) for n, mod in z.modules()]


def evaluate(z, pattern, m, fresh=None):
    """Run episodes in evaluation mode with m environments; returns actions.
    fresh: gives another agent for every episode."""
    acts = []
    uid = 200
    try:
        for ep in EVALS[pattern]:
            ag = fresh().agent if fresh else z.agent
            with ag.eval_mode():
                cur = [uid + i for i in range(m)]
                for what, rs in ep:
                    if m == 0:
                        a = [ag.act(Z.obs_of(uid))]
                    elif m == 1 and z.kind in Z.SINGLE:
                        a = [ag.act(Z.obs_of(cur[0]))]
                    else:
                        a = ag.batch_act([Z.obs_of(c) for c in cur])
                    acts.append([np.asarray(x).tolist() for x in a])
                    if what == 9:
                        raise Abort()
                    uid += 7
                    nxt = [uid + i for i in range(max(m, 1))]
                    d, r = what == 2, bool(rs)
                    if m == 0 or z.kind in Z.SINGLE:
                        ag.observe(Z.obs_of(nxt[0]), 1.0, d, r)
                    else:
                        ag.batch_observe([Z.obs_of(c) for c in nxt], [1.0] * m, [d] * m, [r] * m)
                    cur = nxt
                uid += 5
    except Abort:
        pass
    return acts


MIXED = [[(0, 0), (0, 1)], [(1, 0), (0, 0)], [(0, 0), (0, 0)], [(0, 1), (1, 0)], [(0, 0), (0, 0)], [(0, 1), (0, 1)]]


def mixed(z, fresh):
    """Two evaluation environments whose episodes end at different times, at
    once or (fresh) each on its own, one new agent per episode."""
    at = lambda i, t: Z.obs_of(300 + 40 * i + 3 * t)
    if fresh is None:
        acts = []
        with z.agent.eval_mode():
            for t, outs in enumerate(MIXED):
                acts.append([np.asarray(a).tolist() for a in z.agent.batch_act([at(i, t) for i in range(2)])])
                z.agent.batch_observe([at(i, t + 1) for i in range(2)], [1.0] * 2, [bool(o[0]) for o in outs], [bool(o[1]) for o in outs])
        return acts
    acts = [[None, None] for _ in MIXED]
    for i in range(2):
        ag = None
        for t, outs in enumerate(MIXED):
            ag = ag or fresh().agent
            with ag.eval_mode():
                acts[t][i] = np.asarray(ag.batch_act([at(i, t)])[0]).tolist()
                ag.batch_observe([at(i, t + 1)], [1.0], [bool(outs[i][0])], [bool(outs[i][1])])
            if any(outs[i]):
                ag = None
    return acts


def own_actions(z, pattern, m):
    """Independent reading of the greedy/most probable actions, or None."""
    import torch
    from torch import distributions as D

    ag = z.agent
    if z.kind in ("iqn", "riqn"):
        return None
    if z.kind in Z.OFF and z.kind not in ("ddpg", "td3", "sac", "sact"):
        net = ag.model
        pick = lambda out: out.q_values.argmax(1)
    else:
        net = ag.policy if hasattr(ag, "policy") else ag.model

        def pick(out):
            out = out[0] if isinstance(out, tuple) else out
            if isinstance(out, D.Categorical):
                return out.logits.argmax(-1)
            return out.mean

    net = copy.deepcopy(net).eval()
    norm = copy.deepcopy(getattr(ag, "obs_normalizer", None))
    acts = []
    uid = 200
    m1 = max(m, 1)
    with torch.no_grad():
        for ep in EVALS[pattern]:
            cur = [uid + i for i in range(m1)]
            hs = None
            for what, rs in ep:
                x = torch.tensor(np.stack([Z.obs_of(c) for c in cur]))
                if norm is not None:
                    x = norm(x, update=False)
                if z.kind in Z.RECURRENT:
                    seq = torch.nn.utils.rnn.pack_sequence([r[None] for r in x])
                    out, hs = net(seq, hs)
                else:
                    out = net(x)
                acts.append(pick(out).numpy())
                if what == 9:
                    return acts
                uid += 7
                cur = [uid + i for i in range(m1)]
            uid += 5
    return acts


class Cache(object):
    """Fresh agents; without recurrent states one can be used again."""

    def __init__(self):
        self.d = {}

    def get(self, kind, det, n):
        if kind in Z.RECURRENT:
            return Z.Zoo(kind, seed=50, det=det, n_envs=n)
        k = (kind, det, n)
        if k not in self.d:
            self.d[k] = Z.Zoo(kind, seed=50, det=det, n_envs=n)
        return self.d[k]


cache = Cache()


def train(rec, kind, det, n, frozen, script, plan, oracle):
    """plan: {position: pattern}. Returns the training trace."""
    z = Z.Zoo(kind, det=det, n_envs=n)
    ag = z.agent
    Z.rng_seed(11)
    if frozen:
        for _, mod in z.modules():
            for sub in mod.modules():
                if type(sub).__name__ == "Mode":
                    sub.eval()
    fl = flags(z)
    trace = []
    em = 1 if (n == 1 or kind in Z.SINGLE) else 2 if "mixed" in plan.values() else 3

    def look(where):
        rec.check(flags(z) == fl, "a submodule is left in another mode after %s" % where)
        return (z.fingerprint(), len(z.buf) if z.buf is not None else None, getattr(ag, "t", None), ag.training)

    def maybe_eval(pos):
        if pos not in plan:
            return
        s = Z.rng_get()
        acts = evaluate(z, plan[pos], em) if plan[pos] != "mixed" else mixed(z, None)
        rec.check(ag.training is True, "agent left in evaluation mode")
        after = look("an evaluation")
        rec.step()
        if oracle:
            src = dict(z.modules())

            def fresh():
                r = Z.rng_get()
                f = cache.get(kind, det, n)
                for nm, mod in f.modules():
                    mod.load_state_dict(src[nm].state_dict())
                Z.rng_set(r)
                return f

            Z.rng_set(s)
            if plan[pos] == "mixed":
                rec.check(np.allclose(mixed(z, fresh), acts, atol=1e-5), "evaluation environments that end at different times do not act like separate ones")
                Z.rng_set(s)
                return
            rec.eq(evaluate(z, plan[pos], em, fresh) == acts, True, "evaluation %r after %d steps acts like a fresh agent with the same parameters" % (plan[pos], pos))
            if det or kind in Z.OFF and kind not in ("sac", "sact"):
                own = own_actions(z, plan[pos], em)
                if own is not None:
                    ok = all(
                        np.allclose(g, w[i], atol=1e-5)
                        for gs, w in zip(acts, own) for i, g in enumerate(gs)
                    ) and len(own) == len(acts)
                    rec.check(ok, "evaluation %r after %d steps does not take the greedy / most probable action" % (plan[pos], pos))
        Z.rng_set(s)
        rec.outcome(acts)

    uid = 1
    cur = [uid + i for i in range(n)]
    uid += n
    for t, outs in enumerate(script):
        maybe_eval(t)
        if n == 1 and kind in Z.SINGLE:
            a = [ag.act(Z.obs_of(cur[0]))]
        else:
            a = ag.batch_act([Z.obs_of(c) for c in cur])
        nxt = list(range(uid, uid + n))
        uid += n
        rw = [((c * 5) % 7 - 3) / 2.0 for c in nxt]
        d, r = [o[0] for o in outs], [o[1] for o in outs]
        if n == 1 and kind in Z.SINGLE:
            ag.observe(Z.obs_of(nxt[0]), rw[0], d[0], r[0])
        else:
            ag.batch_observe([Z.obs_of(c) for c in nxt], rw, d, r)
        trace.append(([np.asarray(x).tobytes() for x in a],) + look("training step %d" % t))
        cur = [x if not (d[i] or r[i]) else uid + i for i, x in enumerate(nxt)]
        uid += n
    maybe_eval(len(script))
    trace.append((None,) + look("the end"))
    return trace


def unit(rec, kind, det, n, frozen, T, every, part=0, parts=1):
    for k, script in enumerate(itertools.product(itertools.product(OUT, repeat=n), repeat=T)):
        if k % parts != part:
            continue
        rec.begin({"agent": kind, "det": det, "envs": n, "frozen": frozen, "script": script, "eval": None})
        base = train(rec, kind, det, n, frozen, script, {}, False)
        rec.state((kind, det, n, frozen, script))
        plans = []
        for pos in range(T + 1):
            for j, pat in enumerate(EVALS):
                if every or (pos + k + j) % 3 == 0:
                    plans.append({pos: pat})
        plans.append({p: "two" if p % 2 else "done" for p in range(T + 1)})
        if n == 2 and kind not in ("iqn", "riqn") and (det or kind in Z.OFF and kind not in ("sac", "sact")):
            plans = [{p: "mixed"} for p in range(T + 1)] + plans
        for plan in plans:
            rec.begin({"agent": kind, "det": det, "envs": n, "frozen": frozen, "script": script, "eval": plan})
            got = train(rec, kind, det, n, frozen, script, plan, list(plan.values()) != ["abort"])
            for t, (g, w) in enumerate(zip(got, base)):
                rec.check(g[0] == w[0], "training action %d differs when evaluations are run in between" % t)
                df = Z.diff(g[1], w[1])
                rec.check(not df, "training state after step %d differs when evaluations are run in between: %s" % (t, df[:3]))
                rec.eq(g[2:], w[2:], "replay size, counter and mode after step %d" % t)
            rec.outcome(hash(tuple(x[1] for x in got[-1][1] if isinstance(x[1], bytes))))


def unit_iqn_det(rec, seeds):
    """IQN(act_deterministically=True): in evaluation the action is the greedy
    one for K equally spaced quantile thresholds, whatever the random state."""
    import torch

    import pfrl
    from mc import agents as A

    S, NA, NB = 3, 3, 3
    for seed in range(seeds):
        for K in (1, 2, 4, 7):
            net = A.iqn_q(S, NA, 2, seed=seed)
            ag = pfrl.agents.IQN(
                net, torch.optim.SGD(net.parameters(), lr=0.1), pfrl.replay_buffers.ReplayBuffer(1000), 0.9,
                pfrl.explorers.ConstantEpsilonGreedy(1.0, lambda: 0), replay_start_size=100, quantile_thresholds_K=K, act_deterministically=True,
            )
            W = [p.detach().double().numpy() for p in net.parameters()]
            tau = np.arange(K) / max(K - 1, 1)
            q = []
            for s in range(S):
                phi = np.cos(tau[:, None] * np.arange(1, NB + 1)[None] * np.pi) @ W[2].T + W[3]
                q.append((((W[0][:, s] + W[1])[None] * phi) @ W[4].T + W[5]).mean(0))
            for seq in itertools.product(range(S), repeat=2):
                rec.begin({"iqn deterministic": seed, "K": K, "states": seq})
                obs = [np.eye(S, dtype=np.float32)[s] for s in seq]
                for r in range(2):
                    torch.manual_seed(r)
                    with ag.eval_mode():
                        got = [int(a) for a in ag.batch_act(obs)]
                        ag.batch_observe(obs, [0.0] * 2, [False] * 2, [True] * 2)
                        one = []
                        for o in obs:
                            one.append(int(ag.act(o)))
                            ag.observe(o, 0.0, False, False)
                    for acts in (got, one):
                        for s, a in zip(seq, acts):
                            rec.check(q[s][a] >= q[s].max() - 1e-5, "deterministic IQN action %d for state %d, values %s" % (a, s, q[s]))
                    rec.step(4)
                rec.state((seed, K, seq))
                rec.outcome((seed, K, tuple(got)))


def units(tier):
    T = tier == "thorough"
    us = [("iqn-det", unit_iqn_det, 40 if T else 12)]
    for i, kind in enumerate(Z.KINDS):
        for det in (False, True):
            if det and kind in Z.OFF and kind not in ("sac", "sact"):
                continue
            us.append(("%s-%d" % (kind, det), unit, kind, det, 1, bool((i + det) % 2), 4 if T else 3, T))
        if kind not in Z.SINGLE:
            for k in range(4 if T else 1):
                us.append(("%s-b%d" % (kind, k), unit, kind, kind not in ("sac", "ppo"), 2, bool(i % 2), 3 if T else 2, T, k, 4 if T else 1))
    return us
