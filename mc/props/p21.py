"""P21  action values and policy heads mean what they say.

All small batches of Q-values / return distributions / quantiles / quadratic
forms and all configurations of the policy heads, on the real classes against
direct (python float) evaluation; indexing must commute with every operation.
"""
import itertools
import math

import numpy as np

RULE = "one case per (class, contents of the batch, configuration); non-trivial outcomes = distinct (greedy, max) results"
BOUNDS = {
    "quick": "all batches of 1-2 rows x 1-3 actions over 4 q-values (ties included); all return distributions over 2-3 atoms in multiples of 1/2 x 1-2 actions x 2 rows; all quantile sets of 1-3 taus over 3 values; quadratic forms of dimension 1-2 (5 positive definite matrices, 4 values of mu per dimension, all combinations of bounds) checked against a grid of 9^d actions; all heads with 1-3 dimensional actions; every index form",
    "thorough": "3 rows, 5 q-values, distributions in multiples of 1/3, dimension 3 for the quadratic form",
}
ASSUMPTIONS = ["float32 tolerance 1e-5", "ties may be broken either way", "a bounded quadratic value uses mu clipped into the bounds as its greedy action (documented NAF behaviour)"]
TOL = 1e-5


def close(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol))


def np_(t):
    return t.detach().cpu().numpy()


def indices(B):
    import torch

    out = [slice(i, j) for i in range(B) for j in range(i + 1, B + 1)] + [slice(None)]
    out += [list(p) for k in range(1, B + 1) for p in itertools.permutations(range(B), k)]
    out += [torch.tensor(list(reversed(range(B))))]
    return out


def pick(rows, i):
    if isinstance(i, slice):
        return rows[i]
    return [rows[int(k)] for k in i]


def softmax(x):
    m = max(x)
    e = [math.exp(v - m) for v in x]
    return [v / sum(e) for v in e]


def check_discrete(rec, av, q, idx=True, int_types=True):
    """av must behave like the (B, A) python list q."""
    import torch

    B, A = len(q), len(q[0])
    rec.check(av.n_actions == A, "n_actions %r" % (av.n_actions,))
    rec.check(close(np_(av.q_values), q), "q_values %r instead of %r" % (av.q_values, q))
    g = np_(av.greedy_actions)
    rec.check(g.shape == (B,) and all(0 <= int(a) < A for a in g), "greedy_actions %r" % (g,))
    rec.check(not av.greedy_actions.requires_grad, "greedy actions carry gradients")
    for b in range(B):
        rec.check(q[b][int(g[b])] >= max(q[b]) - 1e-6, "greedy action %d of %r is not maximal" % (g[b], q[b]))
    rec.check(close(np_(av.max), [max(r) for r in q]), "max %r of %r" % (av.max, q))
    types = (torch.int64, torch.int32) if int_types else (torch.int64,)
    for acts in itertools.product(range(A), repeat=B):
        for ty in types:
            a = torch.tensor(acts, dtype=ty)
            v = av.evaluate_actions(a)
            rec.check(close(np_(v), [q[b][acts[b]] for b in range(B)]), "evaluate_actions(%r) = %r of %r" % (acts, v, q))
        adv = av.compute_advantage(a)
        rec.check(close(np_(adv), [q[b][acts[b]] - max(q[b]) for b in range(B)]), "compute_advantage(%r) = %r" % (acts, adv))
        other = tuple(reversed(acts)) if B > 1 else ((acts[0] + 1) % A,)
        dadv = av.compute_double_advantage(a, torch.tensor(other))
        rec.check(close(np_(dadv), [q[b][acts[b]] - q[b][other[b]] for b in range(B)]), "compute_double_advantage(%r, %r) = %r" % (acts, other, dadv))
    import warnings

    for beta in (0.0, 1.0, 4.0):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e = av.compute_expectation(beta)
        want = [sum(p * v for p, v in zip(softmax([beta * v for v in r]), r)) for r in q]
        rec.check(close(np_(e), want, 1e-4), "compute_expectation(%r) = %r instead of %r" % (beta, e, want))
    if idx:
        for i in indices(B):
            sub = av[i]
            rec.check(type(sub) is type(av), "type after indexing")
            check_discrete(rec, sub, pick(q, i), idx=False, int_types=int_types)
    repr(av)


def grads(rec, av, leaf, f, want, what):
    """d f(av) / d leaf must be `want`."""
    import torch

    (g,) = torch.autograd.grad(f(av), leaf, retain_graph=True)
    rec.check(close(np_(g), want), "gradient of %s: %r instead of %r" % (what, g, want))


def unit_discrete(rec, B, A, vals):
    import torch

    from pfrl.action_value import DiscreteActionValue

    for flat in itertools.product(vals, repeat=B * A):
        q = [list(flat[b * A : (b + 1) * A]) for b in range(B)]
        rec.begin({"class": "DiscreteActionValue", "q": q})
        rec.step()
        leaf = torch.tensor(q, dtype=torch.float32, requires_grad=True)
        av = DiscreteActionValue(leaf)
        check_discrete(rec, av, q)
        rec.check(av.params[0] is av.q_values and len(av.params) == 1, "params")
        g = np_(av.greedy_actions)
        ind = np.zeros((B, A))
        ind[range(B), g] = 1
        grads(rec, av, leaf, lambda v: v.max.sum(), ind, "max")
        ind = np.zeros((B, A))
        ind[:, A - 1] = 1
        grads(rec, av, leaf, lambda v: v.evaluate_actions(torch.full((B,), A - 1)).sum(), ind, "evaluate_actions")
        rec.check(torch.equal(leaf.detach(), torch.tensor(q, dtype=torch.float32)), "q values modified")
        rec.state((B, A, flat))
        rec.outcome((g.tolist(), np_(av.max).tolist()))


def simplex(n, k):
    return [tuple(x / k for x in c) for c in itertools.product(range(k + 1), repeat=n) if sum(c) == k]


def unit_dist(rec, B, A, Z, k):
    import torch

    from pfrl.action_value import DistributionalDiscreteActionValue

    for z in ([-1.0, 0.0, 2.0][:Z], [0.5, 1.0, 1.5][:Z]):
        for flat in itertools.product(simplex(Z, k), repeat=B * A):
            d = [[list(flat[b * A + a]) for a in range(A)] for b in range(B)]
            q = [[sum(p * v for p, v in zip(r, z)) for r in row] for row in d]
            rec.begin({"class": "DistributionalDiscreteActionValue", "dist": d, "z": z})
            rec.step()
            leaf = torch.tensor(d, dtype=torch.float32, requires_grad=True)
            av = DistributionalDiscreteActionValue(leaf, torch.tensor(z))
            check_discrete(rec, av, q, int_types=False)
            g = np_(av.greedy_actions)
            rec.check(close(np_(av.max_as_distribution), [d[b][g[b]] for b in range(B)]), "max_as_distribution")
            ind = np.zeros((B, A, Z))
            ind[range(B), g] = 1
            grads(rec, av, leaf, lambda v: v.max_as_distribution.sum(), ind, "max_as_distribution")
            for acts in itertools.product(range(A), repeat=B):
                e = av.evaluate_actions_as_distribution(torch.tensor(acts))
                rec.check(close(np_(e), [d[b][acts[b]] for b in range(B)]), "evaluate_actions_as_distribution(%r)" % (acts,))
                for i in indices(B):
                    e = av[i].evaluate_actions_as_distribution(torch.tensor(pick(list(acts), i)))
                    rec.check(close(np_(e), pick([d[b][acts[b]] for b in range(B)], i)), "indexed evaluate_actions_as_distribution")
            rec.check(len(av.params) == 1 and av.params[0] is leaf, "params")
            rec.state((z, flat))
            rec.outcome((g.tolist(), np.round(np_(av.max), 4).tolist()))


def unit_quant(rec, B, A, N, vals):
    import torch

    from pfrl.action_value import QuantileDiscreteActionValue

    for flat in itertools.product(vals, repeat=B * A * N):
        x = np.array(flat).reshape(B, N, A)
        q = [[float(sum(x[b, :, a])) / N for a in range(A)] for b in range(B)]
        rec.begin({"class": "QuantileDiscreteActionValue", "quantiles": x.tolist()})
        rec.step()
        leaf = torch.tensor(x, dtype=torch.float32, requires_grad=True)
        av = QuantileDiscreteActionValue(leaf)
        check_discrete(rec, av, q, idx=(N * A * B <= 4))
        for acts in itertools.product(range(A), repeat=B):
            e = av.evaluate_actions_as_quantiles(torch.tensor(acts))
            rec.check(close(np_(e), [x[b, :, acts[b]] for b in range(B)]), "evaluate_actions_as_quantiles(%r)" % (acts,))
            e = av[[B - 1]].evaluate_actions_as_quantiles(torch.tensor([acts[-1]], dtype=torch.int32))
            rec.check(close(np_(e), [x[B - 1, :, acts[-1]]]), "indexed evaluate_actions_as_quantiles")
        ind = np.zeros((B, N, A))
        ind[range(B), :, np_(av.greedy_actions)] = 1.0 / N
        grads(rec, av, leaf, lambda v: v.max.sum(), ind, "max")
        rec.check(len(av.params) == 1 and av.params[0] is leaf, "params")
        rec.state(flat)
        rec.outcome((np_(av.greedy_actions).tolist(), np.round(np_(av.max), 4).tolist()))


MATS = {
    1: [[[1.0]], [[0.25]], [[4.0]]],
    2: [[[1.0, 0.0], [0.0, 1.0]], [[4.0, 0.0], [0.0, 0.5]], [[2.0, 1.0], [1.0, 2.0]], [[1.0, -0.5], [-0.5, 0.5]]],
    3: [[[2.0, 0.5, 0.0], [0.5, 1.0, -0.25], [0.0, -0.25, 1.0]], [[1.0, 0, 0], [0, 2.0, 0], [0, 0, 0.5]]],
}


def unit_quadratic(rec, d):
    import torch

    from pfrl.action_value import QuadraticActionValue

    bounds = [(None, None), ([-1.0] * d, [1.0] * d), ([-1.0, 0.5, 0.0][:d], [0.25, 1.0, 2.0][:d]), ([-0.5] * d, None), (None, [0.5] * d)]
    if d == 1:
        bounds += [(-1.0, 0.5), (-1, 1)]
    grid = list(itertools.product(np.linspace(-1, 1, 9) if d < 3 else np.linspace(-1, 1, 5), repeat=d))
    mus = list(itertools.product((-2.0, -0.5, 0.25, 1.5), repeat=d))
    for mu, (k, mat), (lo, hi), form in itertools.product(mus, enumerate(MATS[d]), bounds, ("np", "list")):
        if form == "np":
            lo = np.array(lo, dtype=np.float32) if isinstance(lo, list) else lo
            hi = np.array(hi, dtype=np.float32) if isinstance(hi, list) else hi
        # a second row guards against mixing rows
        m2 = [v + 0.75 for v in reversed(mu)]
        v = [0.5, -3.0]
        rows = [(list(mu), mat, v[0]), (m2, MATS[d][(k + 1) % len(MATS[d])], v[1])]
        rec.begin({"class": "QuadraticActionValue", "mu": mu, "mat": mat, "low": lo, "high": hi})
        rec.step()
        T = lambda x: torch.tensor(x, dtype=torch.float32)
        av = QuadraticActionValue(T([r[0] for r in rows]), T([r[1] for r in rows]), T([[r[2]] for r in rows]), lo, hi)
        out = None
        for i in (None, slice(0, 1), slice(1, 2), [1, 0]):
            sub = av if i is None else av[i]
            rr = rows if i is None else pick(rows, i)
            g = np_(sub.greedy_actions)
            L = np.broadcast_to(-np.inf if lo is None else np.asarray(lo, dtype=float), (d,))
            H = np.broadcast_to(np.inf if hi is None else np.asarray(hi, dtype=float), (d,))
            want = np.array([np.minimum(np.maximum(np.array(r[0]), L), H) for r in rr])
            rec.check(close(g, want), "greedy_actions %r instead of %r" % (g, want))

            def Q(r, u):
                x = np.array(u, dtype=float) - np.array(r[0])
                return r[2] - 0.5 * float(x @ np.array(r[1]) @ x)

            mx = np_(sub.max)
            rec.check(close(mx, [Q(r, w) for r, w in zip(rr, want)], 1e-4), "max %r is not the value of the greedy action" % (mx,))
            for u in grid:
                us = [list(u) for _ in rr]
                e = np_(sub.evaluate_actions(T(us)))
                w = [Q(r, u) for r in rr]
                rec.check(close(e, w, 1e-4), "evaluate_actions(%r) = %r instead of %r" % (u, e, w))
                for b, r in enumerate(rr):
                    diag = not np.any(np.array(r[1]) - np.diag(np.diag(r[1])))
                    feasible = (np.array(u) >= L).all() and (np.array(u) <= H).all()
                    if feasible and (diag or np.allclose(want[b], r[0])):
                        rec.check(e[b] <= mx[b] + 1e-4, "action %r has value %r above the maximum %r" % (u, e[b], mx[b]))
            us = T([list(grid[0]) for _ in rr])
            vs = T([list(grid[-1]) for _ in rr])
            rec.check(close(np_(sub.compute_advantage(us)), [Q(r, grid[0]) - Q(r, w) for r, w in zip(rr, want)], 1e-4), "compute_advantage")
            rec.check(close(np_(sub.compute_double_advantage(us, vs)), [Q(r, grid[0]) - Q(r, grid[-1]) for r in rr], 1e-4), "compute_double_advantage")
            out = out or (np.round(g, 3).tolist(), np.round(mx, 3).tolist())
        rec.state((mu, k, str(lo), str(hi)))
        rec.outcome(out)



def unit_quadnet(rec, d):
    """FCQuadraticStateQFunction: positive definite forms, actions in bounds."""
    import torch

    import pfrl
    from mc import agents as A

    class Space(object):
        low = np.array([-1.0, 0.5, -3.0][:d], dtype=np.float32)
        high = np.array([1.0, 2.0, 5.0][:d], dtype=np.float32)

    for seed, scale, scale_mu, layers in itertools.product(range(3), (0.3, 1.0), (True, False), (1, 2)):
        net = A.init(pfrl.q_functions.FCQuadraticStateQFunction(2, d, 4, layers, Space, scale_mu=scale_mu), seed, scale)
        xs = [list(x) for x in itertools.product((-1.0, 0.5, 2.0), repeat=2)]
        with torch.no_grad():
            allv = net(torch.tensor(xs))
        for k, x in enumerate(xs):
            rec.begin({"class": "FCQuadraticStateQFunction", "dim": d, "x": x, "seed": seed, "scale_mu": scale_mu})
            rec.step()
            with torch.no_grad():
                av = net(torch.tensor([x]))
            g, m = np_(av.greedy_actions)[0], np_(av.mat)[0].astype(float)
            rec.check(close(m, m.T), "matrix is not symmetric")
            rec.check(np.linalg.eigvalsh(m).min() > 0, "matrix is not positive definite: %r" % (m,))
            rec.check((g >= Space.low - 1e-6).all() and (g <= Space.high + 1e-6).all(), "greedy action %r outside the action space" % (g,))
            rec.check(close(np_(allv.greedy_actions)[k], g) and close(np_(allv.max)[k], np_(av.max)[0], 1e-4), "batched evaluation differs from single evaluation")
            # reference forward
            h = np.array(x)
            for l in net.hidden_layers:
                h = np.maximum(np_(l.weight) @ h + np_(l.bias), 0)
            mu = np_(net.mu.weight) @ h + np_(net.mu.bias)
            if scale_mu:
                mu = np.tanh(mu) * (Space.high - Space.low) / 2 + (Space.high + Space.low) / 2
            v = (np_(net.v.weight) @ h + np_(net.v.bias))[0]
            rec.check(close(np_(av.mu)[0], mu, 1e-4) and close(np_(av.v).ravel()[0], v, 1e-4), "mu or V")
            Lm = np.diag(np.exp(np_(net.mat_diag.weight) @ h + np_(net.mat_diag.bias)))
            if d > 1:
                Lm[np.tril_indices(d, -1)] = np_(net.mat_non_diag.weight) @ h + np_(net.mat_non_diag.bias)
            rec.check(np.allclose(m, Lm @ Lm.T, rtol=1e-3, atol=1e-4), "P is not L L^T")
            u = (Space.low + Space.high) / 2
            e = np_(av.evaluate_actions(torch.tensor(u[None])))[0]
            want = v - 0.5 * (u - mu) @ m @ (u - mu)
            rec.check(abs(e - want) < 1e-3 * (1 + abs(want)), "Q(u) = %r instead of %r" % (e, want))
            rec.outcome((np.round(g, 3).tolist(), round(float(e), 3)))
            rec.state((d, seed, scale, scale_mu, layers, k))


def unit_single(rec):
    import torch

    from pfrl.action_value import SingleActionValue

    for q in itertools.product((-1.0, 0.0, 2.0), repeat=3):
        rec.begin({"class": "SingleActionValue", "q": q})
        rec.step()
        tab = torch.tensor(q)
        best = int(np.argmax(q))
        av = SingleActionValue(lambda a: tab[a], lambda: torch.tensor([best]))
        rec.check(close(np_(av.max), [max(q)]) and np_(av.greedy_actions).tolist() == [best], "greedy/max")
        for a, b in itertools.product(range(3), repeat=2):
            x = torch.tensor([a])
            rec.check(close(np_(av.evaluate_actions(x)), [q[a]]), "evaluate_actions")
            rec.check(close(np_(av.compute_advantage(x)), [q[a] - max(q)]), "compute_advantage")
            rec.check(close(np_(av.compute_double_advantage(x, torch.tensor([b]))), [q[a] - q[b]]), "compute_double_advantage")
        rec.state(q)
        rec.outcome((best, max(q)))


# ------------------------------------------------------------------ policies


def normal_logp(x, m, v):
    return -0.5 * (math.log(2 * math.pi * v) + (x - m) ** 2 / v)


def sp(x):
    return math.log1p(math.exp(x))


def unit_heads(rec, d):
    import torch
    from torch import nn

    import pfrl
    from pfrl.utils.mode_of_distribution import mode_of_distribution

    vals = (-1.0, 0.25, 2.0)
    rows = [list(r) for r in itertools.product(vals, repeat=d)]
    T = lambda x: torch.tensor(x, dtype=torch.float32)
    us = [[0.0] * d, [0.5 * (i + 1) for i in range(d)], [-1.0] * d]

    def gauss(name, dist, means, vars_):
        rec.begin({"head": name, "mean": means, "var": vars_})
        rec.step()
        B = len(means)
        rec.check(dist.batch_shape == (B,) and dist.event_shape == (d,), "shapes %r %r" % (dist.batch_shape, dist.event_shape))
        rec.check(close(np_(dist.mean), means) and close(np_(dist.variance), vars_), "mean/variance %r %r" % (dist.mean, dist.variance))
        for u in us:
            want = [sum(normal_logp(u[i], m[i], v[i]) for i in range(d)) for m, v in zip(means, vars_)]
            got = dist.log_prob(T([u] * B))
            rec.check(close(np_(got), want, 1e-4), "log_prob(%r) = %r instead of %r" % (u, got, want))
        ent = [sum(0.5 * (1 + math.log(2 * math.pi * x)) for x in v) for v in vars_]
        rec.check(close(np_(dist.entropy()), ent, 1e-4), "entropy")
        rec.check(close(np_(mode_of_distribution(dist)), means), "mode %r" % (mode_of_distribution(dist),))
        rec.state((name, str(means), str(vars_)))
        rec.outcome((name, np.round(means, 3).tolist(), np.round(vars_, 3).tolist()))

    batches = [[r] for r in rows] + [rows[:2], rows[-2:][::-1], rows]
    for means in batches:
        B = len(means)
        for s in (1, 0.5, 2.0):
            gauss("fixed", pfrl.policies.GaussianHeadWithFixedCovariance(s)(T(means)), means, [[s * s] * d] * B)
        for vt in ("spherical", "diagonal"):
            for init in (0, -1.0, 0.5):
                head = pfrl.policies.GaussianHeadWithStateIndependentCovariance(d, var_type=vt, var_param_init=init)
                gauss("indep-" + vt, head(T(means)), means, [[sp(init)] * d] * B)
                if vt == "diagonal":
                    p = [init + 0.3 * i for i in range(d)]
                    with torch.no_grad():
                        head.var_param.copy_(T(p))
                    gauss("indep-diag-set", head(T(means)), means, [[sp(x) for x in p]] * B)
            head = pfrl.policies.GaussianHeadWithStateIndependentCovariance(d, var_type=vt, var_func=torch.exp, var_param_init=-0.5)
            gauss("indep-exp", head(T(means)), means, [[math.exp(-0.5)] * d] * B)
            dist = head(T(means))
            dist.log_prob(T(means)).sum().backward()
            rec.check(head.var_param.grad is not None and bool((head.var_param.grad != 0).all()), "the variance parameter gets no gradient")
        pre = [[0.4 * i - 0.7 * b for i in range(d)] for b in range(B)]
        both = [m + p for m, p in zip(means, pre)]
        gauss("diag", pfrl.policies.GaussianHeadWithDiagonalCovariance()(T(both)), means, [[sp(x) for x in p] for p in pre])
        gauss("diag-exp", pfrl.policies.GaussianHeadWithDiagonalCovariance(var_func=torch.exp)(T(both)), means, [[math.exp(x) for x in p] for p in pre])
        # deterministic policy
        rec.begin({"head": "deterministic", "loc": means})
        rec.step()
        leaf = T(means).requires_grad_()
        dist = pfrl.policies.DeterministicHead()(leaf)
        rec.check(dist.batch_shape == (B,) and dist.event_shape == (d,), "shapes")
        rec.check(close(np_(dist.sample()), means) and close(np_(dist.rsample()), means) and close(np_(dist.mean), means), "sample")
        rec.check(close(np_(dist.stddev), np.zeros((B, d))) and close(np_(dist.variance), np.zeros((B, d))), "variance")
        rec.check(close(np_(dist.sample((2,))), [means, means]), "sample shape")
        rec.check(not dist.sample().requires_grad and dist.rsample().requires_grad, "gradients of samples")
        (g,) = torch.autograd.grad(dist.rsample().sum(), leaf)
        rec.check(close(np_(g), np.ones((B, d))), "gradient through rsample")
        ex = pfrl.distributions.Delta(T(means)).expand((2, B, d))
        rec.check(ex.batch_shape == (2, B, d) and close(np_(ex.sample()), [means, means]), "expand")
        # categorical
        rec.begin({"head": "softmax", "logits": means})
        rec.step()
        dist = pfrl.policies.SoftmaxCategoricalHead()(T(means))
        rec.check(close(np_(dist.probs), [softmax(m) for m in means]), "probabilities")
        for a in range(d):
            rec.check(close(np_(dist.log_prob(torch.full((B,), a))), [math.log(softmax(m)[a]) for m in means], 1e-4), "log_prob")
        mode = np_(mode_of_distribution(dist))
        rec.check(all(m[int(a)] == max(m) for m, a in zip(means, mode)), "mode %r of %r" % (mode, means))
        # modes of composed distributions
        base = torch.distributions.Normal(T(means), 0.5)
        tr = [torch.distributions.transforms.AffineTransform(0.5, 2.0), torch.distributions.transforms.TanhTransform()]
        td = torch.distributions.TransformedDistribution(base, tr)
        want = np.tanh(np.array(means) * 2 + 0.5)
        for q in (td, torch.distributions.Independent(td, 1), torch.distributions.TransformedDistribution(torch.distributions.Independent(base, 1), tr)):
            rec.begin({"mode_of": str(q), "mean": means})
            rec.check(close(np_(mode_of_distribution(q)), want), "mode of transformed distribution %r" % (mode_of_distribution(q),))
        mvn = torch.distributions.MultivariateNormal(T(means), torch.eye(d))
        rec.check(close(np_(mode_of_distribution(mvn)), means), "mode of MultivariateNormal")
    rec.begin({"mode_of": "unsupported"})
    try:
        mode_of_distribution(torch.distributions.Gamma(T([1.0]), T([1.0])))
        rec.fail("mode of an unsupported distribution")
    except RuntimeError:
        pass


def unit_funcs(rec):
    import torch

    import pfrl
    from pfrl.functions.bound_by_tanh import bound_by_tanh
    from pfrl.functions.lower_triangular_matrix import lower_triangular_matrix
    from pfrl.q_functions.state_q_functions import scale_by_tanh

    for d in (1, 2, 3):
        for lo, hi in (([-1.0] * d, [1.0] * d), ([-1.0, 0.5, -3.0][:d], [0.5, 0.75, 4.0][:d]), ([0.0] * d, [10.0] * d)):
            lo, hi = np.array(lo, dtype=np.float32), np.array(hi, dtype=np.float32)
            xs = [list(x) for x in itertools.product((-50.0, -1.0, 0.0, 0.3, 50.0), repeat=d)]
            rec.begin({"bound_by_tanh": (lo.tolist(), hi.tolist())})
            rec.step()
            x = torch.tensor(xs)
            want = np.tanh(np.array(xs)) * (hi - lo) / 2 + (hi + lo) / 2
            for name, y in (("bound_by_tanh", bound_by_tanh(x, lo, hi)), ("BoundByTanh", pfrl.nn.BoundByTanh(lo, hi)(x)), ("scale_by_tanh", scale_by_tanh(x, lo, hi))):
                y = np_(y)
                rec.check(close(y, want), "%s: %r instead of %r" % (name, y[0], want[0]))
                rec.check((y >= lo - 1e-6).all() and (y <= hi + 1e-6).all(), "%s leaves the bounds" % name)
            rec.check(torch.equal(x, torch.tensor(xs)), "input modified")
            rec.state((d, lo.tolist(), hi.tolist()))
            rec.outcome(want[0].tolist())
    for n in (1, 2, 3, 4):
        k = n * (n - 1) // 2
        for B in (1, 2):
            diag = torch.arange(1.0, B * n + 1).reshape(B, n).requires_grad_()
            non = (-torch.arange(1.0, B * k + 1).reshape(B, k)).requires_grad_()
            rec.begin({"lower_triangular_matrix": n, "batch": B})
            rec.step()
            y = lower_triangular_matrix(diag, non)
            want = np.zeros((B, n, n))
            for b in range(B):
                it = iter(np_(non)[b])
                for i in range(n):
                    want[b, i, i] = np_(diag)[b, i]
                    for j in range(i):
                        want[b, i, j] = next(it)
            rec.check(close(np_(y), want), "matrix %r instead of %r" % (y, want))
            g = torch.autograd.grad(y.sum(), [diag] + ([non] if k else []))
            rec.check(all(bool((x == 1).all()) for x in g), "gradient of the matrix entries")
            rec.outcome(want.tolist())


def units(tier):
    T = tier == "thorough"
    v4 = (-1.0, 0.0, 0.5, 3.0)
    v5 = v4 + (-7.5,)
    us = []
    shapes = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3)] + ([(3, 2)] if T else [])
    for B, A in shapes:
        us.append(("discrete-%dx%d" % (B, A), unit_discrete, B, A, v5 if T and B * A <= 4 else v4 if B * A < 6 else v4[:3] if not T else v4[:3]))
    for B, A, Z, k in [(1, 2, 2, 4), (1, 2, 3, 2), (2, 1, 3, 2), (2, 2, 2, 2)] + ([(2, 2, 3, 2), (1, 3, 3, 3)] if T else [(1, 3, 2, 2)]):
        us.append(("distributional-%d-%d-%d" % (B, A, Z), unit_dist, B, A, Z, k))
    for B, A, N in [(1, 2, 1), (1, 2, 2), (2, 2, 1), (1, 2, 3), (2, 1, 2)] + ([(1, 3, 2), (2, 2, 2)] if T else []):
        us.append(("quantile-%d-%d-%d" % (B, A, N), unit_quant, B, A, N, (-1.0, 0.5, 2.0)))
    us += [("quadratic-%d" % d, unit_quadratic, d) for d in ((1, 2, 3) if T else (1, 2))]
    us += [("quadnet-%d" % d, unit_quadnet, d) for d in (1, 2, 3)]
    us += [("single", unit_single), ("funcs", unit_funcs)]
    us += [("heads-%d" % d, unit_heads, d) for d in (1, 2, 3)]
    return us
