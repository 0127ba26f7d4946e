"""P24  normalization statistics, parameter copies, optimizers and other tools are exact.

All operation sequences up to a depth on EmpiricalNormalization against running
moments in double precision; all copies between two networks in all states; all
RMSprop configurations x gradient sequences; all small systems for conjugate
gradient; all episode scripts for the environment modifiers.
"""
import itertools
import math
import random

import numpy as np

RULE = "one case per (operation sequence / configuration / script); non-trivial outcomes = distinct results"
BOUNDS = {
    "quick": "EmpiricalNormalization: all sequences of 3 of 11 operations (batches of 0-3 rows, forward with and without update, inverse, load, copy, soft copy, deepcopy) x 6 configurations; RMSprop: 32 configurations x all sequences of 3 gradients over 4 values; copies: all pairs of 4 network kinds x tau in {0,.25,.5,1}; conjugate gradient: all right-hand sides over {-1,0,2} for 7 matrices of dimension 1-3; env modifiers: all scripts of 4 raw steps with 3 kinds of step",
    "thorough": "sequences of 4 operations, 4 gradients, scripts of 6 steps",
}
ASSUMPTIONS = ["float32 tolerance 1e-4 relative (statistics)", "float64 tolerance 1e-9 (optimizers, conjugate gradient)"]


def close(a, b, tol=1e-4):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool((np.abs(a - b) <= tol * (1 + np.abs(b))).all())


def np_(t):
    return t.detach().cpu().numpy().astype(float)


# --------------------------------------------------------------- normalization

BATCHES = {"b0": [], "b1": [[3.0, -1.0]], "b2": [[0.5, 2.0], [-4.0, 2.0]], "b3": [[1.0, 10.0], [2.0, -10.0], [3.0, 0.0]]}
PROBE = [[0.25, -3.0], [7.0, 1.0]]


class Moments:
    def __init__(self, d):
        self.n, self.mean, self.var = 0, np.zeros(d), np.ones(d)

    def learn(self, rows, until):
        if (until is not None and self.n >= until) or not len(rows):
            return
        x = np.array(rows)
        k = len(rows)
        m2 = (self.n * (self.var + self.mean**2) if self.n else 0) + (x**2).sum(0)
        m1 = (self.n * self.mean if self.n else 0) + x.sum(0)
        self.n += k
        self.mean = m1 / self.n
        self.var = m2 / self.n - self.mean**2

    def copy(self):
        o = Moments(len(self.mean))
        o.n, o.mean, o.var = self.n, self.mean.copy(), self.var.copy()
        return o


OPS = ["exp:b0", "exp:b1", "exp:b2", "exp:b3", "fwd:b1", "fwd:b3", "fwdn:b2", "inv", "load", "soft", "copy"]


def unit_norm(rec, cfg, depth):
    import copy
    import torch

    import pfrl
    from pfrl.utils.copy_param import copy_param, soft_copy_param

    until, clip, eps, axis, dtype = cfg
    td = torch.float64 if dtype == np.float64 else torch.float32

    def arr(rows):
        t = torch.tensor(rows, dtype=td).reshape(-1, 2)
        return t if axis == 0 else t.t().contiguous()

    def mk():
        return pfrl.nn.EmpiricalNormalization(2, batch_axis=axis, eps=eps, dtype=dtype, until=until, clip_threshold=clip)

    def want(mo, rows):
        y = (np.array(rows, dtype=float).reshape(-1, 2) - mo.mean) / np.sqrt(mo.var + eps)
        if clip is not None:
            y = np.clip(y, -clip, clip)
        return y if axis == 0 else y.T

    def look(net, mo, hist):
        rec.check(close(np_(net.mean), mo.mean), "mean %r instead of %r after %r" % (np_(net.mean), mo.mean, hist))
        rec.check(close(np_(net.std), np.sqrt(mo.var)), "std %r instead of %r after %r" % (np_(net.std), np.sqrt(mo.var), hist))
        rec.check(int(net.count) == mo.n, "count %d instead of %d after %r" % (int(net.count), mo.n, hist))
        x = arr(PROBE).requires_grad_()
        y = net(x, update=False)
        rec.check(close(np_(y), want(mo, PROBE), 1e-3), "forward %r instead of %r after %r" % (np_(y), want(mo, PROBE), hist))
        if clip is None:
            back = net.inverse(y)
            rec.check(close(np_(back), np_(x), 1e-3), "inverse does not undo forward after %r" % (hist,))
            (g,) = torch.autograd.grad(y.sum(), x)
            wg = np.tile(1 / np.sqrt(mo.var + eps), (2, 1))
            rec.check(close(np_(g), wg if axis == 0 else wg.T, 1e-3), "gradient w.r.t. the input")

    other0 = mk()
    omo0 = Moments(2)
    with torch.no_grad():
        other0.experience(arr([[100.0, 0.0], [101.0, 5.0], [90.0, -5.0], [0.0, 0.0]]))
        omo0.learn([[100.0, 0.0], [101.0, 5.0], [90.0, -5.0], [0.0, 0.0]], until)
        other0(arr(PROBE), update=False)

    for seq in itertools.product(OPS, repeat=depth):
        rec.begin({"cfg": repr(cfg), "ops": seq})
        net, mo = mk(), Moments(2)
        for i, op in enumerate(seq):
            rec.step()
            k, _, b = op.partition(":")
            if k == "exp":
                x = arr(BATCHES[b])
                net.experience(x)
                mo.learn(BATCHES[b], until)
                rec.check(torch.equal(x, arr(BATCHES[b])), "input modified")
            elif k == "fwd":
                mo.learn(BATCHES[b], until)
                y = net(arr(BATCHES[b]))
                rec.check(close(np_(y), want(mo, BATCHES[b]), 1e-3), "forward %r instead of %r after %r" % (np_(y), want(mo, BATCHES[b]), seq[: i + 1]))
            elif k == "fwdn":
                y = net(arr(BATCHES[b]), update=False)
                rec.check(close(np_(y), want(mo, BATCHES[b]), 1e-3), "forward without update %r instead of %r after %r" % (np_(y), want(mo, BATCHES[b]), seq[: i + 1]))
            elif k == "inv":
                y = net.inverse(arr(PROBE))
                w = np.array(PROBE) * np.sqrt(mo.var + eps) + mo.mean
                rec.check(close(np_(y), w if axis == 0 else w.T, 1e-3), "inverse after %r" % (seq[: i + 1],))
            elif k == "load":
                copy_param(net, other0)
                mo = omo0.copy()
            elif k == "soft":
                soft_copy_param(net, other0, 0.25)
                mo.mean = 0.75 * mo.mean + 0.25 * omo0.mean
                mo.var = 0.75 * mo.var + 0.25 * omo0.var
                mo.n = omo0.n
            elif k == "copy":
                old, omo = net, mo
                net, mo = copy.deepcopy(net), mo.copy()
                net.experience(arr(BATCHES["b2"]))
                mo.learn(BATCHES["b2"], until)
                look(old, omo, seq[: i + 1] + ("original",))
        look(net, mo, seq)
        rec.state((seq, round(float(mo.mean[0]), 6), mo.n))
        rec.outcome((round(float(mo.mean[0]), 4), round(float(mo.var[1]), 4), mo.n))
    rec.begin({"cfg": repr(cfg), "source": "unchanged"})
    look(other0, omo0, "source of the copies")


# ---------------------------------------------------------------------- copies


def nets():
    import torch
    import torch.nn as nn

    def lin():
        return nn.Linear(2, 2)

    def bn():
        m = nn.Sequential(nn.Linear(2, 3), nn.BatchNorm1d(3), nn.Linear(3, 1, bias=False))
        m(torch.randn(4, 2))
        return m

    def frozen():
        m = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 2))
        m[0].weight.requires_grad_(False)
        return m

    def dbl():
        return nn.Linear(2, 2).double()

    return {"lin": lin, "bn": bn, "frozen": frozen, "double": dbl}


def unit_copy(rec):
    import torch

    from pfrl.utils import copy_param as C

    for name, mk in nets().items():
        for method, tau in [("copy", None), ("hard", None), ("hard", 0.3)] + [(k, t) for k in ("softcopy", "soft") for t in (0.0, 0.25, 0.5, 1.0)]:
            for repeat in (1, 2):
                rec.begin({"net": name, "method": method, "tau": tau, "repeat": repeat})
                rec.step()
                torch.manual_seed(5)
                src, dst = mk(), mk()
                if name == "bn":
                    src(torch.randn(6, 2) * 3)
                s0 = {k: v.clone() for k, v in src.state_dict().items()}
                w = {k: v.clone().double() for k, v in dst.state_dict().items()}
                ids = [id(p) for p in dst.parameters()]
                req = [p.requires_grad for p in dst.parameters()]
                for _ in range(repeat):
                    if method == "copy":
                        C.copy_param(target_link=dst, source_link=src)
                    elif method == "softcopy":
                        C.soft_copy_param(target_link=dst, source_link=src, tau=tau)
                    else:
                        C.synchronize_parameters(src=src, dst=dst, method=method, tau=tau)
                    t = 1.0 if method in ("copy", "hard") else tau
                    for k in w:
                        w[k] = (1 - t) * w[k] + t * s0[k].double() if s0[k].is_floating_point() else s0[k].double()
                for k, v in dst.state_dict().items():
                    rec.check(close(np_(v), np_(w[k]), 1e-5), "%s after %s(tau=%r): %r instead of %r" % (k, method, tau, np_(v), np_(w[k])))
                    rec.check(v.dtype == s0[k].dtype, "dtype of %s changed" % k)
                rec.check(all(torch.equal(v, s0[k]) for k, v in src.state_dict().items()), "the source was modified")
                rec.check([id(p) for p in dst.parameters()] == ids and [p.requires_grad for p in dst.parameters()] == req, "parameters were replaced")
                with torch.no_grad():
                    for v in src.state_dict().values():
                        v.add_(1)
                rec.check(all(close(np_(v), np_(w[k]), 1e-5) for k, v in dst.state_dict().items()), "the target aliases the source")
                rec.state((name, method, tau, repeat))
                rec.outcome((name, round(float(next(dst.parameters()).flatten()[0]), 5)))
        # gradients: every pattern of missing gradients on both sides
        n = len(list(mk().parameters()))
        for ps in itertools.product((0, 1), repeat=n):
            for pt in itertools.product((0, 1), repeat=n):
                rec.begin({"net": name, "copy_grad": (ps, pt)})
                rec.step()
                src, dst = mk(), mk()
                for i, (p, q) in enumerate(zip(src.parameters(), dst.parameters())):
                    p.grad = torch.full_like(p, 1.0 + i) if ps[i] else None
                    q.grad = torch.full_like(q, -5.0 - i) if pt[i] else None
                before = {k: v.clone() for k, v in dst.state_dict().items()}
                C.copy_grad(target_link=dst, source_link=src)
                for i, (p, q) in enumerate(zip(src.parameters(), dst.parameters())):
                    if ps[i]:
                        if rec.check(q.grad is not None and bool((q.grad == 1.0 + i).all()), "gradient %d not copied" % i):
                            p.grad.add_(7)
                            rec.check(bool((q.grad == 1.0 + i).all()), "gradient %d aliases the source" % i)
                    else:
                        rec.check(q.grad is None, "gradient %d should be None" % i)
                rec.check(all(torch.equal(v, before[k]) for k, v in dst.state_dict().items()), "copy_grad changed parameters")


# ------------------------------------------------------------------- optimizer


def unit_rms(rec, shared, depth):
    import torch

    from pfrl.optimizers import RMSpropEpsInsideSqrt, SharedRMSpropEpsInsideSqrt

    cls = SharedRMSpropEpsInsideSqrt if shared else RMSpropEpsInsideSqrt
    G = (0.0, 1.0, -0.5, None)
    for lr, alpha, eps, mom, cen, wd in itertools.product((0.1,), (0.9, 0.5), (1e-2, 1.0), (0.0, 0.9), (False, True), (0.0, 0.3)):
        for gs in itertools.product(G, repeat=depth):
            rec.begin({"cfg": (lr, alpha, eps, mom, cen, wd), "grads": gs, "shared": shared})
            p = torch.tensor([1.0, -2.0], dtype=torch.float64, requires_grad=True)
            q = torch.tensor([0.5], dtype=torch.float64, requires_grad=True)
            opt = cls([{"params": [p]}, {"params": [q], "lr": lr / 2}], lr=lr, alpha=alpha, eps=eps, momentum=mom, centered=cen, weight_decay=wd)
            st = [[1.0, -2.0], [0.5]]
            sq = [[0.0, 0.0], [0.0]]
            av = [[0.0, 0.0], [0.0]]
            mb = [[0.0, 0.0], [0.0]]
            for i, g in enumerate(gs):
                rec.step()
                if i == 1:  # a state dict round trip changes nothing
                    import copy

                    sd = copy.deepcopy(opt.state_dict())
                    opt = cls([{"params": [p]}, {"params": [q], "lr": lr / 2}], lr=lr, alpha=alpha, eps=eps, momentum=mom, centered=cen, weight_decay=wd)
                    opt.load_state_dict(sd)
                p.grad = None if g is None else torch.tensor([g, 2 * g], dtype=torch.float64)
                q.grad = torch.tensor([1.0 - i], dtype=torch.float64)
                calls = []
                if i % 2:

                    def closure():
                        calls.append(1)
                        return 42

                    rec.check(opt.step(closure) == 42 and len(calls) == 1, "closure")
                else:
                    opt.step()
                for j, grads in enumerate([None if g is None else [g, 2 * g], [1.0 - i]]):
                    if grads is None:
                        continue
                    for k, gr in enumerate(grads):
                        gr = gr + wd * st[j][k]
                        sq[j][k] = alpha * sq[j][k] + (1 - alpha) * gr * gr
                        v = sq[j][k]
                        if cen:
                            av[j][k] = alpha * av[j][k] + (1 - alpha) * gr
                            v = v - av[j][k] ** 2
                        d = gr / math.sqrt(v + eps)
                        if mom > 0:
                            mb[j][k] = mom * mb[j][k] + d
                            d = mb[j][k]
                        st[j][k] -= (lr if j == 0 else lr / 2) * d
                rec.check(close(np_(p), st[0], 1e-8) and close(np_(q), st[1], 1e-8), "step %d: parameters %r %r instead of %r" % (i, np_(p), np_(q), st))
            rec.state((alpha, eps, mom, cen, wd, gs))
            rec.outcome(tuple(round(x, 6) for x in st[0]))
    rec.begin({"shared": shared, "eager": True})
    p = torch.tensor([1.0], requires_grad=True)
    opt = cls([p], lr=0.1, momentum=0.5, centered=True)
    if shared:
        need = {"square_avg", "momentum_buffer", "grad_avg"}
        rec.check(need <= set(opt.state[p]), "state of the shared optimizer is not allocated eagerly: %r" % (list(opt.state[p]),))


def unit_clip(rec):
    import torch

    from pfrl.utils import clip_l2_grad_norm_

    vals = (None, (0.0, 0.0), (3.0, 4.0), (-0.3, 0.4), (30.0, -40.0))
    for gs in itertools.product(vals, repeat=3):
        for mx in (0.1, 0.5, 5, 7.0, 1e9):
            for form in ("list", "gen", "tensor"):
                if form == "tensor" and gs[1:] != (None, None):
                    continue
                rec.begin({"grads": gs, "max_norm": mx, "form": form})
                rec.step()
                ps = []
                for g in gs:
                    p = torch.zeros(2, dtype=torch.float64, requires_grad=True)
                    p.grad = None if g is None else torch.tensor(g, dtype=torch.float64)
                    ps.append(p)
                arg = ps if form == "list" else (x for x in ps) if form == "gen" else ps[0]
                r = clip_l2_grad_norm_(arg, mx)
                total = math.sqrt(sum(a * a for g in gs if g for a in g))
                rec.check(abs(float(r) - total) < 1e-6 * (1 + total), "norm %r instead of %r" % (r, total))
                f = min(1.0, mx / (total + 1e-6))
                for p, g in zip(ps, gs):
                    if g is None:
                        rec.check(p.grad is None, "a gradient appeared")
                    else:
                        rec.check(close(np_(p.grad), np.array(g) * f, 1e-6), "gradient %r instead of %r" % (np_(p.grad), np.array(g) * f))
                rec.outcome((gs, mx))
                rec.state((gs, mx))
    rec.begin({"grads": "none"})
    rec.check(clip_l2_grad_norm_([], 1.0) == 0, "no parameters")


def unit_cg(rec):
    import torch

    from pfrl.utils import conjugate_gradient

    mats = [[[2.0]], [[0.25]], [[1.0, 0.0], [0.0, 1.0]], [[2.0, 1.0], [1.0, 3.0]], [[5.0, -2.0], [-2.0, 1.0]], [[4.0, 1.0, 0.0], [1.0, 3.0, -1.0], [0.0, -1.0, 2.0]], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 9.0]]]
    for A in mats:
        n = len(A)
        M = torch.tensor(A, dtype=torch.float64)
        for b in itertools.product((-1.0, 0.0, 2.0), repeat=n):
            for mi in (None, 1, 2, 3):
                rec.begin({"A": A, "b": b, "max_iter": mi})
                rec.step()
                bt = torch.tensor(b, dtype=torch.float64)
                kw = {} if mi is None else {"max_iter": mi}
                x = conjugate_gradient(lambda v: M @ v, bt, **kw)
                exact = np.linalg.solve(np.array(A), np.array(b))
                # reference iterates
                xs, r, p = np.zeros(n), np.array(b), np.array(b)
                for _ in range(10 if mi is None else mi):
                    if np.linalg.norm(r) < 1e-10:
                        break
                    Ap = np.array(A) @ p
                    a = r @ r / (p @ Ap)
                    xs = xs + a * p
                    r2 = r - a * Ap
                    p = r2 + (r2 @ r2) / (r @ r) * p
                    r = r2
                rec.check(close(np_(x), xs, 1e-7), "x = %r instead of %r" % (np_(x), xs))
                if mi is None or mi >= n:
                    rec.check(close(np_(x), exact, 1e-7), "x = %r does not solve the system (%r)" % (np_(x), exact))
                rec.check(bt.tolist() == list(b), "b modified")
                rec.state((str(A), b, mi))
                rec.outcome(tuple(round(float(v), 6) for v in x))
        for tol in (1e-3, 10.0):
            rec.begin({"A": A, "tol": tol})
            bt = torch.ones(n, dtype=torch.float64)
            x = conjugate_gradient(lambda v: M @ v, bt, tol=tol)
            res = float(torch.linalg.norm(M @ x - bt))
            rec.check(res < tol, "residual %r above the tolerance %r" % (res, tol))


# ----------------------------------------------------------------------- tools


def unit_tools(rec):
    import torch
    import torch.nn as nn

    import pfrl
    from pfrl.experiments.hooks import LinearInterpolationHook
    from pfrl.utils import batch_states
    from pfrl.utils.contexts import evaluating
    from pfrl.utils.reward_filter import AverageRewardFilter, NormalizedRewardFilter

    # seeds
    def draws():
        return (random.random(), random.randrange(10**9), float(np.random.rand()), int(np.random.randint(10**9)), float(torch.rand(1)), float(torch.randn(1)))

    seen = {}
    for order in itertools.permutations((0, 1, 7, 2**31, 2**32 - 1), 3):
        for s in order:
            for ty in (int, np.int64):
                rec.begin({"seed": s, "type": ty.__name__, "order": order})
                rec.step()
                pfrl.utils.set_random_seed(ty(s))
                d = draws()
                seen.setdefault(s, d)
                rec.check(d == seen[s], "the draws after set_random_seed(%r) depend on what happened before" % s)
    rec.begin({"seed": "distinct"})
    for i in range(6):
        rec.check(len({d[i] for d in seen.values()}) == len(seen), "different seeds give the same draws (source %d)" % i)

    # evaluating(): all mode patterns, nested, exceptions
    for modes in itertools.product((True, False), repeat=4):
        for raises in (False, True):
            for nested in (False, True):
                rec.begin({"evaluating": modes, "raises": raises, "nested": nested})
                rec.step()
                m = nn.Sequential(nn.Linear(1, 1), nn.Sequential(nn.Dropout()))
                mods = list(m.modules())
                for x, v in zip(mods, modes):
                    x.training = v

                class Boom(Exception):
                    pass

                try:
                    with evaluating(m) as y:
                        rec.check(y is None or y is m, "yields something else")
                        rec.check(not any(x.training for x in mods), "not in evaluation mode")
                        if nested:
                            with evaluating(m[1]):
                                rec.check(not any(x.training for x in mods), "not in evaluation mode (nested)")
                            rec.check(not any(x.training for x in mods), "not in evaluation mode after the nested context")
                        if raises:
                            raise Boom()
                except Boom:
                    rec.check(raises, "unexpected exception")
                rec.check([x.training for x in mods] == list(modes), "modes %r instead of %r" % ([x.training for x in mods], modes))
                rec.state((modes, raises, nested))

    # batch_states
    cpu = torch.device("cpu")
    mk = {
        "array": lambda i: np.array([i, -i], dtype=np.float32),
        "image": lambda i: np.full((2, 3), i, dtype=np.uint8),
        "tuple": lambda i: (np.array([i], dtype=np.float32), np.array([[i, i + 1]], dtype=np.int64)),
        "list": lambda i: [np.array([i], dtype=np.float32), np.array([i + 0.5], dtype=np.float64)],
        "int": lambda i: i,
        "tensor": lambda i: torch.tensor([float(i)]),
    }
    for kind, f in mk.items():
        for n in (1, 2, 3):
            for pk, phi in (("id", lambda x: x), ("phi", None)):
                rec.begin({"batch_states": kind, "n": n, "phi": pk})
                rec.step()
                calls = []

                def phi2(x):
                    calls.append(x)
                    return np.array([len(calls)], dtype=np.float32)

                st = [f(i + 1) for i in range(n)]
                b = batch_states(st, cpu, phi or phi2)
                if pk == "phi":
                    rec.check(len(calls) == n and all(a is c for a, c in zip(calls, st)), "phi is not applied once per state in order")
                    rec.check(b.tolist() == [[float(k + 1)] for k in range(n)], "features %r" % (b,))
                    continue
                parts = list(zip(*st)) if kind in ("tuple", "list") else [st]
                got = b if kind in ("tuple", "list") else [b]
                rec.check(type(b) is {"tuple": tuple, "list": list}.get(kind, torch.Tensor), "type %s" % type(b).__name__)
                rec.check(len(got) == len(parts), "number of parts")
                for g, p in zip(got, parts):
                    w = np.stack([np.asarray(v) for v in p])
                    rec.check(g.shape == torch.Size(w.shape) and (g.numpy() == w).all() and (kind == "int" or g.numpy().dtype == w.dtype), "batched %r instead of %r" % (g, w))

    # hooks
    for total, a, b in itertools.product((1, 2, 5), (0.0, 1.0, -2.0), (0.0, 1.0, 3.0)):
        h = LinearInterpolationHook(total, a, b, lambda env, agent, v: out.append((env, agent, v)))
        for step in (1, 2, 3, 4, 5, 6, 100):
            rec.begin({"interpolation": (total, a, b), "step": step})
            rec.step()
            out = []
            h("e", "a", step)
            if total == 1:
                w = b if step > 1 else None
            else:
                w = a + (b - a) * min(1.0, (step - 1) / (total - 1))
            rec.check(len(out) == 1 and out[0][:2] == ("e", "a"), "setter called with %r" % (out,))
            rec.check(w is None or abs(out[0][2] - w) < 1e-9, "value %r instead of %r" % (out, w))

    # reward filters
    for tau in (1e-3, 0.5, 1.0):
        for rs in itertools.product((0.0, 1.0, -3.0), repeat=4):
            rec.begin({"reward_filter": tau, "rewards": rs})
            rec.step()
            f, g = AverageRewardFilter(tau), NormalizedRewardFilter(tau, scale=2.0, eps=0.1)
            m = m2 = 0.0
            for r in rs:
                m = (1 - tau) * m + tau * r
                m2 = (1 - tau) * m2 + tau * r * r
                rec.check(abs(f(r) - (r - m)) < 1e-9, "average filter")
                w = 2.0 * (r - m) / math.sqrt(max(m2 - m * m, 0.1))
                v = g(r)
                rec.check(abs(v - w) < 1e-7, "normalized filter: %r instead of %r" % (v, w))
            rec.outcome((tau, round(m, 5)))


class Raw:
    """Scripted environment; kinds: 'c' continue, 'd' done, 'n' needs_reset."""

    def __init__(self, script):
        self.script, self.log, self.t, self.ep, self.over = script, [], 0, -1, True

    def reset(self):
        self.ep += 1
        self.over = False
        self.log.append(("reset",))
        return ("obs", self.ep, self.t)

    def step(self, action):
        k = self.script[self.t % len(self.script)]
        self.t += 1
        self.log.append(("step", action, self.over))
        if k != "c":
            self.over = True
        return ("obs", self.ep, self.t), float(self.t), k == "d", ({"needs_reset": True} if k == "n" else {})

    def render(self, *a, **k):
        self.log.append(("render", a, tuple(sorted(k.items()))))

    def close(self):
        self.log.append(("close",))


def unit_modifiers(rec, depth):
    from pfrl.utils import env_modifiers as E

    for script in itertools.product("cdn", repeat=depth):
        for rep in (1, 2, 3):
            rec.begin({"script": script, "action_repeated": rep})
            env = Raw(script)
            E.make_action_repeated(env, rep)
            env.reset()
            for a in range(depth):
                rec.step()
                t0 = env.t
                obs, r, done, info = env.step(a)
                seq = [script[i % depth] for i in range(t0, t0 + rep)]
                n = next((i + 1 for i, k in enumerate(seq) if k != "c"), rep)
                rec.check(env.t - t0 == n, "%d raw steps instead of %d" % (env.t - t0, n))
                rec.check(r == sum(range(t0 + 1, t0 + n + 1)), "reward %r" % r)
                rec.check(obs == ("obs", env.ep, t0 + n) and done == (seq[n - 1] == "d") and bool(info.get("needs_reset")) == (seq[n - 1] == "n"), "last observation, done, info")
                if done or info.get("needs_reset"):
                    env.reset()
            rec.check(not any(e[0] == "step" and e[2] for e in env.log), "step after the end of an episode")
            rec.state((script, rep))
            rec.outcome(env.t)
        for lim in (1, 2, 3):
            rec.begin({"script": script, "timestep_limited": lim})
            env = Raw(script)
            E.make_timestep_limited(env, lim)
            env.reset()
            k = 0
            for a in range(depth):
                rec.step()
                kind = script[a]
                obs, r, done, info = env.step(a)
                k += 1
                rec.check((obs, r) == (("obs", env.ep, a + 1), float(a + 1)), "observation or reward changed")
                rec.check(bool(done) == (kind == "d" or k >= lim), "done=%r at step %d of the episode (limit %d, kind %s)" % (done, k, lim, kind))
                if done or info.get("needs_reset"):
                    env.reset()
                    k = 0
            rec.state((script, "lim", lim))
        rec.begin({"script": script, "filters": 1})
        env = Raw(script)
        E.make_reward_filtered(env, lambda r: r * 10)
        E.make_action_filtered(env, lambda a: -a)
        E.make_reward_clipped(env, 15, 25)
        env.reset()
        for a in range(depth):
            rec.step()
            obs, r, done, info = env.step(a)
            rec.check(r == min(25, max(15, 10 * (a + 1))), "filtered reward %r" % r)
            rec.check(env.log[-1][1] == -a, "filtered action %r" % (env.log[-1],))
            rec.check(obs[2] == a + 1 and done == (script[a] == "d") and bool(info.get("needs_reset")) == (script[a] == "n"), "observation, done or info changed")
        rec.begin({"script": script, "rendered": 1})
        env = Raw(script)
        E.make_rendered(env, "human", x=1)
        env.reset()
        for a in range(depth):
            res = env.step(a)
            rec.check(res[1] == a + 1 and env.log[-2][0] == "step" and env.log[-1] == ("render", ("human",), (("x", 1),)), "step is not rendered once")
        env.close()
        rec.check([e[0] for e in env.log[-2:]] == ["render", "close"], "close")


def unit_processes(rec):
    """run_async: every combination of exit statuses of two processes."""
    import os
    import signal
    import tempfile
    import shutil
    import time
    import warnings

    from pfrl.utils import async_

    d = tempfile.mkdtemp(prefix="p24_")
    try:
        for codes in itertools.product((0, 3, -9), repeat=2):
            rec.begin({"exit": codes})
            rec.step()
            tag = os.path.join(d, "%d_%d" % codes)

            def f(idx):
                open(tag + ".%d" % idx, "w").close()
                c = codes[idx]
                if c < 0:
                    os.kill(os.getpid(), -c)
                os._exit(c)

            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                async_.run_async(2, f)
            ws = [w for w in ws if issubclass(w.category, async_.AbnormalExitWarning)]
            rec.check(all(os.path.exists(tag + ".%d" % i) for i in (0, 1)), "run_func was not run for every process index")
            rec.check(len(ws) == sum(c != 0 for c in codes), "%d warnings for exit statuses %r" % (len(ws), codes))
            for w, (i, c) in zip(ws, [(i, c) for i, c in enumerate(codes) if c]):
                rec.check("#%d" % i in str(w.message) and str(abs(c)) in str(w.message), "warning %r for process %d with status %d" % (str(w.message), i, c))
            rec.outcome(codes)
            rec.state(codes)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def unit_ask(rec):
    """ask_yes_no asks until it gets an answer; the replay buffer is saved to
    <t><suffix>.replay.pkl only after a yes."""
    import builtins
    import os
    import shutil
    import tempfile

    import importlib

    TA = importlib.import_module("pfrl.experiments.train_agent")
    from pfrl.utils.ask_yes_no import ask_yes_no

    yes, no, other = ("y", "Y", "ye", "yes", "YES"), ("n", "N", "no", "No"), ("", "x", "maybe", "yep", "none")
    real = builtins.input

    class Agent(object):
        pass

    class Buf(object):
        def __init__(self):
            self.saved = []

        def __len__(self):
            return 7

        def save(self, f):
            self.saved.append(f)
            open(f, "w").close()

    d = tempfile.mkdtemp(prefix="p24_")
    try:
        for pre in [()] + [(x,) for x in other] + [(x, y) for x in other for y in other]:
            for ans in yes + no:
                rec.begin({"answers": pre + (ans,)})
                rec.step()
                asked = []
                script = list(pre + (ans,))

                def inp(q=""):
                    asked.append(q)
                    return script.pop(0)

                builtins.input = inp
                try:
                    got = ask_yes_no("sure?")
                finally:
                    builtins.input = real
                rec.eq((bool(got), len(asked), len(script)), (ans in yes, len(pre) + 1, 0), "answer, questions asked, unused answers")
                rec.check(all("sure?" in q for q in asked), "question")
                rec.outcome((pre, ans))
                ag = Agent()
                ag.replay_buffer = Buf()
                script[:] = list(pre + (ans,))
                builtins.input = inp
                try:
                    TA.ask_and_save_agent_replay_buffer(ag, 12, d, suffix="_x")
                    rec.eq(ag.replay_buffer.saved, [os.path.join(d, "12_x.replay.pkl")] if ans in yes else [], "saved replay buffer")
                    TA.ask_and_save_agent_replay_buffer(Agent(), 12, d)  # nothing to save, nothing to ask
                finally:
                    builtins.input = real
        ag.replay_buffer = Buf()
        for t, suf in itertools.product((0, 5, 100), ("", "_finish")):
            rec.begin({"save": [t, suf]})
            TA.save_agent_replay_buffer(ag, t, d, suffix=suf)
            rec.eq(ag.replay_buffer.saved[-1], os.path.join(d, "%d%s.replay.pkl" % (t, suf)), "saved replay buffer")
    finally:
        builtins.input = real
        shutil.rmtree(d, ignore_errors=True)


def units(tier):
    Th = tier == "thorough"
    cfgs = [(None, None, 1e-2, 0, np.float32), (3, None, 1e-2, 0, np.float32), (None, 0.5, 1e-2, 0, np.float64), (2, 1.5, 1.0, 0, np.float64), (None, None, 1e-2, 1, np.float64), (1, None, 0.1, 1, np.float32)]
    us = [("norm-%d" % i, unit_norm, c, 4 if Th else 3) for i, c in enumerate(cfgs)]
    us += [("copy", unit_copy)]
    us += [("rms", unit_rms, False, 4 if Th else 3), ("rms-shared", unit_rms, True, 4 if Th else 3)]
    us += [("clip", unit_clip), ("cg", unit_cg), ("tools", unit_tools), ("ask", unit_ask), ("modifiers", unit_modifiers, 6 if Th else 4), ("processes", unit_processes)]
    return us
