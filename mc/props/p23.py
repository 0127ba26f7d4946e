"""P23  the provided networks compute the documented functions.

All configurations of the network classes within bounds, run on all batches of a
small alphabet and compared (values and gradients of every parameter) with a
functional re-evaluation from the state dict; noisy layers with every pattern
of noise from a small alphabet; every module tree up to a size for the
conversion to noisy networks.
"""
import itertools
import math

import numpy as np

RULE = "one case per (network configuration, batch / noise pattern / module tree); non-trivial outcomes = distinct outputs"
BOUNDS = {
    "quick": "MLP/MLPBN/state-action Q-functions: all sizes in {1,2,3}^2, 0-3 hidden layers, 2 nonlinearities, batches of 1-3 rows, train and eval mode; FactorizedNoisyLinear 1-3 x 1-3 with all noise patterns over {-4,-1,0,1}; all module trees of depth <=2 with up to 3 leaves; Atari CNNs and dueling networks with 1-5 channels, 1-4 actions, 2-3 atoms; IQN functions with all batches of 1-3 rows and 1-3 thresholds",
    "thorough": "sizes to 4, 4 hidden layers, noise over 6 values, trees with up to 4 leaves",
}
ASSUMPTIONS = [
    "the state dict names parameters as in saved models (hidden_layers.i, output, a_stream, ...)",
    "batch normalization itself (torch) is trusted",
    "float32 tolerance 1e-4 relative",
]


def T(x):
    import torch

    return torch.tensor(x, dtype=torch.float32)


def close(a, b, tol=1e-4):
    a, b = a.detach().double(), b.detach().double()
    if tuple(a.shape) != tuple(b.shape):
        return False
    return bool(((a - b).abs() <= tol * (1 + b.abs())).all())


def fill(model, k=0):
    """Deterministic, distinct, generic parameter values (also biases)."""
    import torch

    with torch.no_grad():
        for i, (n, p) in enumerate(sorted(model.named_parameters())):
            m = p.numel()
            v = torch.sin(torch.arange(1, m + 1, dtype=torch.float64) * 1.3 + 0.7 * i + 0.31 * k)
            p.copy_((v * (1.5 / math.sqrt(max(1, m // max(1, p.shape[0]))))).reshape(p.shape))
    return model


def params(model):
    """Clones of the parameters that require grad, by state dict name (shared ones once)."""
    out, seen = {}, {}
    for n, p in model.named_parameters(remove_duplicate=False):
        if id(p) not in seen:
            seen[id(p)] = p.detach().clone().requires_grad_()
        out[n] = seen[id(p)]
    return out


def rows(B, d, k=0):
    return [[math.cos(1.7 * (i * d + j) + 0.5 * k) * 1.5 for j in range(d)] for i in range(B)]


def compare(rec, model, inputs, oracle, what, extract=lambda y: y, unused=()):
    """model(*inputs) and d(probe . out)/d params against oracle(P, *inputs)."""
    import torch

    P = params(model)
    before = [x.clone() for x in inputs]
    y = extract(model(*inputs))
    want = oracle(P, *inputs)
    if not rec.check(tuple(y.shape) == tuple(want.shape), "%s: output shape %r instead of %r" % (what, tuple(y.shape), tuple(want.shape))):
        return None
    if not rec.check(close(y, want), "%s: output %r instead of %r" % (what, y.detach().numpy().ravel()[:4], want.detach().numpy().ravel()[:4])):
        return None
    rec.check(all(torch.equal(a, b) for a, b in zip(before, inputs)), "%s: input modified" % what)
    probe = torch.sin(torch.arange(1.0, y.numel() + 1)).reshape(y.shape)
    names = [n for n, _ in model.named_parameters()]
    ps = dict(model.named_parameters())
    g = torch.autograd.grad((y * probe).sum(), [ps[n] for n in names], allow_unused=True)
    h = torch.autograd.grad((want * probe).sum(), [P[n] for n in names], allow_unused=True)
    for n, a, b in zip(names, g, h):
        if a is None or b is None:
            za = a is None or not bool(a.any())
            zb = b is None or not bool(b.any())
            rec.check(za and zb, "%s: parameter %s %s the output" % (what, n, "does not influence" if a is None else "influences"))
        else:
            rec.check(close(a, b, 1e-3), "%s: gradient of %s differs" % (what, n))
    rec.state((what, tuple(y.shape)))
    rec.outcome(tuple(round(float(v), 5) for v in y.detach().ravel()[:3]))
    return y


def mlp(P, x, n_hidden, act, pre=""):
    import torch.nn.functional as F

    for i in range(n_hidden):
        x = act(F.linear(x, P[pre + "hidden_layers.%d.weight" % i], P[pre + "hidden_layers.%d.bias" % i]))
    return F.linear(x, P[pre + "output.weight"], P[pre + "output.bias"])


def bn(P, model, x, pre):
    """Reference batch normalization, from the state of the module before the call."""
    m = dict(model.named_modules())[pre]
    if m.training:
        mean, var = x.mean(0), x.var(0, unbiased=False)
    else:
        mean, var = m.running_mean.clone(), m.running_var.clone()
    return (x - mean) / (var + m.eps).sqrt() * P[pre + ".weight"] + P[pre + ".bias"]


def mlpbn(P, model, x, n_hidden, act, ni, no, pre=""):
    import torch.nn.functional as F

    if ni:
        x = bn(P, model, x, pre + "input_bn")
    for i in range(n_hidden):
        q = pre + "hidden_layers.%d." % i
        x = act(bn(P, model, F.linear(x, P[q + "linear.weight"], P[q + "linear.bias"]), q + "bn"))
    x = F.linear(x, P[pre + "output.weight"], P[pre + "output.bias"])
    if no:
        x = bn(P, model, x, pre + "output_bn")
    return x


def acts():
    import torch
    import torch.nn.functional as F

    return [F.relu, torch.tanh]


def unit_mlp(rec, sizes, maxh):
    import torch

    import pfrl

    for i, o in itertools.product(sizes, repeat=2):
        for nh in range(maxh + 1):
            for hs in itertools.islice(itertools.product((2, 3, 1), repeat=nh), 9):
                for act in acts():
                    rec.begin({"MLP": (i, o, list(hs)), "act": act.__name__})
                    rec.step()
                    torch.manual_seed(0)
                    m = pfrl.nn.MLP(i, o, list(hs), nonlinearity=act)
                    rec.check(all(not bool(p.any()) for n, p in m.named_parameters() if n.endswith("bias")), "initial biases are not zero")
                    w1 = m.state_dict()["output.weight"].clone()
                    for s in (0.0, 2.0, 0.5):
                        torch.manual_seed(0)
                        m2 = pfrl.nn.MLP(i, o, list(hs), nonlinearity=act, last_wscale=s)
                        sd = m2.state_dict()
                        rec.check(close(sd["output.weight"], w1 * s), "last_wscale=%r does not scale the last layer" % s)
                        rec.check(all(torch.equal(v, m.state_dict()[k]) for k, v in sd.items() if not k.startswith("output")), "last_wscale changes other layers")
                    fill(m)
                    for B in (1, 2, 3):
                        compare(rec, m, [T(rows(B, i))], lambda P, x: mlp(P, x, nh, act), "MLP")


def unit_mlpbn(rec, sizes, maxh):
    import torch

    import pfrl

    for i, o in itertools.product(sizes, repeat=2):
        for nh in range(maxh + 1):
            for hs in itertools.islice(itertools.product((2, 3), repeat=nh), 4):
                for act in acts():
                    for ni, no in itertools.product((False, True), repeat=2):
                        rec.begin({"MLPBN": (i, o, list(hs)), "act": act.__name__, "normalize": (ni, no)})
                        rec.step()
                        m = fill(pfrl.nn.MLPBN(i, o, list(hs), normalize_input=ni, normalize_output=no, nonlinearity=act))
                        for train in (True, False):
                            m.train(train)
                            for B in (2, 3) if train else (1, 2):
                                compare(rec, m, [T(rows(B, i, B))], lambda P, x: mlpbn(P, m, x, nh, act, ni, no), "MLPBN")


def unit_saq(rec, sizes, maxh):
    """State-action Q-functions."""
    import torch

    import pfrl
    from pfrl import q_functions as qf

    for so, sa in itertools.product(sizes, repeat=2):
        for nh in range(maxh + 1):
            for act in acts():
                for h in (2, 3):
                    for B in (1, 2, 3):
                        obs, a = T(rows(B, so)), T(rows(B, sa, 3))
                        rec.begin({"FCSAQFunction": (so, sa, h, nh), "act": act.__name__, "batch": B})
                        rec.step()
                        m = fill(qf.FCSAQFunction(so, sa, h, nh, nonlinearity=act))
                        compare(rec, m, [obs, a], lambda P, x, y: mlp(P, torch.cat((x, y), 1), nh, act), "FCSAQFunction")
                        if nh >= 1:

                            def late(P, x, y):
                                z = act(mlp(P, x, 0, act, "obs_mlp."))
                                return mlp(P, torch.cat((z, y), 1), nh - 1, act, "mlp.")

                            rec.begin({"FCLateActionSAQFunction": (so, sa, h, nh), "act": act.__name__, "batch": B})
                            m = fill(qf.FCLateActionSAQFunction(so, sa, h, nh, nonlinearity=act))
                            compare(rec, m, [obs, a], late, "FCLateActionSAQFunction")
                        for ni in (True, False):
                            for train in (True, False) if B > 1 else (False,):
                                rec.begin({"FCBNSAQFunction": (so, sa, h, nh), "act": act.__name__, "batch": B, "normalize_input": ni, "train": train})
                                m = fill(qf.FCBNSAQFunction(so, sa, h, nh, normalize_input=ni, nonlinearity=act)).train(train)
                                compare(rec, m, [obs, a], lambda P, x, y: mlpbn(P, m, torch.cat((x, y), 1), nh, act, ni, False), "FCBNSAQFunction")
                                if nh >= 1:

                                    def blate(P, x, y):
                                        z = act(mlpbn(P, m, x, 0, act, ni, True, "obs_mlp."))
                                        return mlp(P, torch.cat((z, y), 1), nh - 1, act, "mlp.")

                                    rec.begin({"FCBNLateActionSAQFunction": (so, sa, h, nh), "act": act.__name__, "batch": B, "normalize_input": ni, "train": train})
                                    m = fill(qf.FCBNLateActionSAQFunction(so, sa, h, nh, normalize_input=ni, nonlinearity=act)).train(train)
                                    compare(rec, m, [obs, a], blate, "FCBNLateActionSAQFunction")
            for B in (1, 2, 3):
                rec.begin({"ConcatObsAndAction": (so, sa), "batch": B})
                y = pfrl.nn.ConcatObsAndAction()((T(rows(B, so)), T(rows(B, sa, 3))))
                rec.check(y.tolist() == [a + b for a, b in zip(T(rows(B, so)).tolist(), T(rows(B, sa, 3)).tolist())], "concatenation")
    rec.begin({"SingleModelStateActionQFunction": 1})
    rec.step()
    inner = fill(torch.nn.Bilinear(2, 1, 1))
    m = qf.SingleModelStateActionQFunction(model=inner)
    y = m(T(rows(2, 2)), T(rows(2, 1, 3)))
    rec.check(close(y, inner(T(rows(2, 2)), T(rows(2, 1, 3)))), "does not compute its model")
    rec.check({id(p) for p in m.parameters()} == {id(p) for p in inner.parameters()}, "parameters of the model are not registered")


def unit_stateq(rec, sizes, maxh):
    import torch

    from pfrl import q_functions as qf

    for i, A in itertools.product(sizes, repeat=2):
        for nh in range(maxh + 1):
            for act in acts():
                for B in (1, 2, 3):
                    x = T(rows(B, i))
                    rec.begin({"FCStateQFunctionWithDiscreteAction": (i, A, nh), "act": act.__name__, "batch": B})
                    rec.step()
                    m = fill(qf.FCStateQFunctionWithDiscreteAction(i, A, 3, nh, nonlinearity=act))
                    compare(rec, m, [x], lambda P, x: mlp(P, x, nh, act, "model."), "FCStateQFunction", lambda y: y.q_values)
                    for Z in (2, 3):
                        for lo, hi in ((-1.0, 1.0), (0.0, 5.0)):
                            rec.begin({"DistributionalFCStateQFunctionWithDiscreteAction": (i, A, Z, nh), "v": (lo, hi), "batch": B})
                            m = fill(qf.DistributionalFCStateQFunctionWithDiscreteAction(i, A, Z, lo, hi, 3, nh, nonlinearity=act))
                            zs = [lo + (hi - lo) * k / (Z - 1) for k in range(Z)]

                            def dist(P, x):
                                return mlp(P, x, nh, act, "model.0.").reshape(-1, A, Z).softmax(2)

                            compare(rec, m, [x], dist, "Distributional", lambda y: y.q_dist)
                            av = m(x)
                            rec.check(np.allclose(av.z_values.numpy(), zs), "z_values %r instead of %r" % (av.z_values, zs))
                            rec.check(close(av.q_values, (dist(params(m), x) * T(zs)).sum(2)), "q_values are not the expectations")


def scripted_normal(vals):
    """Patch the torch sources of normal noise to hand out `vals` in order."""
    import torch

    class P:
        def __enter__(s):
            s.left = list(vals)
            s.saved = (torch.normal, torch.randn, torch.randn_like, torch.Tensor.normal_)

            def take(shape, dtype=None):
                n = int(np.prod(shape)) if len(shape) else 1
                out = [s.left.pop(0) for _ in range(n)]
                return torch.tensor(out, dtype=dtype or torch.float32).reshape(tuple(shape))

            def shape_of(a):
                a = a[0] if len(a) == 1 and not isinstance(a[0], int) else a
                return tuple(a)

            def normal(mean, std=None, size=None, dtype=None, **kw):
                if size is None:
                    ref = mean if isinstance(mean, torch.Tensor) else std
                    return mean + take(ref.shape, ref.dtype) * std
                return mean + take(size, dtype) * std

            torch.normal = normal
            torch.randn = lambda *a, dtype=None, **kw: take(shape_of(kw["size"] if not a else a), dtype)
            torch.randn_like = lambda t, dtype=None, **kw: take(t.shape, dtype or t.dtype)
            torch.Tensor.normal_ = lambda t, mean=0, std=1, **kw: t.copy_(take(t.shape, t.dtype) * std + mean)
            return s

        def __exit__(s, *e):
            torch.normal, torch.randn, torch.randn_like, torch.Tensor.normal_ = s.saved

    return P()


def unit_noisy(rec, n_in, n_out, alphabet):
    """The function a noisy layer computes in one call, extracted from a basis batch."""
    import torch
    import pfrl

    f = lambda v: math.copysign(math.sqrt(abs(v)), v) if v else 0.0
    for bias in (True, False):
        for scale in (0.4, 1.5):
            torch.manual_seed(1)
            lin = torch.nn.Linear(n_in, n_out, bias=bias)
            m = pfrl.nn.FactorizedNoisyLinear(lin, sigma_scale=scale)
            rec.begin({"noisy-init": (n_in, n_out), "bias": bias, "sigma_scale": scale})
            rec.step()
            sd = m.state_dict()
            rec.check(close(sd["sigma.weight"], torch.full((n_out, n_in), scale / math.sqrt(n_in))), "initial sigma.weight")
            rec.check(bool((sd["mu.weight"].abs() <= 1 / math.sqrt(n_in) + 1e-6).all()), "initial mu.weight out of +-1/sqrt(fan_in)")
            rec.check(("mu.bias" in sd) == bias and ("sigma.bias" in sd) == bias, "bias parameters do not follow the layer")
            if bias:
                rec.check(close(sd["sigma.bias"], torch.full((n_out,), scale / math.sqrt(n_out))), "initial sigma.bias")
        fill(m)
        mu, sg = m.state_dict()["mu.weight"].double(), m.state_dict()["sigma.weight"].double()
        basis = torch.cat([torch.zeros(1, n_in), torch.eye(n_in), torch.ones(1, n_in)])
        total = n_in + n_out
        for noise in itertools.product(alphabet, repeat=total):
            for train in (True, False):
                m.train(train)
                rec.begin({"noisy": (n_in, n_out), "bias": bias, "noise": noise, "train": train})
                rec.step()
                with scripted_normal(noise) as s:
                    y = m(basis)
                rec.check(not s.left, "%d of %d noise variables used" % (total - len(s.left), total))
                y = y.detach().double()
                W = (y[1 : 1 + n_in] - y[0]).t()
                b = y[0]
                rec.check(close(y[-1], W.sum(1) + b, 1e-4), "rows of a batch see different noise")
                E = (W - mu) / sg  # must be eps_y eps_x^T
                ey = ((b - m.state_dict()["mu.bias"].double()) / m.state_dict()["sigma.bias"].double()) if bias else None
                # the noise factors are f(noise), split into inputs and outputs in some order
                ok = False
                fs = [f(v) for v in noise]
                for xs_first in (True, False):
                    ex = fs[:n_in] if xs_first else fs[n_out:]
                    eyw = fs[n_in:] if xs_first else fs[:n_out]
                    want = torch.tensor([[a * c for c in ex] for a in eyw], dtype=torch.float64)
                    if bool(((E - want).abs() < 1e-3 * (1 + want.abs())).all()) and (ey is None or bool(((ey - torch.tensor(eyw, dtype=torch.float64)).abs() < 1e-3).all())):
                        ok = True
                if not bias:
                    rec.check(not bool(b.any()), "bias without bias")
                rec.check(ok, "W - mu is not sigma * f(eps_y) f(eps_x)^T (or the bias noise is not f(eps_y)): E=%r ey=%r f(noise)=%r" % (E.tolist(), ey, fs))
                rec.state((n_in, n_out, bias, noise))
                rec.outcome(tuple(round(float(v), 4) for v in E.ravel()))


def trees(n_leaves, depth):
    """All nested sequences of leaf kinds with exactly n_leaves leaves."""
    leaves = ("lin", "linnb", "relu", "bn")
    if n_leaves == 1:
        for l in leaves:
            yield l
        if depth == 0:
            return
    if depth == 0:
        return
    for split in compositions(n_leaves):
        if len(split) == 1 and depth <= 1:
            continue
        for kids in itertools.product(*[list(trees(k, depth - 1)) for k in split]):
            if len(split) == 1 and isinstance(kids[0], str):
                yield ("seq", kids)
            elif len(split) > 1:
                yield ("seq", kids)


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def build(tree, kinds):
    import torch.nn as nn

    if tree == "lin":
        return nn.Linear(2, 2)
    if tree == "linnb":
        return nn.Linear(2, 2, bias=False)
    if tree == "relu":
        return nn.ReLU()
    if tree == "bn":
        return nn.BatchNorm1d(2)
    mods = [build(t, kinds) for t in tree[1]]
    if kinds == "list":
        class Holder(nn.Module):
            def __init__(self):
                super().__init__()
                self.layers = nn.ModuleList(mods)

            def forward(self, x):
                for l in self.layers:
                    x = l(x)
                return x

        return Holder()
    return nn.Sequential(*mods)


def unit_trees(rec, maxleaves, depth):
    import torch
    import torch.nn as nn

    import pfrl

    N = pfrl.nn.FactorizedNoisyLinear
    for n in range(1, maxleaves + 1):
        for tree in trees(n, depth):
            if isinstance(tree, str):
                continue
            for kinds in ("seq", "list"):
                rec.begin({"tree": repr(tree), "kind": kinds})
                rec.step()
                m = build(tree, kinds)
                before = [(k, v) for k, v in m.named_modules()]
                pfrl.nn.to_factorized_noisy(m, sigma_scale=0.7)
                after = dict(m.named_modules())
                n_noisy = 0
                for k, old in before:
                    new = after.get(k)
                    if isinstance(old, nn.Linear):
                        n_noisy += 1
                        if rec.check(isinstance(new, N), "linear layer %s of %r was not converted" % (k, tree)):
                            rec.check((new.mu.bias is not None) == (old.bias is not None), "bias of %s" % k)
                            rec.check(tuple(new.mu.weight.shape) == tuple(old.weight.shape), "shape of %s" % k)
                            rec.check(close(new.sigma.weight, torch.full_like(new.sigma.weight, 0.7 / math.sqrt(2))), "sigma_scale not passed on")
                    else:
                        rec.check(new is old, "module %s (%s) was replaced" % (k, type(old).__name__))
                rec.check(sum(isinstance(x, N) for x in m.modules()) == n_noisy, "number of noisy layers")
                m.eval()
                rec.check(tuple(m(torch.ones(3, 2)).shape) == (3, 2), "converted module cannot be run")
                rec.state((repr(tree), kinds))
                rec.outcome(n_noisy)


def conv(P, x, pre, n, act, strides):
    import torch.nn.functional as F

    for i in range(n):
        x = act(F.conv2d(x, P["%s.%d.weight" % (pre, i)], P["%s.%d.bias" % (pre, i)], stride=strides[i]))
    return x.reshape(x.shape[0], -1)


def unit_conv(rec, what, act):
    import torch
    import torch.nn.functional as F

    import pfrl
    from pfrl import q_functions as qf

    def img(B, C):
        return torch.sin(torch.arange(B * C * 84 * 84, dtype=torch.float32) * 0.37).reshape(B, C, 84, 84)

    def big(model):
        """Random-init weights, but generic biases, so that the values differ."""
        with torch.no_grad():
            for i, p in enumerate(model.parameters()):
                if p.dim() == 1:
                    p.copy_(torch.sin(torch.arange(1.0, p.numel() + 1) + i) * 0.3)
        return model

    for C in (1, 4, 5) if what in ("small", "large") else (1, 4):
        for B in (1, 2):
            torch.manual_seed(0)
            if what in ("small", "large"):
                cls, n, st = (pfrl.nn.SmallAtariCNN, 2, (4, 2)) if what == "small" else (pfrl.nn.LargeAtariCNN, 3, (4, 2, 1))
                for out in (None, 3):
                    for bias in (None, 0.25):
                        rec.begin({"cnn": what, "channels": C, "batch": B, "out": out, "bias": bias})
                        rec.step()
                        kw = {k: v for k, v in (("n_output_channels", out), ("bias", bias)) if v is not None}
                        m = cls(n_input_channels=C, activation=act, **kw)
                        rec.check(all(bool((p == torch.tensor(0.1 if bias is None else bias)).all()) for k, p in m.named_parameters() if k.endswith("bias")), "initial biases")
                        big(m)
                        y = compare(rec, m, [img(B, C)], lambda P, x: act(F.linear(conv(P, x, "layers", n, act, st), P["output.weight"], P["output.bias"])), what)
                        rec.check(y is None or y.shape[1] == (out or (256 if what == "small" else 512)), "number of outputs")
            elif what == "dueling":
                for A in (1, 2, 3):
                    rec.begin({"net": what, "channels": C, "batch": B, "actions": A})
                    rec.step()
                    m = qf.DuelingDQN(A, n_input_channels=C, activation=act)
                    big(m)

                    def oracle(P, x):
                        h = conv(P, x, "conv_layers", 3, act, (4, 2, 1))
                        a = mlp(P, h, 1, F.relu, "a_stream.")
                        v = mlp(P, h, 1, F.relu, "v_stream.")
                        return v + a - a.mean(1, keepdim=True)

                    compare(rec, m, [img(B, C)], oracle, what, lambda y: y.q_values)
            else:
                for A, Z in itertools.product((1, 3), (2, 3)):
                    rec.begin({"net": what, "channels": C, "batch": B, "actions": A, "atoms": Z})
                    rec.step()
                    m = qf.DistributionalDuelingDQN(A, Z, -2.0, 4.0, n_input_channels=C, activation=act)
                    big(m)

                    def oracle(P, x):
                        h = act(F.linear(conv(P, x, "conv_layers", 3, act, (4, 2, 1)), P["main_stream.weight"], P["main_stream.bias"]))
                        k = h.shape[1] // 2
                        a = F.linear(h[:, :k], P["a_stream.weight"], P["a_stream.bias"]).reshape(-1, A, Z)
                        v = F.linear(h[:, k:], P["v_stream.weight"], P["v_stream.bias"]).reshape(-1, 1, Z)
                        return (v + a - a.mean(1, keepdim=True)).softmax(2)

                    compare(rec, m, [img(B, C)], oracle, what, lambda y: y.q_dist)
                    zs = [-2.0 + 6.0 * k / (Z - 1) for k in range(Z)]
                    rec.check(np.allclose(m(img(B, C)).z_values.numpy(), zs), "z_values")


def unit_iqn(rec, maxb):
    import torch
    import torch.nn.functional as F

    from pfrl.agents import iqn
    from pfrl.utils.recurrent import pack_and_forward
    import pfrl

    def cosb(t, nb):
        i = torch.arange(1, nb + 1, dtype=torch.float64) * math.pi
        return torch.cos(t.double()[..., None] * i).float()

    for nb in (1, 2, 4):
        for B in range(1, maxb + 1):
            for n in (1, 2, 3):
                for A in (1, 2):
                    for H in (1, 3):
                        rec.begin({"iqn": (nb, B, n, A, H)})
                        rec.step()
                        taus = T([[((7 * b + 3 * k) % 11) / 10.0 for k in range(n)] for b in range(B)])
                        rec.check(close(iqn.cosine_basis_functions(taus, nb), cosb(taus, nb)), "cosine basis")
                        m = fill(iqn.ImplicitQuantileQFunction(psi=torch.nn.Linear(2, H), phi=torch.nn.Sequential(iqn.CosineBasisLinear(nb, H), torch.nn.ReLU()), f=torch.nn.Linear(H, A)))

                        def oracle(P, x):
                            psi = F.linear(x, P["psi.weight"], P["psi.bias"])
                            phi = F.linear(cosb(taus, nb), P["phi.0.linear.weight"], P["phi.0.linear.bias"]).relu()
                            return torch.stack([torch.stack([F.linear(psi[b] * phi[b, k], P["f.weight"], P["f.bias"]) for k in range(n)]) for b in range(B)])

                        compare(rec, m, [T(rows(B, 2))], oracle, "iqn", lambda y: y(taus).quantiles)
                        av = m(T(rows(B, 2)))(taus)
                        rec.check(close(av.q_values, oracle(params(m), T(rows(B, 2))).mean(1)), "q_values are not the mean over the thresholds")
                        # recurrent: a batch of sequences
                        for lens in itertools.combinations_with_replacement((2, 1), B):
                            rec.begin({"riqn": (nb, B, n, A, H), "lens": lens})
                            tot = sum(lens)
                            r = fill(iqn.RecurrentImplicitQuantileQFunction(psi=pfrl.nn.RecurrentSequential(torch.nn.Linear(2, 2), torch.nn.RNN(num_layers=1, input_size=2, hidden_size=H)), phi=iqn.CosineBasisLinear(nb, H), f=torch.nn.Linear(H, A)))
                            seqs, it = [], iter(rows(tot, 2))
                            for l in lens:
                                seqs.append(T([next(it) for _ in range(l)]))
                            tt = T([[((5 * b + 3 * k) % 11) / 10.0 for k in range(n)] for b in range(tot)])
                            fn, _ = pack_and_forward(r, seqs, None)
                            got = fn(tt).quantiles
                            # per-sequence reference
                            hs = [pack_and_forward(r.psi, [s], None)[0] for s in seqs]
                            psi = torch.cat(hs)
                            # rows of got follow the packed order (time major over sequences sorted by length)
                            order = sorted(range(B), key=lambda b: -lens[b])
                            packed = [(b, t) for t in range(max(lens)) for b in order if t < lens[b]]
                            off = [sum(lens[:b]) for b in range(B)]
                            want_packed = []
                            phi = F.linear(cosb(tt, nb), r.phi.linear.weight, r.phi.linear.bias)
                            cands = []
                            for idx in (packed, [(b, t) for b in range(B) for t in range(lens[b])]):
                                cands.append(torch.stack([torch.stack([r.f(psi[off[b] + t] * phi[i, k]) for k in range(n)]) for i, (b, t) in enumerate(idx)]))
                            rec.check(any(close(got, c) for c in cands), "recurrent quantiles")


def unit_misc(rec):
    """Initializers, Branched, Lambda."""
    import torch
    import torch.nn as nn

    import pfrl
    from pfrl.initializers import init_chainer_default, init_lecun_normal

    shapes = [(2, 12), (12, 2), (4, 6), (6, 4), (3, 2, 2, 2), (2, 3, 2, 2), (1, 24), (24, 1)]
    base = None
    for sh in shapes:
        fan = int(np.prod(sh[1:]))
        for scale in (1.0, 0.5, 3.0):
            rec.begin({"lecun": sh, "scale": scale})
            rec.step()
            torch.manual_seed(3)
            t = init_lecun_normal(torch.empty(*sh), scale=scale)
            z = (t * math.sqrt(fan) / scale).flatten()
            if base is None:
                base = z
            rec.check(close(z, base), "LeCun normal scale of shape %r" % (sh,))
            rec.outcome(round(float(t.flatten()[0]), 6))
            rec.state((sh, scale))
    rec.begin({"lecun": "std"})
    torch.manual_seed(3)
    z = torch.empty(24).normal_(0, 1)
    rec.check(close(z, base), "LeCun normal: standard deviation is not scale/sqrt(fan_in)")
    for layer, sh in ((nn.Linear(12, 2), (2, 12)), (nn.Linear(6, 4, bias=False), (4, 6)), (nn.Conv2d(3, 2, 2), (2, 3, 2, 2))):
        rec.begin({"chainer": str(layer)})
        rec.step()
        if layer.bias is not None:
            nn.init.ones_(layer.bias)
        torch.manual_seed(3)
        r = init_chainer_default(layer)
        rec.check(r is layer, "does not return the layer")
        rec.check(close(layer.weight * math.sqrt(int(np.prod(sh[1:]))), base.reshape(sh)), "weights are not LeCun normal")
        rec.check(layer.bias is None or not bool(layer.bias.any()), "bias is not zero")
    other = nn.BatchNorm1d(3)
    nn.init.constant_(other.weight, 2.0)
    rec.begin({"chainer": "other"})
    init_chainer_default(other)
    rec.check(bool((other.weight == 2).all()), "other layers are touched")
    for n in (1, 2, 3):
        rec.begin({"branched": n})
        rec.step()
        mods = [nn.Linear(2, k + 1) for k in range(n)]
        m = pfrl.nn.Branched(*mods)
        x = T(rows(2, 2))
        y = m(x)
        rec.check(isinstance(y, tuple) and len(y) == n and all(torch.equal(a, b(x)) for a, b in zip(y, mods)), "Branched")
        rec.check(len(list(m.parameters())) == 2 * n, "parameters of the branches")
    rec.begin({"lambda": 1})
    rec.check(pfrl.nn.Lambda(lambda x: ("r", x))(5) == ("r", 5), "Lambda")


def units(tier):
    Th = tier == "thorough"
    sizes, maxh = ((1, 2, 3, 4), 4) if Th else ((1, 2, 3), 3)
    us = [("mlp", unit_mlp, sizes, maxh), ("mlpbn", unit_mlpbn, sizes, 3 if Th else 2), ("saq", unit_saq, sizes, maxh if Th else 2), ("stateq", unit_stateq, sizes, 2)]
    alpha = (-4.0, -1.0, 0.0, 1.0, 2.25, -0.25) if Th else (-4.0, -1.0, 0.0, 1.0)
    for i, o in itertools.product((1, 2, 3), repeat=2):
        a = alpha if i + o <= 4 else alpha[:3] if i + o == 5 else alpha[::2][:2] + (alpha[1],) if Th else (-4.0, 1.0)
        us.append(("noisy-%dx%d" % (i, o), unit_noisy, i, o, a))
    us.append(("trees", unit_trees, 4 if Th else 3, 2))
    for w in ("small", "large", "dueling", "distdueling"):
        for act in acts():
            us.append(("%s-%s" % (w, act.__name__), unit_conv, w, act))
    us += [("iqn", unit_iqn, 3), ("misc", unit_misc)]
    return us
