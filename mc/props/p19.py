"""P19  recurrent computation treats every sequence on its own.

Every structure of recurrent modules, every batch of sequence lengths, every
pattern of present/absent initial states: packed evaluation, one-step
evaluation and the functions on recurrent states are compared with a numpy
evaluation of every sequence alone, one step at a time.
"""
import itertools

import numpy as np

RULE = "one case per (structure, sequence lengths, pattern of initial states, operation); non-trivial outcomes = distinct outputs"
BOUNDS = {
    "quick": "12 structures (GRU, LSTM, RNN, two layers, bias off, RecurrentSequential nested, RecurrentBranched, Branched heads, tuple inputs); up to 3 sequences of length 1-3; initial states absent or present per sequence; every subset of sequences masked",
    "thorough": "up to 4 sequences of length 1-4",
}
ASSUMPTIONS = ["sequences are given longest first, as the agents do", "float64; tolerance 1e-9"]
D = 2


def sig(x):
    return 1 / (1 + np.exp(-x))


# ---- numpy oracle: (params, x, state) -> (y, state), one sequence, one step
def npv(t):
    return t.detach().numpy()


class Ref(object):
    """Evaluate a torch module on one step of one sequence. State None = zero."""

    def __init__(self, mod):
        self.mod = mod

    def step(self, x, s):
        import torch
        from torch import nn

        import pfrl

        m = self.mod
        if isinstance(m, (nn.GRU, nn.LSTM, nn.RNN)):
            L, H = m.num_layers, m.hidden_size
            lstm = isinstance(m, nn.LSTM)
            if s is None:
                s = (np.zeros((L, H)), np.zeros((L, H))) if lstm else np.zeros((L, H))
            hs = np.array(s[0] if lstm else s)
            cs = np.array(s[1]) if lstm else None
            for l in range(L):
                wi, wh = npv(getattr(m, "weight_ih_l%d" % l)), npv(getattr(m, "weight_hh_l%d" % l))
                bi = npv(getattr(m, "bias_ih_l%d" % l)) if m.bias else np.zeros(len(wi))
                bh = npv(getattr(m, "bias_hh_l%d" % l)) if m.bias else np.zeros(len(wh))
                gi, gh = wi @ x + bi, wh @ hs[l] + bh
                if isinstance(m, nn.GRU):
                    ir, iz, i_n = np.split(gi, 3)
                    hr, hz, hn = np.split(gh, 3)
                    r, zz = sig(ir + hr), sig(iz + hz)
                    n = np.tanh(i_n + r * hn)
                    hs[l] = (1 - zz) * n + zz * hs[l]
                elif lstm:
                    i, f, g, o = np.split(gi + gh, 4)
                    cs[l] = sig(f) * cs[l] + sig(i) * np.tanh(g)
                    hs[l] = sig(o) * np.tanh(cs[l])
                else:
                    hs[l] = np.tanh(gi + gh)
                x = hs[l]
            return x, ((hs, cs) if lstm else hs)
        if isinstance(m, pfrl.nn.RecurrentSequential):
            rec = [c for c in m if isrec(c)]
            st = list(s) if s is not None else [None] * len(rec)
            new = []
            for c in m:
                if isrec(c):
                    x, n = Ref(c).step(x, st[len(new)])
                    new.append(n)
                else:
                    x, _ = Ref(c).step(x, None)
            return x, tuple(new)
        if isinstance(m, pfrl.nn.RecurrentBranched):
            st = list(s) if s is not None else [None] * len(m)
            ys = [Ref(c).step(x, q) for c, q in zip(m, st)]
            return tuple(y for y, _ in ys), tuple(q for _, q in ys)
        if isinstance(m, pfrl.nn.Branched):
            return tuple(Ref(c).step(x, None)[0] for c in m.child_modules), None
        if isinstance(m, nn.Sequential):
            for c in m:
                x, _ = Ref(c).step(x, None)
            return x, None
        if isinstance(m, nn.Linear):
            return npv(m.weight) @ x + npv(m.bias), None
        if isinstance(m, nn.Tanh):
            return np.tanh(x), None
        if isinstance(m, pfrl.nn.ConcatObsAndAction):
            return np.concatenate(x), None
        raise TypeError(type(m))


def isrec(m):
    from torch import nn

    import pfrl

    return isinstance(m, (nn.GRU, nn.LSTM, nn.RNN, pfrl.nn.RecurrentSequential, pfrl.nn.RecurrentBranched))


def structures():
    from torch import nn

    import pfrl

    RS, RB, Br = pfrl.nn.RecurrentSequential, pfrl.nn.RecurrentBranched, pfrl.nn.Branched
    L = nn.Linear
    return {
        "gru": lambda: nn.GRU(D, 3),
        "s-gru": lambda: RS(nn.GRU(D, 3)),
        "s-lstm": lambda: RS(L(D, 2), nn.Tanh(), nn.LSTM(2, 3), L(3, 2)),
        "s-rnn2": lambda: RS(nn.RNN(D, 2, num_layers=2), L(2, 1)),
        "s-mix": lambda: RS(nn.GRU(D, 2), L(2, 3), nn.LSTM(3, 2, num_layers=2), L(2, 2), nn.RNN(2, 2, bias=False)),
        "s-none": lambda: RS(L(D, 2), nn.Tanh()),
        "nest": lambda: RS(RS(nn.GRU(D, 2), L(2, 2)), nn.Tanh(), RS(RS(nn.LSTM(2, 2)))),
        "rb": lambda: RB(nn.GRU(D, 2), RS(L(D, 2), nn.LSTM(2, 1)), RS(L(D, 1))),
        "s-rb": lambda: RS(L(D, 2), RB(nn.GRU(2, 2), nn.LSTM(2, 1)), pfrl.nn.ConcatObsAndAction(), L(3, 1)),
        "heads": lambda: RS(nn.GRU(D, 2), Br(L(2, 2), nn.Sequential(L(2, 1), nn.Tanh()))),
        "tuple": lambda: RS(pfrl.nn.ConcatObsAndAction(), nn.GRU(D + 1, 2), L(2, 2)),
        "rb-heads": lambda: RB(RS(nn.LSTM(D, 2), Br(L(2, 1), L(2, 2))), RS(nn.GRU(D, 2))),
    }


def build(name):
    from mc import agents as A

    return A.init(structures()[name]().double(), 4, 0.9)


def xin(name, seq, t, n):
    v = np.array([((seq * 5 + t * 3 + 1) % 7 - 3) / 3.0, ((seq * 3 + t * 5) % 5 - 2) / 2.0])
    return (v, v[:1] * 2 - 1) if name == "tuple" else v


def tt(x):
    import torch

    return tuple(tt(y) for y in x) if isinstance(x, tuple) else torch.as_tensor(x)


def stack(xs):
    if isinstance(xs[0], tuple):
        return tuple(stack([x[i] for x in xs]) for i in range(len(xs[0])))
    return np.stack(xs)


def same(a, b):
    """torch structure vs numpy structure."""
    import torch

    if b is None:
        return a is None
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    a = np.asarray(a.detach() if isinstance(a, torch.Tensor) else a)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-9)


def batch_state(ss):
    """Per-sequence numpy states -> batched (sequences on axis 1)."""
    if isinstance(ss[0], tuple):
        return tuple(batch_state([s[i] for s in ss]) for i in range(len(ss[0])))
    return np.stack(ss, axis=1) if ss[0] is not None else None


def leaf_states(s):
    if s is None:
        return []
    if isinstance(s, tuple):
        return [y for x in s for y in leaf_states(x)]
    return [s]


def run(rec, name, lens, present):
    import torch

    from pfrl.utils import recurrent as U

    mod = build(name)
    ref = Ref(mod)
    B = len(lens)
    # warm states, one per sequence
    zero = ref.step(xin(name, 0, 0, B), None)[1]
    init = []
    for b in range(B):
        s = None
        if present[b]:
            for t in range(1 + b):
                _, s = ref.step(xin(name, b + 4, t, B), s)
        init.append(s)
    zs = lambda s: tuple(zs(x) for x in s) if isinstance(s, tuple) else (np.zeros_like(s) if s is not None else None)
    full = [s if s is not None else zs(zero) for s in init]
    # pieces as the agents make them: per-sequence states, concatenated
    bat = None
    if any(present):
        parts = [tt(s) if s is not None else None for s in init]
        bat = U.concatenate_recurrent_states(parts)
        rec.check(same(bat, batch_state(full)), "concatenated state")
        npbat = U.concatenate_recurrent_states([U.recurrent_state_as_numpy(p) for p in parts])
        rec.check(same(U.recurrent_state_from_numpy(npbat, torch.device("cpu")), batch_state(full)), "concatenated numpy state")
    else:
        rec.check(U.concatenate_recurrent_states([None] * B) is None, "concatenation of absent states")
    snapshot = [x.clone() for x in leaf_states(bat)]
    # packed
    seqs = [tt(stack([xin(name, b, t, B) for t in range(l)])) for b, l in enumerate(lens)]
    y, h = U.pack_and_forward(mod, seqs, bat)
    outs, fin = [], []
    for b, l in enumerate(lens):
        s, o = init[b], []
        for t in range(l):
            yy, s = ref.step(xin(name, b, t, B), s)
            o.append(yy)
        outs.append(o)
        fin.append(s)
    want = stack([outs[b][t] for t in range(max(lens)) for b in range(B) if lens[b] > t])
    rec.check(same(y, want), "packed output")
    rec.check(same(h, batch_state(fin)), "recurrent state after packed evaluation")
    rec.check([(b, t) for t in range(max(lens)) for b in range(B) if lens[b] > t] == U.flatten_sequences_time_first([[(b, t) for t in range(l)] for b, l in enumerate(lens)]), "flattened order")
    rec.check([(b + t) % 2 for t in range(max(lens)) for b in range(B) if lens[b] > t] == U.flatten_sequences_time_first([[(b + t) % 2 for t in range(l)] for b, l in enumerate(lens)]), "flattened order of numbers")
    rec.check(all(torch.equal(x, y0) for x, y0 in zip(leaf_states(bat), snapshot)), "initial state changed in place")
    # one step at a time, then masks / picks in the middle
    st = bat
    cur = list(init)
    for t in range(2):
        xb = tt(stack([xin(name, b, t, B) for b in range(B)]))
        y1, st = U.one_step_forward(mod, xb, st)
        got = [ref.step(xin(name, b, t, B), cur[b]) for b in range(B)]
        cur = [g[1] for g in got]
        rec.check(same(y1, stack([g[0] for g in got])), "one-step output")
        rec.check(same(st, batch_state(cur)), "one-step state")
    keep = [x.clone() for x in leaf_states(st)]
    for k in range(B + 1):
        for idx in itertools.combinations(range(B), k):
            for form in (list(idx), np.array(idx, dtype=np.int64)) + ((idx[0],) if k == 1 else ()):
                ms = U.mask_recurrent_state_at(st, form)
                want = batch_state([zs(c) if b in idx else c for b, c in enumerate(cur)])
                rec.check(same(ms, want), "masked state")
            if k == 0:
                continue
            g = U.get_recurrent_state_at(st, list(idx), detach=False)
            rec.check(same(g, batch_state([cur[b] for b in idx])), "picked states")
            xb = tt(stack([xin(name, b, 2, B) for b in range(B)]))
            y2, _ = U.one_step_forward(mod, xb, ms)
            rec.check(same(y2, stack([ref.step(xin(name, b, 2, B), None if b in idx else cur[b])[0] for b in range(B)])), "output after masking")
    rec.check(all(torch.equal(a, b) for a, b in zip(leaf_states(st), keep)), "state changed in place")
    one = [U.get_recurrent_state_at(st, b, detach=True) for b in range(B)]
    for b in range(B):
        rec.check(same(one[b], cur[b]) and not any(x.requires_grad for x in leaf_states(one[b])), "picked state")
    perm = list(reversed(range(B)))
    rec.check(same(U.concatenate_recurrent_states([one[b] for b in perm]), batch_state([cur[b] for b in perm])), "pick and concatenate")
    d = U.detach_recurrent_state(st)
    rec.check(same(d, batch_state(cur)) and not any(x.requires_grad for x in leaf_states(d)), "detached state")
    g = U.get_recurrent_state_at(st, [0], detach=False)
    rec.check(all(x.requires_grad for x in leaf_states(g)), "gradient lost")
    rec.check(
        all(f(None) is None for f in (U.detach_recurrent_state, U.recurrent_state_as_numpy, lambda s: U.mask_recurrent_state_at(s, [0]), lambda s: U.get_recurrent_state_at(s, 0, True), lambda s: U.recurrent_state_from_numpy(s, torch.device("cpu")))),
        "absent state",
    )
    rec.step()
    rec.outcome([np.round(x, 6).tolist() for x in leaf_states(batch_state(fin))][:2])


def unit(rec, name, maxB, maxL):
    for B in range(1, maxB + 1):
        for lens in itertools.combinations_with_replacement(range(maxL, 0, -1), B):
            for present in itertools.product((False, True), repeat=B):
                rec.begin({"structure": name, "lengths": lens, "present": present})
                run(rec, name, lens, present)
                rec.state((name, lens, present))


def units(tier):
    T = tier == "thorough"
    names = ["gru", "s-gru", "s-lstm", "s-rnn2", "s-mix", "s-none", "nest", "rb", "s-rb", "heads", "tuple", "rb-heads"]
    return [(n, unit, n, 4 if T else 3, 4 if T else 3) for n in names]
