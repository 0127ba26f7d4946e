"""Random numbers as an enumerated environment.

`controlled(ctx)` replaces the global generators the library draws from
(numpy.random.*, random.*) by choice points of the explorer, so that *every*
outcome of every draw is executed.  Discrete draws are enumerated exactly and
the exact probability of the execution is accumulated in `rng.prob`;
continuous draws are replaced by midpoints of equal strata (`grid`).
Anything drawn through another channel simply stays random (seeded): the
oracles never depend on it for soundness.
"""
import contextlib
import random as _random
from fractions import Fraction

import numpy as np


class RNG(object):
    def __init__(self, ctx, grid=4, edges=False, uniform_grid=None, max_draws=None):
        self.ctx = ctx
        self.grid = grid
        self.edges = edges  # also include 0.0 and nextbefore(1.0)
        self.uniform_grid = uniform_grid
        self.prob = Fraction(1)
        self.exact = True
        self.n_draws = 0
        self.log = []

    # -- primitives
    def below(self, n, label="rng"):
        n = int(n)
        if n <= 0:
            raise ValueError("empty range")
        self.n_draws += 1
        c = self.ctx.choose(n, label)
        self.prob *= Fraction(1, n)
        return c

    def unit(self, g=None):
        """A number in [0, 1)."""
        if g is None and self.uniform_grid is not None:
            g = self.uniform_grid(0.0, 1.0)
        g = g or self.grid
        self.n_draws += 1
        if self.edges:
            self.exact = False
            vals = [(i + 0.5) / g for i in range(g)] + [0.0, 1.0 - 2.0**-53]
            return vals[self.ctx.choose(len(vals), "unit")]
        c = self.ctx.choose(g, "unit")
        self.prob *= Fraction(1, g)
        return (c + 0.5) / g

    def _sized(self, f, size):
        if size is None:
            return f()
        if isinstance(size, (int, np.integer)):
            size = (int(size),)
        size = tuple(size)
        n = 1
        for s in size:
            n *= s
        return np.array([f() for _ in range(n)]).reshape(size)

    # -- numpy.random
    def np_rand(self, *shape):
        return self._sized(self.unit, shape if shape else None)

    def np_random(self, size=None):
        return self._sized(self.unit, size)

    def np_uniform(self, low=0.0, high=1.0, size=None):
        if np.ndim(low) or np.ndim(high):
            lo, hi = np.broadcast_arrays(low, high)
            if size is not None:
                lo, hi = np.broadcast_to(lo, size), np.broadcast_to(hi, size)
            return np.array(
                [a + (b - a) * self.unit() for a, b in zip(lo.ravel(), hi.ravel())]
            ).reshape(lo.shape)

        def f():
            g = None
            if self.uniform_grid is not None:
                g = self.uniform_grid(low, high)
            return low + (high - low) * self.unit(g)

        return self._sized(f, size)

    def np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        r = self._sized(lambda: low + self.below(high - low), size)
        return r if np.ndim(r) == 0 else r.astype(dtype)

    def np_choice(self, a, size=None, replace=True, p=None):
        n = int(a) if np.ndim(a) == 0 else len(a)

        def item(i):
            return i if np.ndim(a) == 0 else a[i]

        if p is not None:
            # numpy's own validation of p
            pa = np.asarray(p)
            atol = float(np.sqrt(np.finfo(np.float64).eps))
            if np.issubdtype(pa.dtype, np.floating):
                atol = max(atol, float(np.sqrt(np.finfo(pa.dtype).eps)))
            pa = pa.astype(np.float64)
            if pa.ndim != 1 or len(pa) != n:
                raise ValueError("'a' and 'p' must have same size")
            if np.isnan(pa).any():
                raise ValueError("probabilities contain NaN")
            if (pa < 0).any():
                raise ValueError("probabilities are not non-negative")
            if abs(pa.sum() - 1.0) > atol:
                raise ValueError("probabilities do not sum to 1")
            p = [Fraction(float(x)).limit_denominator(10**9) for x in p]

            def draw(avail):
                opts = [i for i in avail if p[i] > 0]
                if not opts:
                    raise ValueError("Fewer non-zero entries in p than size")
                self.n_draws += 1
                i = opts[self.ctx.choose(len(opts), "choice-p")]
                self.prob *= p[i] / sum(p[j] for j in opts)
                return i

        else:

            def draw(avail):
                return avail[self.below(len(avail), "choice")]

        if size is None:
            return item(draw(list(range(n))))
        tot = int(np.prod(size))
        if replace:
            idx = [draw(list(range(n))) for _ in range(tot)]
        else:
            if tot > n:
                raise ValueError(
                    "Cannot take a larger sample than population when 'replace=False'"
                )
            avail = list(range(n))
            idx = []
            for _ in range(tot):
                i = draw(avail)
                avail.remove(i)
                idx.append(i)
        if np.ndim(a) == 0:
            return np.array(idx, dtype=np.int64).reshape(size)
        return np.array([a[i] for i in idx]).reshape(size)

    def np_permutation(self, x):
        if np.ndim(x) == 0:
            x = np.arange(x)
        x = np.array(x)
        order = self.perm(len(x))
        return x[order]

    def perm(self, n):
        avail = list(range(n))
        out = []
        while avail:
            out.append(avail.pop(self.below(len(avail), "perm")))
        return out

    def np_shuffle(self, x):
        order = self.perm(len(x))
        y = [x[i] for i in order]
        for i, v in enumerate(y):
            x[i] = v

    def np_binomial(self, n, p, size=None):
        from math import comb

        if int(n) < 0 or not 0 <= p <= 1:
            raise ValueError("binomial: n < 0 or p < 0, p > 1 or p contains NaNs")

        def f():
            self.n_draws += 1
            k = self.ctx.choose(int(n) + 1, "binomial")
            q = Fraction(float(p)).limit_denominator(10**9)
            self.prob *= comb(int(n), k) * q**k * (1 - q) ** (int(n) - k)
            return k

        return self._sized(f, size)

    def np_normal(self, loc=0.0, scale=1.0, size=None):
        vals = [0.0, 1.0, -1.0]

        def z():
            self.exact = False
            self.n_draws += 1
            return vals[self.ctx.choose(len(vals), "normal")]

        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return loc + scale * self._sized(z, size)

    # -- random
    def r_random(self):
        return self.unit()

    def r_uniform(self, a, b):
        return a + (b - a) * self.unit()

    def r_randint(self, a, b):
        return a + self.below(b - a + 1)

    def r_randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        n = len(range(a, b, step))
        return a + step * self.below(n)

    def r_choice(self, seq):
        return seq[self.below(len(seq))]

    def r_choices(self, pop, weights=None, cum_weights=None, k=1):
        assert weights is None and cum_weights is None
        return [pop[self.below(len(pop))] for _ in range(k)]

    def r_sample(self, pop, k):
        pop = list(pop)
        if k > len(pop):
            raise ValueError("Sample larger than population or is negative")
        return [pop.pop(self.below(len(pop))) for _ in range(k)]

    def r_shuffle(self, x):
        self.np_shuffle(x)

    # -- RandomState-like facade
    def facade(self):
        class _RS(object):
            pass

        rs = _RS()
        for name, f in self.np_table().items():
            setattr(rs, name, f)
        return rs

    def np_table(self):
        return {
            "rand": self.np_rand,
            "random": self.np_random,
            "random_sample": self.np_random,
            "ranf": self.np_random,
            "uniform": self.np_uniform,
            "randint": self.np_randint,
            "choice": self.np_choice,
            "permutation": self.np_permutation,
            "shuffle": self.np_shuffle,
            "binomial": self.np_binomial,
            "normal": self.np_normal,
            "randn": lambda *s: self.np_normal(size=s if s else None),
            "standard_normal": lambda size=None: self.np_normal(size=size),
        }

    def py_table(self):
        return {
            "random": self.r_random,
            "uniform": self.r_uniform,
            "randint": self.r_randint,
            "randrange": self.r_randrange,
            "choice": self.r_choice,
            "choices": self.r_choices,
            "sample": self.r_sample,
            "shuffle": self.r_shuffle,
        }


@contextlib.contextmanager
def controlled(ctx, **kw):
    rng = RNG(ctx, **kw)
    saved = []
    for mod, table in ((np.random, rng.np_table()), (_random, rng.py_table())):
        for name, f in table.items():
            saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, f)
    saved.append((np.random, "RandomState", np.random.RandomState))
    saved.append((np.random, "default_rng", np.random.default_rng))
    np.random.RandomState = lambda seed=None: rng.facade()

    def default_rng(seed=None):
        fac = rng.facade()
        fac.integers = lambda low, high=None, size=None, **k: rng.np_randint(
            low, high, size
        )
        return fac

    np.random.default_rng = default_rng
    try:
        yield rng
    finally:
        for mod, name, f in reversed(saved):
            setattr(mod, name, f)
