"""Loops whose effect has no closed form, decided by induction: the start, the number of rounds and one round over an
arbitrary state at the head of the loop."""
from contextlib import contextmanager
from functools import wraps
from .common import *
from ..simp import tidy

_n = [0]


def folds_in(v):
    """Arrays built by unsolved loops that v depends on."""
    fs = [a for a in getattr(v, "fv", ()) if isinstance(a, AFold)]
    return sorted([a for a in fs if not any(b is not a and a in b.fv for b in fs)], key=lambda a: a.id)


@contextmanager
def shape(ctx):
    """Demands inside prove the property for all sizes if the loop is organised as expected; another organisation is left to other demands."""
    old, ctx.soft = ctx.soft, True
    try:
        yield
    finally:
        ctx.soft = old


def induction(f):
    """A group part that is all induction."""
    @wraps(f)
    def g(ctx, *a, **k):
        with shape(ctx):
            return f(ctx, *a, **k)
    return g


class Loop:
    """The loop that leaves the array `f` behind."""
    def __init__(self, f):
        self.r = FOLDS[f.args[0]]
        self.leaf = self.r["leaves"][f.args[1]]
        self.t, self.N = self.r["t"], self.r["N"]
        self.head, self.next, self.init = self.leaf.phi, self.leaf.next, self.leaf.init

    def others(self, *mine):
        """Unsolved leaves besides those."""
        own = {id(self.leaf)} | {id(l) for l in mine}
        return [l for l in self.r["leaves"].values() if l.sol is None and id(l) not in own]

    def unsolved(self):
        return [l for l in self.r["leaves"].values() if l.sol is None and l is not self.leaf]

    def simple(self):
        return self.r["E"] is FALSE and isinstance(self.next, Arr) and isinstance(self.head, ASym)


def cut(X, v, f, name=None, elem=None):
    """v with the array f replaced by an arbitrary one; returns (v, the array)."""
    _n[0] += 1
    a = X.array("%s#%d" % (name or "table", _n[0]), f.dims[0], f.shape) if len(f.dims) == 1 else table(X, "%s#%d" % (name or "table", _n[0]), f.dims)
    return subst(v, {f: a}), a


def table(X, name, dims):
    """An arbitrary two-dimensional array of nonzero numbers."""
    a = mk(ASym, name, ("real",), tuple(dims))
    X.gens.append(lambda rng, env: fill(rng, env, a))
    return a


def fill(rng, env, a):
    n = [int(ev(d, env)) for d in a.dims]
    k = a.shape[1] if a.shape[0] == "vec" else 0
    one_ = (lambda: tuple(nonzero(rng) for _ in range(k))) if k else (lambda: nonzero(rng))
    if len(n) == 1:
        env.arrays[a.args[0]] = [one_() for _ in range(max(0, n[0]))]
    else:
        env.arrays[a.args[0]] = [[one_() for _ in range(max(0, n[1]))] for _ in range(max(0, n[0]))]


def nonzero(rng):
    while True:
        v = Fraction(rng.randint(-30, 30), rng.randint(1, 6))
        if v:
            return v


def fork(X):
    import copy
    Y = copy.copy(X)
    Y.facts, Y.gens, Y.knots = list(X.facts), list(X.gens), dict(X.knots)
    return Y


def heads(X, *arrays):
    """Arbitrary contents for loop-head arrays."""
    for a in arrays:
        X.gens.append(lambda rng, env, a=a: fill(rng, env, a))


def round_(X, L, choose=None):
    """The number of the round as an input; returns the facts about it."""
    nm = single(L.t).args[0]

    def g(rng, env):
        n = int(ev(L.N, env))
        env.syms[nm] = Fraction(choose(rng, n) if choose else rng.randrange(max(1, n)))
    X.gens.append(g)
    return [le(ZERO, L.t), lt(L.t, L.N)]
