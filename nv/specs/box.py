from .common import *

BB = NS + "BoundingBox"


def box(X, pre):
    """A box with Min <= Max."""
    lo, hi = [], []
    for i in range(3):
        a = X.real("%smin.%d" % (pre, i))
        b = X.real("%smax.%d" % (pre, i), lambda r, e, n="%smin.%d" % (pre, i): e.syms[n] + abs(rreal(r)))
        X.facts.append(le(a, b))
        lo.append(a)
        hi.append(b)
    return obj(X, BB, Min=vec(lo, 3, 1), Max=vec(hi, 3, 1)), lo, hi


def mn(a, b): return ite(le(a, b), a, b)
def mx(a, b): return ite(le(a, b), b, a)


def g_ctor(ctx):
    X = Inputs(ctx.prog)
    a, b = X.vec3("a"), X.vec3("b")
    R = call(ctx, X, BB + "::BoundingBox", None, [a, b])
    demand(ctx, "a box of two points has the smaller and the larger coordinates as corners", X, R, R.ret,
           {"Min": [mn(x, y) for x, y in zip(a.c, b.c)], "Max": [mx(x, y) for x, y in zip(a.c, b.c)]})


def g_expand_point(ctx):
    X = Inputs(ctx.prog)
    B0, lo, hi = box(X, "b")
    p = X.vec3("p")
    R = call(ctx, X, BB + "::ExpandToInclude", B0, [p], pt=["Eigen::Matrix"])
    demand(ctx, "expanding by a point yields the smallest box with the old box and the point", X, R, R.this,
           {"Min": [mn(x, y) for x, y in zip(lo, p.c)], "Max": [mx(x, y) for x, y in zip(hi, p.c)]})


def g_expand_box(ctx):
    X = Inputs(ctx.prog)
    B0, lo, hi = box(X, "b")
    B1, lo1, hi1 = box(X, "c")
    R = call(ctx, X, BB + "::ExpandToInclude", B0, [B1], pt=["BoundingBox"])
    demand(ctx, "expanding by a box yields the smallest box with both", X, R, R.this,
           {"Min": [mn(x, y) for x, y in zip(lo, lo1)], "Max": [mx(x, y) for x, y in zip(hi, hi1)]})


def near(X, name, lo, hi):
    """A point whose coordinates are often on, inside or just outside the bounds."""
    c = []
    for i in range(3):
        def ch(r, e, i=i):
            a, b = ev(lo[i], e), ev(hi[i], e)
            return r.choice([a, b, (a + b) / 2, (a + b) / 2, a, b, a - F(1, 9), b + F(1, 9)]) if r.random() < 0.9 else rreal(r)
        c.append(X.real("%s.%d" % (name, i), ch))
    return vec(c, 3, 1)


def inside(p, lo, hi):
    return band(*[band(le(l, x), le(x, h)) for x, l, h in zip(p, lo, hi)])


def g_contains(ctx):
    X = Inputs(ctx.prog)
    B0, lo, hi = box(X, "b")
    p = near(X, "p", lo, hi)
    R = call(ctx, X, BB + "::Contains", B0, [p], pt=["Eigen::Matrix"])
    demand(ctx, "a box contains a point exactly if every coordinate lies between the bounds, inclusive", X, R, R.ret, inside(p.c, lo, hi))


def g_contains_box(ctx):
    X = Inputs(ctx.prog)
    B0, lo, hi = box(X, "b")
    a = near(X, "p", lo, hi)
    hi1 = []
    for i in range(3):
        def ch(r, e, i=i):
            l, h = ev(a.c[i], e), ev(hi[i], e)
            return r.choice([h, h, max(l, h), l, h + F(1, 9)]) if h >= l else l + r.choice([0, 1])
        q = X.real("q.%d" % i, ch)
        X.facts.append(le(a.c[i], q))
        hi1.append(q)
    B1 = obj(X, BB, Min=a, Max=vec(hi1, 3, 1))
    R = call(ctx, X, BB + "::Contains", B0, [B1], pt=["BoundingBox"])
    demand(ctx, "a box contains a box exactly if both its corners lie inside", X, R, R.ret,
           band(inside(a.c, lo, hi), inside(hi1, lo, hi)))


def g_measures(ctx):
    X = Inputs(ctx.prog)
    B0, lo, hi = box(X, "b")
    R = call(ctx, X, BB + "::Center", B0, [])
    demand(ctx, "the centre is the mean of the corners", X, R, R.ret, [scale(add(x, y), F(1, 2)) for x, y in zip(lo, hi)])
    R = call(ctx, X, BB + "::Length", B0, [])
    ext = [sub(y, x) for x, y in zip(lo, hi)]
    demand(ctx, "the extents are the differences of the corners", X, R, R.ret, ext)
    R = call(ctx, X, BB + "::Volume", B0, [])
    demand(ctx, "the volume is the product of the extents", X, R, R.ret, mul(mul(ext[0], ext[1]), ext[2]))


GROUPS = [g_ctor, g_expand_point, g_expand_box, g_contains, g_contains_box, g_measures]
