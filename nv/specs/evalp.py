from .common import *
from .grid import view

C, S = NS + "Curve", NS + "Surface"


def hom_curve(p, U, P, u, row):
    """Homogeneous sum over the support; row(r) = basis factor r."""
    s = app("span", (p, u, U), "int")
    return [sumover(ZERO, p, lambda r, c=c: mul(row(r), homo(P, addn(s, neg(p), r), c))) for c in range(4)]


def basis_row(p, U, u):
    s = app("span", (p, u, U), "int")
    a = mk(AApp, "basis", (p, U, s, u), ("real",), (add(p, ONE),))
    return lambda r: a.get((r,))


def ders_row(p, U, u, order):
    s = app("span", (p, u, U), "int")
    a = mk(AApp, "ders", (p, U, s, u, order), ("real",), (add(order, ONE), add(p, ONE)))
    return lambda k, r: a.get((k, r))


def surf_at(nu, P, i, j, c):
    return homo(P, (add(i, mul(j, nu)),), c)


def hom_surface(D, E, P, u, v, ru, rv):
    (pu, nu, U), (pv, nv, V) = D, E
    su, sv = app("span", (pu, u, U), "int"), app("span", (pv, v, V), "int")
    out = []
    for c in range(4):
        out.append(sumover(ZERO, pv, lambda j: mul(rv(j), sumover(ZERO, pu, lambda i: mul(ru(i), surf_at(nu, P, addn(su, neg(pu), i), addn(sv, neg(pv), j), c))))))
    return out


def g_curve(ctx):
    X = Inputs(ctx.prog)
    c, p, n, U, P = X.curve()
    u = X.param("u", U)
    R = call(ctx, X, C + "::Evaluate", c, [u], opaque=BASIC)
    h = hom_curve(p, U, P, u, basis_row(p, U, u))
    demand(ctx, "a curve point is the weighted combination of the degree+1 supporting points", X, R, R.ret, [div(x, h[3]) for x in h[:3]])
    demand_bounds(ctx, "curve evaluation reads only existing points", X, R)


def g_surface(ctx):
    X = Inputs(ctx.prog)
    s, D, E, P = X.surface()
    u, v = X.param("u", D[2]), X.param("v", E[2])
    R = call(ctx, X, S + "::Evaluate", s, [u, v], opaque=BASIC)
    h = hom_surface(D, E, P, u, v, basis_row(D[0], D[2], u), basis_row(E[0], E[2], v))
    demand(ctx, "a surface point is the weighted combination of the supporting points, each direction with its own degree, knots and parameter",
           X, R, R.ret, [div(x, h[3]) for x in h[:3]])
    demand_bounds(ctx, "surface evaluation reads only existing points", X, R)


def weights(X, name, n):
    """Points whose weights often agree except one."""
    def g(rng, env):
        k = max(0, int(ev(n, env)))
        pts = [(rreal(rng), rreal(rng), rreal(rng), F(1)) for _ in range(k)]
        w = rweight(rng)
        pts = [q[:3] + (w,) for q in pts]
        if k and rng.random() < 0.7:
            i = rng.choice([0, k - 1, rng.randrange(k)])
            pts[i] = pts[i][:3] + (w + F(1, rng.choice([1, 3, 1000003])),)
        env.arrays[name] = pts
    X.gens.append(g)
    return mk(ASym, name, VEC4, (n,))


def rational_spec(P, n):
    return exists(ONE, n, lambda i: bnot(eq(P.get((i,)).c[3], P.get((ZERO,)).c[3])))


def g_rational(ctx):
    X = Inputs(ctx.prog)
    p, n = X.int_("p", 1), X.int_("n", 0, None, lambda r, e: r.choice([0, 1, 2, 3, 4, 5]))
    P = weights(X, "P", n)
    k = X.array("U", addn(n, p, ONE))
    c = obj(X, C, Degree=p, Knots=kv(X, k), ControlPoints=P)
    R = call(ctx, X, C + "::IsRational", c, [])
    demand(ctx, "a curve is rational exactly if two weights differ", X, R, R.ret, rational_spec(P, n))
    demand_bounds(ctx, "the rationality test reads only existing points", X, R)
    X = Inputs(ctx.prog)
    pu, pv = X.int_("pu", 1), X.int_("pv", 1)
    nu, nv = X.int_("nu", 1, None, lambda r, e: r.choice([1, 2, 3])), X.int_("nv", 1, None, lambda r, e: r.choice([1, 2, 3]))
    n = mul(nu, nv)
    P = weights(X, "P", n)
    ku, kv_ = X.array("U", addn(nu, pu, ONE)), X.array("V", addn(nv, pv, ONE))
    s = obj(X, S, DegreeU=pu, DegreeV=pv, KnotsU=kv(X, ku), KnotsV=kv(X, kv_), ControlPoints=X.gridval(nu, nv, P))
    R = call(ctx, X, S + "::IsRational", s, [])
    demand(ctx, "a surface is rational exactly if two weights differ", X, R, R.ret, rational_spec(P, n))
    demand_bounds(ctx, "the rationality test reads only existing points", X, R)


def g_homo(ctx):
    X = Inputs(ctx.prog)
    v = X.vec4("v")
    X.facts.append(lt(ZERO, v.c[3]))
    R = call(ctx, X, NS + "ToHomo", None, [v])
    demand(ctx, "the homogeneous form multiplies the position by the weight and keeps the weight", X, R, R.ret, [mul(x, v.c[3]) for x in v.c[:3]] + [v.c[3]])
    R = call(ctx, X, NS + "FromHomo", None, [v])
    demand(ctx, "the Cartesian form divides the position by the weight and keeps the weight", X, R, R.ret, [div(x, v.c[3]) for x in v.c[:3]] + [v.c[3]])


GROUPS = [g_curve, g_surface, g_rational, g_homo]
