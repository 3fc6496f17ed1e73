"""Knot removal and degree elevation of surfaces: the curve algorithm, row by row."""
from .common import *
from .insertp import viewed, dirs
from ..contracts import ALGO, ALGO_ALL

S = NS + "Surface"


def row(P, D, E, d, o):
    """The points along direction d at position o of the other direction, as the algorithm receives them."""
    nu = D[1]
    v = fresh("i")
    i = add(v, mul(o, nu)) if d == 0 else add(o, mul(v, nu))
    x = P.get((i,))
    return lam(((D, E)[d][1],), v, vec([component(x, (c,)) for c in range(4)], 4, 1), P.shape)


def kept(O):
    return lambda i: O[2].get((i,))


def whole(D, E, P, ctx):
    """Demand: the surface as it was."""
    return {"DegreeU": D[0], "DegreeV": E[0], "KnotsU": kspec(ctx, (D[2].dims[0],), kept(D)), "KnotsV": kspec(ctx, (E[2].dims[0],), kept(E)),
            "ControlPoints": {"UCount": D[1], "VCount": E[1], "Values": SArr((mul(D[1], E[1]),), lambda i: list(P.get((i,)).c))}}


def pts(name, key, shape, n):
    return mk(AApp, name, key, shape, (n,))


def g_elevate(ctx):
    for nm, d in dirs(ctx):
        X = Inputs(ctx.prog)
        s, D, E, P = X.surface()
        t = X.int_("times", 1, None, lambda r, e: r.choice([1, 1, 2, 3, 4, 6, 9]))
        A, O = ((D, E), (E, D))[d]
        R = call(ctx, X, S + "::ElevateDegree" + nm, s, [t], opaque=ALGO)
        m = app("elev_size", (A[2], A[1], A[0], t), "int")
        K = mk(AApp, "elev_knots", (A[2], A[1], A[0], t), ("real",), (addn(m, A[0], t, ONE),))
        nu2, nv2 = ((m, E[1]), (D[1], m))[d]

        def cell(i, j):
            a, o = ((i, j), (j, i))[d]
            return list(pts("elev_points", (A[2], row(P, D, E, d, o), A[0], t), P.shape, m).get((a,)).c)
        new, old = kspec(ctx, K.dims, lambda i: K.get((i,))), kspec(ctx, (O[2].dims[0],), kept(O))
        ret = viewed(R.ret, nu2, nv2)
        other = "VU"[d]
        demand(ctx, "elevating direction %s raises that degree by the requested amount and takes the algorithm's knots" % nm, X, R, ret,
               {"Degree" + nm: add(A[0], t), "Knots" + nm: new})
        demand(ctx, "elevating direction %s leaves degree, knots and count of direction %s" % (nm, other), X, R, ret,
               {"Degree" + other: O[0], "Knots" + other: old, "ControlPoints": {"UCount": nu2, "VCount": nv2, "size": mul(nu2, nv2)}})
        demand(ctx, "elevating direction %s stores every processed row in its own place" % nm, X, R, ret, {"ControlPoints": {"cells": SArr((nu2, nv2), cell)}})
        demand_bounds(ctx, "elevating direction %s stays inside the grid" % nm, X, R)


def parts(R):
    if isinstance(R.ret, Struct) and R.ret.has("get0") and R.ret.has("get1"):
        return R.ret.get("get0"), R.ret.get("get1")
    return unknown("result"), unknown("result")


def g_remove(ctx):
    for nm, d in dirs(ctx):
        X = Inputs(ctx.prog)
        s, D, E, P = X.surface()
        A, O = ((D, E), (E, D))[d]
        u = X.param("u", A[2], True)
        t = X.int_("times", 1, None, lambda r, e: r.choice([1, 1, 2, 3, 4, 6, 9]))
        tol = X.real("tol", lambda r, e: F(r.randint(1, 50), 1000))
        other = "VU"[d]
        # all rows allow the same number
        R = call(ctx, X, S + "::RemoveKnot" + nm, s, [u, t, tol], opaque=ALGO_ALL)
        c = app("krem_all", (A[2], A[1], A[0], u, t, tol), "int")
        K = mk(AApp, "krem_knots", (A[2], u, c), ("real",), (sub(A[2].dims[0], c),))
        m = sub(A[1], c)
        nu2, nv2 = ((m, E[1]), (D[1], m))[d]

        def cell(i, j):
            a, o = ((i, j), (j, i))[d]
            return list(pts("krem_points", (A[2], row(P, D, E, d, o), A[0], u, t, tol), P.shape, m).get((a,)).c)
        new, old = kspec(ctx, K.dims, lambda i: K.get((i,))), kspec(ctx, (O[2].dims[0],), kept(O))
        ret, cnt = parts(R)
        ret = viewed(ret, nu2, nv2)
        some_ = lt(ZERO, c)
        demand(ctx, "removal in direction %s reports the count every row allowed" % nm, X, R, cnt, c, pre=some_)
        demand(ctx, "removal in direction %s reports zero if no row allowed any" % nm, X, R, cnt, ZERO, pre=eq(c, ZERO))
        demand(ctx, "removal in direction %s takes the algorithm's knots and keeps both degrees" % nm, X, R, ret,
               {"DegreeU": D[0], "DegreeV": E[0], "Knots" + nm: new}, pre=some_)
        demand(ctx, "removal in direction %s leaves knots and count of direction %s" % (nm, other), X, R, ret,
               {"Knots" + other: old, "ControlPoints": {"UCount": nu2, "VCount": nv2, "size": mul(nu2, nv2)}}, pre=some_)
        demand(ctx, "removal in direction %s stores every processed row in its own place" % nm, X, R, ret,
               {"ControlPoints": {"cells": SArr((nu2, nv2), cell)}}, pre=some_)
        demand(ctx, "removal in direction %s that removes nothing returns the surface unchanged" % nm, X, R, parts(R)[0], whole(D, E, P, ctx), pre=eq(c, ZERO))
        demand_bounds(ctx, "removal in direction %s stays inside the grid" % nm, X, R)
        # rows that disagree
        r = X.int_("r", 0, sub(O[1], ONE))
        R = call(ctx, X, S + "::RemoveKnot" + nm, s, [u, t, tol], opaque=ALGO)
        cr = lambda q: app("krem", (A[2], row(P, D, E, d, q), A[0], u, t, tol), "int")
        got, cnt = parts(R)
        for what, cond in (("in which some row allows no removal", eq(cr(r), ZERO)),
                           ("in which two neighbouring rows disagree", band(lt(r, sub(O[1], ONE)), bnot(eq(cr(r), cr(add(r, ONE))))))):
            demand(ctx, "removal in direction %s %s reports zero" % (nm, what), X, R, cnt, ZERO, pre=cond)
            demand(ctx, "removal in direction %s %s returns the surface unchanged" % (nm, what), X, R, got, whole(D, E, P, ctx), pre=cond)


GROUPS = [g_elevate, g_remove]
