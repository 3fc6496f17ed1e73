from .common import *


def uniform_el(p, n):
    """Clamped uniform knots of n points."""
    ad = sub(n, add(p, ONE))
    return lambda i: ite(le(i, p), ZERO, ite(lt(i, n), div(sub(i, p), add(ad, ONE)), ONE))


def g_segment(ctx):
    X = Inputs(ctx.prog)
    p = X.int_("Degree", 1, None, lambda r, e: r.choice([1, 2, 3]))
    n = X.int_("Count", add(p, ONE), None, lambda r, e: int(e.syms["Degree"]) + 1 + r.choice([0, 1, 2, 3]))
    a, b = X.vec3("a"), X.vec3("b")
    o = obj(X, NS + "GeomSegment", Degree=p, ControlPointCount=n, LeftPoint=a, RightPoint=b)
    R = call(ctx, X, NS + "GeomSegment::GetCurve", o, [])
    t = lambda i: div(i, sub(n, ONE))
    demand(ctx, "a segment becomes evenly spaced points of unit weight on clamped uniform knots", X, R, R.ret,
           {"Degree": p, "Knots": kspec(ctx, (addn(n, p, ONE),), uniform_el(p, n)),
            "ControlPoints": SArr((n,), lambda i: [add(x, mul(t(i), sub(y, x))) for x, y in zip(a.c, b.c)] + [ONE])})
    demand_throw(ctx, "a segment of a valid degree and count is never rejected", X, R, FALSE)
    demand_bounds(ctx, "segment construction stays inside its points", X, R)
    X = Inputs(ctx.prog)
    a, b = X.vec3("a"), X.vec3("b")
    R = call(ctx, X, NS + "GeomSegment::Make", None, [a, b])
    demand(ctx, "a segment keeps its two end points", X, R, R.ret, {"LeftPoint": a, "RightPoint": b})


def g_rect(ctx):
    X = Inputs(ctx.prog)
    pu = X.int_("DegreeU", 1, None, lambda r, e: r.choice([1, 2, 3]))
    pv = X.int_("DegreeV", 1, None, lambda r, e: r.choice([1, 2, 3]))
    nu = X.int_("CountU", add(pu, ONE), None, lambda r, e: int(e.syms["DegreeU"]) + 1 + r.choice([0, 1, 2, 3]))
    nv = X.int_("CountV", add(pv, ONE), None, lambda r, e: int(e.syms["DegreeV"]) + 1 + r.choice([0, 1, 2]))
    lb, rb, lt_, rt = X.vec3("lb"), X.vec3("rb"), X.vec3("lt"), X.vec3("rt")
    o = obj(X, NS + "GeomRect", DegreeU=pu, DegreeV=pv, ControlPointCountU=nu, ControlPointCountV=nv, LeftBottomPoint=lb,
            RightBottomPoint=rb, LeftTopPoint=lt_, RightTopPoint=rt)
    R = call(ctx, X, NS + "GeomRect::GetSurface", o, [])
    from .grid import view

    def cell(i, j):
        return [addn(x, mul(div(i, sub(nu, ONE)), sub(y, x)), mul(div(j, sub(nv, ONE)), sub(z, x)))
                for x, y, z in zip(lb.c, rb.c, lt_.c)] + [ONE]
    ret = R.ret
    if isinstance(ret, Struct):
        ret = ret.with_("ControlPoints", view(ret.get("ControlPoints"), nu, nv))
    demand(ctx, "a rectangle becomes the corresponding grid of evenly spaced points of unit weight, each direction with its own knots", X, R, ret,
           {"DegreeU": pu, "DegreeV": pv, "KnotsU": kspec(ctx, (addn(nu, pu, ONE),), uniform_el(pu, nu)),
            "KnotsV": kspec(ctx, (addn(nv, pv, ONE),), uniform_el(pv, nv)),
            "ControlPoints": {"UCount": nu, "VCount": nv, "size": mul(nu, nv), "cells": SArr((nu, nv), cell)}})
    demand_throw(ctx, "a rectangle of valid degrees and counts is never rejected", X, R, FALSE)
    demand_bounds(ctx, "rectangle construction stays inside its grid", X, R)
    X = Inputs(ctx.prog)
    lb, rb, lt_, rt = X.vec3("lb"), X.vec3("rb"), X.vec3("lt"), X.vec3("rt")
    R = call(ctx, X, NS + "GeomRect::Make", None, [lb, rb, lt_, rt])
    demand(ctx, "a rectangle keeps its corners", X, R, R.ret, {"LeftBottomPoint": lb, "RightBottomPoint": rb, "LeftTopPoint": lt_, "RightTopPoint": rt})


GROUPS = [g_segment, g_rect]
