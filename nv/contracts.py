"""Calls that clients see as one symbol; each callee is decided by its own obligations."""
from math import comb
from .terms import *
from . import terms as T
from .values import *
from .inputs import knot_field


def objval(I, e, st, fr):
    if e.get("arrow"):
        return I.load(st, I.ev(e["obj"], st, fr))
    return I.ev(e["obj"], st, fr)


def span(I, e, st, fr):
    o = objval(I, e, st, fr)
    if not isinstance(o, Struct) or len(e["args"]) != 2:
        return None
    p, u = I.topoly(I.ev(e["args"][0], st, fr)), I.topoly(I.ev(e["args"][1], st, fr))
    h = I.hooks.get("span")
    if h:
        h(I, e, st, p, u, o)
    return "rv", app("span", (p, u, o.get(knot_field(I.prog))), "int")


def basis(I, e, st, fr):
    if len(e["args"]) != 4:
        return None
    p, k, i, u = [I.ev(a, st, fr) for a in e["args"]]
    if not isinstance(k, Arr):
        return None
    p, i, u = I.topoly(p), I.topoly(i), I.topoly(u)
    return "rv", mk(AApp, "basis", (p, k, i, u), ("real",), (add(p, ONE),))


def ders(I, e, st, fr):
    if len(e["args"]) != 5:
        return None
    p, k, i, u, o = [I.ev(a, st, fr) for a in e["args"]]
    if not isinstance(k, Arr):
        return None
    p, i, u, o = I.topoly(p), I.topoly(i), I.topoly(u), I.topoly(o)
    return "rv", mk(AApp, "ders", (p, k, i, u, o), ("real",), (add(o, ONE), add(p, ONE)))


def binom(I, e, st, fr):
    n, k = [I.topoly(I.ev(a, st, fr)) for a in e["args"]]
    return "rv", binomial(n, k)


def binomial(n, k):
    a, b = cval(n), cval(k)
    if a is not None and b is not None and 0 <= b and a.denominator == b.denominator == 1:
        return const(comb(int(a), int(b)) if a >= 0 else 0) if b <= a else ZERO
    return app("binom", (n, k), "int")


def removal(whole):
    """KnotRemoval as symbols: t knots and points fewer. whole: the count does not depend on the points."""
    return lambda I, e, st, fr: knot_removal(I, e, st, fr, whole)


def knot_removal(I, e, st, fr, whole=False):
    a = e["args"]
    if len(a) != 6:
        return None
    rk, rp = I.lv(a[0], st, fr), I.lv(a[1], st, fr)
    d, u, n, tol = [I.topoly(I.ev(x, st, fr)) for x in a[2:]]
    kf = knot_field(I.prog)
    ks, ps = I.load(st, rk), I.load(st, rp)
    if not isinstance(ks, Struct) or not isinstance(ps, Arr):
        return None
    key = (ks.get(kf), ps, d, u, n, tol)
    t = app("krem_all", (ks.get(kf), ps.dims[0], d, u, n, tol), "int") if whole else app("krem", key, "int")
    st.facts = st.facts.extend([le(ZERO, t)])
    # the knots left over depend on the count only
    I.store_(st, rk.step("f", kf), mk(AApp, "krem_knots", (ks.get(kf), u, t), ("real",), (sub(ks.get(kf).dims[0], t),)))
    I.store_(st, rp, mk(AApp, "krem_points", key, ps.shape, (sub(ps.dims[0], t),)))
    return "rv", t


def elevation(I, e, st, fr):
    a = e["args"]
    if len(a) != 4:
        return None
    rk, rp, rd = I.lv(a[0], st, fr), I.lv(a[1], st, fr), I.lv(a[2], st, fr)
    n = I.topoly(I.ev(a[3], st, fr))
    kf = knot_field(I.prog)
    ks, ps, d = I.load(st, rk), I.load(st, rp), I.topoly(I.load(st, rd))
    if not isinstance(ks, Struct) or not isinstance(ps, Arr):
        return None
    key = (ks.get(kf), ps, d, n)
    # the number of points depends on knots, degree and times only
    m = app("elev_size", (ks.get(kf), ps.dims[0], d, n), "int")
    st.facts = st.facts.extend([le(addn(d, n, ONE), m)])
    I.store_(st, rk.step("f", kf), mk(AApp, "elev_knots", (ks.get(kf), ps.dims[0], d, n), ("real",), (addn(m, d, n, ONE),)))
    I.store_(st, rp, mk(AApp, "elev_points", key, ps.shape, (m,)))
    I.store_(st, rd, add(d, n))
    return "rv", unknown("void")


def insertion(d):
    """Surface::InsertKnotU/V(value) as one symbol; proved against its formula separately."""
    def f(I, e, st, fr):
        if len(e["args"]) != 1:
            return None
        o = objval(I, e, st, fr)
        a = e["args"][0]
        if not isinstance(o, Struct) or "span" in str(a.get("t")) or "vector" in str(a.get("t")):
            return None
        v = I.ev(a, st, fr)
        if not isinstance(v, (Poly, Ref)):
            return None
        u = I.topoly(v)
        kf = knot_field(I.prog)
        g = o.get("ControlPoints")
        if not isinstance(g, Struct) or not isinstance(g.get("Values"), Arr):
            return None
        kn = ("KnotsU", "KnotsV")[d]
        U, p = o.get(kn).get(kf), o.get(("DegreeU", "DegreeV")[d])
        nu, nv = g.get("UCount"), g.get("VCount")
        cn, m = ("UCount", "VCount")[d], (nu, nv)[d]
        P = g.get("Values")
        P2 = mk(AApp, "ins_points", (const(d), p, U, u, P, nu, nv), P.shape, (mul(add(nu, ONE), nv) if d == 0 else mul(nu, add(nv, ONE)),))
        K2 = mk(AApp, "ins_knots", (U, u), ("real",), (add(U.dims[0], ONE),))
        return "rv", o.with_(kn, o.get(kn).with_(kf, K2)).with_("ControlPoints", g.with_(cn, add(m, ONE)).with_("Values", P2))
    return f


INSERT = {"libnurbs::Surface::InsertKnotU": insertion(0), "libnurbs::Surface::InsertKnotV": insertion(1)}
BASIC = {"libnurbs::KnotVector::FindSpanIndex": span, "libnurbs::BSplineBasis::Evaluate": basis,
         "libnurbs::BSplineBasis::EvaluateAll": ders, "libnurbs::Binomial": binom}
ALGO = {"libnurbs::KnotRemoval": removal(False), "libnurbs::NurbsDegreeElevation": elevation}
ALGO_ALL = dict(ALGO, **{"libnurbs::KnotRemoval": removal(True)})
