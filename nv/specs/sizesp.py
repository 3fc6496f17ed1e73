"""Sizes of results: knots = points + degree + 1 in each direction, grids store columns times rows points, counts as asked for."""
from .common import *
from . import shapes
from ..contracts import ALGO, ALGO_ALL
from .rowsp import parts

C, S = NS + "Curve", NS + "Surface"


def length(ctx, v, name):
    a = v.get(name)
    if isinstance(a, Struct):
        a = a.get(knot_field(ctx.prog))
    return a.dims[0] if isinstance(a, Arr) else unknown("size")


def curve_size(ctx, rule, X, R, v, degree=None, extra=ZERO, n=None, pre=TRUE):
    """Consistent, of that degree, with so many more points."""
    if not R.ok or not isinstance(v, Struct):
        ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
        return
    k, m, d = length(ctx, v, "Knots"), length(ctx, v, "ControlPoints"), v.get("Degree")
    code, spec = [sub(k, addn(m, d, ONE)) if isinstance(k, Poly) and isinstance(m, Poly) and isinstance(d, Poly) else unknown("size")], [ZERO]
    if degree is not None:
        code.append(d)
        spec.append(degree)
    if n is not None:
        code.append(m)
        spec.append(add(n, extra))
    demand(ctx, rule, X, R, vec(code), spec, pre=pre, kind="size")


def sheet_size(ctx, rule, X, R, v, degrees=None, counts=None, pre=TRUE):
    if not R.ok or not isinstance(v, Struct) or not v.has("ControlPoints") or not isinstance(v.get("ControlPoints"), Struct):
        ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
        return
    g = v.get("ControlPoints")
    nu, nv, m = g.get("UCount"), g.get("VCount"), length(ctx, g, "Values")
    du, dv, ku, kv_ = v.get("DegreeU"), v.get("DegreeV"), length(ctx, v, "KnotsU"), length(ctx, v, "KnotsV")
    if not all(isinstance(x, Poly) for x in (nu, nv, m, du, dv, ku, kv_)):
        ctx.add("open", rule, where(R.fn), "sizes of an unknown form")
        return
    code, spec = [sub(ku, addn(nu, du, ONE)), sub(kv_, addn(nv, dv, ONE)), sub(m, mul(nu, nv))], [ZERO] * 3
    if degrees:
        code += [du, dv]
        spec += list(degrees)
    if counts:
        code += [nu, nv]
        spec += list(counts)
    demand(ctx, rule, X, R, vec(code), spec, pre=pre, kind="size")


def g_all_sizes(ctx):
    """Objects of every size."""
    X = Inputs(ctx.prog)
    c, p, n, U, P = X.curve()
    u = X.param("u", U, True)
    R = call(ctx, X, C + "::InsertKnot", c, [u], opaque=BASIC, pt=["double"])
    curve_size(ctx, "a curve with a knot inserted has one knot and one point more", X, R, R.ret, p, ONE, n)
    for nm, d in (("U", 0), ("V", 1)):
        X = Inputs(ctx.prog)
        s, D, E, P = X.surface()
        u = X.param("u", (D, E)[d][2], True)
        R = call(ctx, X, S + "::InsertKnot" + nm, s, [u], opaque=BASIC, pt=["double"])
        counts = [add(D[1], ONE) if d == 0 else D[1], add(E[1], ONE) if d == 1 else E[1]]
        sheet_size(ctx, "a surface with a knot inserted in direction %s has one knot and one column or row more" % nm, X, R, R.ret, (D[0], E[0]), counts)
    X = Inputs(ctx.prog)
    c, p, n, U, P = X.curve()
    R = call(ctx, X, C + "::Transform", c, [X.mat3("R")], opaque=BASIC)
    curve_size(ctx, "a transformed curve keeps its sizes", X, R, R.ret, p, ZERO, n)
    X = Inputs(ctx.prog)
    s, D, E, P = X.surface()
    R = call(ctx, X, S + "::Transform", s, [X.mat3("R")], opaque=BASIC)
    sheet_size(ctx, "a transformed surface keeps its sizes", X, R, R.ret, (D[0], E[0]), (D[1], E[1]))


def g_align_sizes(ctx):
    X = Inputs(ctx.prog)
    s, D, E, P = X.surface()
    R = call(ctx, X, S + "::AlignParameterDomain", s, [X.int_("u_axis", 0, 2), X.int_("v_axis", 0, 2)], opaque=BASIC)
    sheet_size(ctx, "an aligned surface is consistent", X, R, R.ret)


def g_primitive_sizes(ctx):
    X = Inputs(ctx.prog)
    p = X.int_("Degree", 1, None, lambda r, e: r.choice([1, 2, 3]))
    n = X.int_("Count", add(p, ONE), None, lambda r, e: int(e.syms["Degree"]) + 1 + r.choice([0, 1, 2, 3]))
    o = obj(X, NS + "GeomSegment", Degree=p, ControlPointCount=n, LeftPoint=X.vec3("a"), RightPoint=X.vec3("b"))
    R = call(ctx, X, NS + "GeomSegment::GetCurve", o, [])
    curve_size(ctx, "a segment has the requested degree and number of points", X, R, R.ret, p, ZERO, n)
    X = Inputs(ctx.prog)
    pu = X.int_("DegreeU", 1, None, lambda r, e: r.choice([1, 2, 3]))
    pv = X.int_("DegreeV", 1, None, lambda r, e: r.choice([1, 2, 3]))
    nu = X.int_("CountU", add(pu, ONE), None, lambda r, e: int(e.syms["DegreeU"]) + 1 + r.choice([0, 1, 2, 3]))
    nv = X.int_("CountV", add(pv, ONE), None, lambda r, e: int(e.syms["DegreeV"]) + 1 + r.choice([0, 1, 2]))
    o = obj(X, NS + "GeomRect", DegreeU=pu, DegreeV=pv, ControlPointCountU=nu, ControlPointCountV=nv, LeftBottomPoint=X.vec3("lb"),
            RightBottomPoint=X.vec3("rb"), LeftTopPoint=X.vec3("lt"), RightTopPoint=X.vec3("rt"))
    R = call(ctx, X, NS + "GeomRect::GetSurface", o, [])
    sheet_size(ctx, "a rectangle has the requested degrees and numbers of points", X, R, R.ret, (pu, pv), (nu, nv))


def g_row_sizes(ctx):
    """Surface removal and elevation, the curve algorithm a symbol that keeps its own contract."""
    for nm, d in (("U", 0), ("V", 1)):
        X = Inputs(ctx.prog)
        s, D, E, P = X.surface()
        t = X.int_("times", 1, None, lambda r, e: r.choice([1, 1, 2, 3, 4, 6, 9]))
        A, O = ((D, E), (E, D))[d]
        R = call(ctx, X, S + "::ElevateDegree" + nm, s, [t], opaque=ALGO)
        m = app("elev_size", (A[2], A[1], A[0], t), "int")
        sheet_size(ctx, "a surface elevated in direction %s is consistent, its degree raised by the requested amount" % nm, X, R, R.ret,
                   ((add(D[0], t), E[0]), (D[0], add(E[0], t)))[d], ((m, E[1]), (D[1], m))[d])
        X = Inputs(ctx.prog)
        s, D, E, P = X.surface()
        A, O = ((D, E), (E, D))[d]
        u = X.param("u", A[2], True)
        t = X.int_("times", 1, None, lambda r, e: r.choice([1, 1, 2, 3, 4, 6, 9]))
        tol = X.real("tol", lambda r, e: F(r.randint(1, 50), 1000))
        R = call(ctx, X, S + "::RemoveKnot" + nm, s, [u, t, tol], opaque=ALGO_ALL)
        c = app("krem_all", (A[2], A[1], A[0], u, t, tol), "int")
        m = sub(A[1], c)
        got, cnt = parts(R)
        for pre, what in ((lt(ZERO, c), "some"), (eq(c, ZERO), "no")):
            sheet_size(ctx, "a surface with %s knots removed in direction %s is consistent" % (what, nm), X, R, got, (D[0], E[0]),
                       ((m, E[1]), (D[1], m))[d] if what == "some" else (D[1], E[1]), pre=pre)
        r = X.int_("r", 0, sub(O[1], ONE))
        R = call(ctx, X, S + "::RemoveKnot" + nm, s, [u, t, tol], opaque=ALGO)
        sheet_size(ctx, "a surface whose rows allow different removals in direction %s is consistent" % nm, X, R, parts(R)[0], (D[0], E[0]))


def only_sizes(g):
    def f(ctx):
        ctx.pick = "size"
        try:
            g(ctx)
        finally:
            ctx.pick = None
    f.__name__ = g.__name__ + "_sizes"
    return f


g_elevate_fixed, g_remove_fixed, g_bezier_fixed, g_insert_fixed = [only_sizes(g) for g in shapes.CURVES]
g_sheet_insert_fixed, g_sheet_elevate_fixed, g_sheet_remove_fixed = [only_sizes(g) for g in (shapes.g_sheet_insert, shapes.g_sheet_elevate, shapes.g_sheet_remove)]
GROUPS = [g_all_sizes, g_align_sizes, g_primitive_sizes, g_row_sizes, g_elevate_fixed, g_remove_fixed, g_bezier_fixed, g_insert_fixed, g_sheet_insert_fixed,
          g_sheet_elevate_fixed, g_sheet_remove_fixed]
