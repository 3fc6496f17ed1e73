"""Derivatives of curves and surfaces: homogeneous derivatives, the quotient rule order by order, single orders."""
from math import comb
from .common import *
from .evalp import C, S, ders_row, hom_curve, hom_surface
from .steps import *
from ..contracts import binomial, objval

CURVE_ORDERS = (0, 1, 2, 3, 4)
SURFACE_ORDERS = ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2))


def need(ctx, qual, **kw):
    """A private helper that need not exist."""
    try:
        return find(ctx.prog, qual, **kw)
    except AnalysisBroken:
        return None


def quotient(A, k):
    """Point derivatives 0..k from homogeneous derivatives by the quotient rule."""
    R = []
    for n in range(k + 1):
        a = A(const(n))
        R.append([div(sub(a[c], sumup(mul(mul(const(comb(n, i)), A(const(i))[3]), R[n - i][c]) for i in range(1, n + 1))), A(ZERO)[3]) for c in range(3)])
    return R


def sumup(xs):
    t = ZERO
    for x in xs:
        t = add(t, x)
    return t


def g_curve_homo(ctx):
    q = C + "::HomogeneousDerivative"
    if need(ctx, q, nparams=2) is None:
        ctx.add("open", "homogeneous curve derivatives", C, "no such function; decided inside its callers")
        return
    X = Inputs(ctx.prog)
    c, p, n, U, P = X.curve()
    u = X.param("u", U)
    o = X.int_("order", 0, None, lambda r, e: r.choice([0, 1, 2, 3]))
    R = call(ctx, X, q, c, [u, o], opaque=BASIC)
    d = ders_row(p, U, u, o)
    demand(ctx, "homogeneous curve derivatives combine the supporting weighted points with the basis derivatives of that order", X, R, R.ret,
           SArr((add(o, ONE),), lambda k: hom_curve(p, U, P, u, lambda r: d(k, r))))
    demand_bounds(ctx, "homogeneous curve derivatives read only existing points", X, R)


def g_curve(ctx):
    """Every order by induction over the loop, low orders entry by entry."""
    X = Inputs(ctx.prog)
    c, p, n, U, P = X.curve()
    u = X.param("u", U)
    o = X.int_("order", 0, None, lambda r, e: r.choice([0, 1, 2, 3]))
    R = call(ctx, X, C + "::EvaluateAll", c, [u, o], opaque=BASIC)
    d = ders_row(p, U, u, o)
    A = lambda k: hom_curve(p, U, P, u, lambda r: d(k, r))
    rule = "curve derivatives obey the quotient rule at every order"
    demand_bounds(ctx, "curve derivatives read only existing points and orders", X, R)
    if R.ok and isinstance(R.ret, Arr):
        demand(ctx, "there are order+1 curve derivatives", X, R, R.ret.dims[0], add(o, ONE))
    step_curve(ctx, X, R, rule, o, A)
    for k in CURVE_ORDERS:
        R = call(ctx, X, C + "::EvaluateAll", c, [u, const(k)], opaque=BASIC)
        d = ders_row(p, U, u, const(k))
        A = lambda n_: hom_curve(p, U, P, u, lambda r: d(n_, r))
        Q = quotient(A, k)
        entries(ctx, "curve derivatives up to order %d" % k, X, R, R.ret, {(i,): Q[i] for i in range(k + 1)}, (const(k + 1),))


def entries(ctx, rule, X, R, v, Q, dims):
    """A table of known size, entry by entry."""
    if not R.ok or not isinstance(v, Arr):
        ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
        return
    spec, code = [], []
    for i, q in sorted(Q.items()):
        x = v.get(tuple(const(a) for a in i), R.facts0)
        code += [component(x, (c,)) for c in range(3)]
        spec += q
    demand(ctx, rule, X, R, vec(code + list(v.dims)), spec + list(dims))


def one_loop(ctx, R, rule, v):
    f = folds_in(v) if isinstance(v, Arr) else []
    if not R.ok or len(f) != 1 or f[0] is not v or not Loop(f[0]).simple() or Loop(f[0]).unsolved():
        ctx.add("open", rule, where(R.fn), R.error or "the table is not built by one loop")
        return None
    return Loop(f[0])


@induction
def step_curve(ctx, X0, R, rule, o, A):
    L = one_loop(ctx, R, rule, R.ret)
    if L is None:
        return
    X = fork(X0)
    demand(ctx, rule + ": one round per order", X, R, L.N, add(o, ONE))
    facts = round_(X, L)
    heads(X, L.head)
    F_ = R.facts0.extend(facts)
    t = L.t
    a, w0 = A(t), A(ZERO)[3]
    h = lambda i: L.head.get((sub(t, i),))
    spec = [div(sub(a[c], sumover(ONE, t, lambda i: mul(mul(binomial(t, i), A(i)[3]), component(h(i), (c,))))), w0) for c in range(3)]
    demand(ctx, rule + ": each round makes the next order from all lower ones", X, R, L.next.get((t,), F_), spec, facts=F_)
    b = X.int_("done", 0, sub(t, ONE))
    demand(ctx, rule + ": finished orders stay", X, R, L.next.get((b,), F_.extend([lt(b, t)])), list(vec_of(L.head.get((b,)))), facts=F_, pre=lt(b, t))


def vec_of(v):
    return [component(v, (c,)) for c in range(3)]


def cells(v, nu, nv):
    """A grid's entries as code(i, j), or None."""
    if not isinstance(v, Struct) or not v.has("Values") or not isinstance(v.get("Values"), Arr):
        return None
    return v.get("UCount"), v.get("VCount"), v.get("Values")


def surface_inputs(ctx):
    X = Inputs(ctx.prog)
    s, D, E, P = X.surface()
    return X, s, D, E, P, X.param("u", D[2]), X.param("v", E[2])


def hom_uv(D, E, P, u, v, ou, ov):
    du, dv = ders_row(D[0], D[2], u, ou), ders_row(E[0], E[2], v, ov)
    return lambda k, l: hom_surface(D, E, P, u, v, lambda r: du(k, r), lambda r: dv(l, r))


def grid_entries(ctx, rule, X, R, a, b, n, at):
    g = cells(R.ret, None, None) if R.ok else None
    if g is None:
        ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
        return
    nu, nv, V = g
    code, spec = [nu, nv, V.dims[0]], [const(a + 1), const(b + 1), const((a + 1) * (b + 1))]
    for k in range(a + 1):
        for l in range(b + 1):
            x = V.get((const(k + l * (a + 1)),), R.facts0)
            code += [component(x, (c,)) for c in range(n)]
            spec += at(k, l)
    demand(ctx, rule, X, R, vec(code), spec)


def g_surface_homo(ctx):
    q = S + "::HomogeneousDerivative"
    if need(ctx, q, nparams=4) is None:
        ctx.add("open", "homogeneous surface derivatives", S, "no such function; decided inside its callers")
        return
    X, s, D, E, P, u, v = surface_inputs(ctx)
    for a, b in SURFACE_ORDERS:
        R = call(ctx, X, q, s, [u, v, const(a), const(b)], opaque=BASIC)
        A = hom_uv(D, E, P, u, v, const(a), const(b))
        grid_entries(ctx, "homogeneous surface derivatives up to orders %d, %d" % (a, b), X, R, a, b, 4, lambda k, l: A(const(k), const(l)))


def quotient2(A, a, b):
    R = {}
    w = lambda i, j: A(const(i), const(j))[3]
    for k in range(a + 1):
        for l in range(b + 1):
            x = A(const(k), const(l))
            low = [(i, j) for i in range(k + 1) for j in range(l + 1) if (i, j) != (0, 0)]
            R[k, l] = [div(sub(x[c], sumup(mul(mul(const(comb(k, i) * comb(l, j)), w(i, j)), R[k - i, l - j][c]) for i, j in low)), w(0, 0)) for c in range(3)]
    return R


def g_surface(ctx):
    X, s, D, E, P, u, v = surface_inputs(ctx)
    for a, b in SURFACE_ORDERS:
        R = call(ctx, X, S + "::EvaluateAll", s, [u, v, const(a), const(b)], opaque=BASIC)
        Q = quotient2(hom_uv(D, E, P, u, v, const(a), const(b)), a, b)
        grid_entries(ctx, "surface derivatives up to orders %d, %d" % (a, b), X, R, a, b, 3, lambda k, l: Q[k, l])


def hders(I, e, st, fr):
    """Surface::HomogeneousDerivative as a symbol; g_surface_homo decides it."""
    if len(e["args"]) != 4:
        return None
    o = objval(I, e, st, fr)
    u, v, a, b = [I.topoly(I.ev(x, st, fr)) for x in e["args"]]
    nu, nv = add(a, ONE), add(b, ONE)
    g = mk(Struct, "libnurbs::Grid<Vec4>", (("UCount", nu), ("VCount", nv), ("Values", mk(AApp, "hders", (o, u, v, a, b), ("vec", 4, 1), (mul(nu, nv),)))))
    return "rv", g


def two_loops(ctx, R, rule, v, ou, ov):
    """The loops that fill a table of (ou+1) x (ov+1) entries: (outer, inner, k, l)."""
    f = folds_in(v) if isinstance(v, Arr) else []
    if not R.ok or len(f) != 1 or f[0] is not v:
        ctx.add("open", rule, where(R.fn), R.error or "the table is not built by one loop")
        return None
    O = Loop(f[0])
    g = O.next if O.simple() and not O.unsolved() else None
    I = Loop(g) if isinstance(g, AFold) else None
    if I is None or not I.simple() or I.unsolved() or I.init is not O.head:
        ctx.add("open", rule, where(R.fn), "the table is not filled by two nested loops")
        return None
    for k, l, a, b in ((O, I, ou, ov), (I, O, ou, ov)):
        if k.N is add(a, ONE) and l.N is add(b, ONE):
            return O, I, k.t, l.t
    ctx.add("open", rule, where(R.fn), "rounds of the loops not recognised")
    return None


@induction
def fill_step(ctx, X0, R, rule, v, ou, ov, n, entry, init, alt=None):
    """Every cell of the table is made once, from what entry() says, and stays."""
    t = two_loops(ctx, R, rule, v, ou, ov)
    if t is None:
        return
    O, I, k, l = t
    X = fork(X0)
    facts = round_(X, O) + round_(X, I)
    heads(X, O.head, I.head)
    F_ = R.facts0.extend(facts + [le(k, ou), le(l, ov)])
    cell = lambda a, b: add(a, mul(b, add(ou, ONE)))
    at = lambda arr, a, b, c: component(arr.get((cell(a, b),), F_), (c,))
    demand(ctx, rule + ": every round makes the cell of its own two orders", X, R, vec([at(I.next, k, l, c) for c in range(n)]), entry(k, l, lambda a, b, c: at(I.head, a, b, c), F_), facts=F_, alts=[alt(k, l)] if alt else ())
    if init:
        z = X.int_("cell", 0, sub(mul(add(ou, ONE), add(ov, ONE)), ONE))
        demand(ctx, rule + ": starts from zero", X, R, vec([component(O.init.get((z,), F_), (c,)) for c in range(n)]), [ZERO] * n, facts=F_)
    z = X.int_("other", 0, sub(mul(add(ou, ONE), add(ov, ONE)), ONE))
    pre = bnot(eq(z, cell(k, l)))
    G = F_.extend([pre])
    demand(ctx, rule + ": all other cells stay", X, R, vec([component(I.next.get((z,), G), (c,)) for c in range(n)]), [component(I.head.get((z,)), (c,)) for c in range(n)], facts=F_, pre=pre)


def g_surface_all(ctx):
    """Arbitrary orders."""
    X, s, D, E, P, u, v = surface_inputs(ctx)
    ou, ov = [X.int_(nm, 0, None, lambda r, e: r.choice([0, 1, 2])) for nm in ("ou", "ov")]
    q = S + "::HomogeneousDerivative"
    op = dict(BASIC)
    if need(ctx, q, nparams=4) is None:
        ctx.add("open", "surface derivatives at arbitrary orders", S, "no helper for homogeneous derivatives")
        return
    op[q] = hders
    R = call(ctx, X, q, s, [u, v, ou, ov], opaque=BASIC)
    A = hom_uv(D, E, P, u, v, ou, ov)
    g = cells(R.ret, None, None) if R.ok else None
    demand_bounds(ctx, "homogeneous surface derivatives read only existing points and cells", X, R)
    if g:
        demand(ctx, "the table of homogeneous surface derivatives has one cell per pair of orders", X, R, vec([g[0], g[1], g[2].dims[0]]), [add(ou, ONE), add(ov, ONE), mul(add(ou, ONE), add(ov, ONE))])
        fill_step(ctx, X, R, "homogeneous surface derivatives at every order", g[2], ou, ov, 4, lambda k, l, old, f: [add(old(k, l, c), x) for c, x in enumerate(A(k, l))], True, A)
    R = call(ctx, X, S + "::EvaluateAll", s, [u, v, ou, ov], opaque=op)
    g = cells(R.ret, None, None) if R.ok else None
    demand_bounds(ctx, "surface derivatives read only existing cells", X, R)
    if not g:
        return
    demand(ctx, "the table of surface derivatives has one cell per pair of orders", X, R, vec([g[0], g[1], g[2].dims[0]]), [add(ou, ONE), add(ov, ONE), mul(add(ou, ONE), add(ov, ONE))])
    H = mk(AApp, "hders", (s, u, v, ou, ov), ("vec", 4, 1), (mul(add(ou, ONE), add(ov, ONE)),))

    def quot(k, l, old, f):
        h = lambda i, j, c: component(H.get((add(i, mul(j, add(ou, ONE))),), f), (c,))
        bk, bl = lambda i: binomial(k, i), lambda j: binomial(l, j)
        out = []
        for c in range(3):
            x = h(k, l, c)
            x = sub(x, sumover(ONE, k, lambda i: mul(mul(bk(i), h(i, ZERO, 3)), old(sub(k, i), l, c))))
            x = sub(x, sumover(ONE, l, lambda j: mul(mul(bl(j), h(ZERO, j, 3)), old(k, sub(l, j), c))))
            x = sub(x, sumover(ONE, k, lambda i: mul(bk(i), sumover(ONE, l, lambda j: mul(mul(bl(j), h(i, j, 3)), old(sub(k, i), sub(l, j), c))))))
            out.append(div(x, h(ZERO, ZERO, 3)))
        return out
    fill_step(ctx, X, R, "surface derivatives obey the quotient rule at every pair of orders", g[2], ou, ov, 3, quot, False)


def table_of(ctx, X, qual, name):
    """The full table as a symbol."""
    def f(I, e, st, fr):
        o = objval(I, e, st, fr)
        a = [I.topoly(I.ev(x, st, fr)) for x in e["args"]]
        if len(a) == 2:
            return "rv", mk(AApp, name, (o,) + tuple(a), VEC3, (add(a[1], ONE),))
        if len(a) != 4:
            return None
        nu, nv = add(a[2], ONE), add(a[3], ONE)
        return "rv", mk(Struct, "libnurbs::Grid<Vec3>", (("UCount", nu), ("VCount", nv), ("Values", mk(AApp, name, (o,) + tuple(a), VEC3, (mul(nu, nv),)))))
    return {qual: f}


@induction
def g_single(ctx):
    """All orders, with the table as a symbol (a function that makes the derivative another way is left to g_low)."""
    X = Inputs(ctx.prog)
    c, p, n, U, P = X.curve()
    u = X.param("u", U)
    o = X.int_("order", 0)
    R = call(ctx, X, C + "::EvaluateDerivative", c, [u, o], opaque=dict(BASIC, **table_of(ctx, X, C + "::EvaluateAll", "cders")))
    T_ = mk(AApp, "cders", (c, u, o), VEC3, (add(o, ONE),))
    demand(ctx, "one curve derivative is that entry of the table", X, R, R.ret, list(T_.get((o,)).c))
    X, s, D, E, P, u, v = surface_inputs(ctx)
    a, b = X.int_("ou", 0), X.int_("ov", 0)
    R = call(ctx, X, S + "::EvaluateDerivative", s, [u, v, a, b], opaque=dict(BASIC, **table_of(ctx, X, S + "::EvaluateAll", "sders")))
    T_ = mk(AApp, "sders", (s, u, v, a, b), VEC3, (mul(add(a, ONE), add(b, ONE)),))
    demand(ctx, "one surface derivative is that entry of the table", X, R, R.ret, list(T_.get((add(a, mul(b, add(a, ONE))),)).c))


def g_low(ctx):
    X = Inputs(ctx.prog)
    c, p, n, U, P = X.curve()
    u = X.param("u", U)
    for k in CURVE_ORDERS:
        R = call(ctx, X, C + "::EvaluateDerivative", c, [u, const(k)], opaque=BASIC)
        d = ders_row(p, U, u, const(k))
        demand(ctx, "the curve derivative of order %d" % k, X, R, R.ret, quotient(lambda i: hom_curve(p, U, P, u, lambda r: d(i, r)), k)[k])
    X, s, D, E, P, u, v = surface_inputs(ctx)
    for a, b in SURFACE_ORDERS:
        R = call(ctx, X, S + "::EvaluateDerivative", s, [u, v, const(a), const(b)], opaque=BASIC)
        demand(ctx, "the surface derivative of orders %d, %d" % (a, b), X, R, R.ret, quotient2(hom_uv(D, E, P, u, v, const(a), const(b)), a, b)[a, b])


def g_binomial(ctx):
    X = Inputs(ctx.prog)
    for n in range(13):
        got, want = [], []
        for k in range(n + 3):
            R = call(ctx, X, NS + "Binomial", None, [const(n), const(k)], unroll=16)
            if not R.ok or not isinstance(R.ret, Poly):
                ctx.add("open", "binomial coefficients", where(R.fn), R.error or "result of an unknown form")
                return
            got.append(R.ret)
            want.append(const(comb(n, k)))
        demand(ctx, "binomial coefficients of %d" % n, X, R, vec(got), want)


GROUPS = [g_curve_homo, g_curve, g_surface_homo, g_surface, g_surface_all, g_single, g_low, g_binomial]
