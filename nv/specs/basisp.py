"""Basis functions: the triangular recurrence degree by degree, the derivative recurrence order by order."""
from .common import *
from .steps import *

BB = NS + "BSplineBasis"


def inputs(ctx):
    X = Inputs(ctx.prog)
    p = X.int_("p", 1, None, lambda r, e: r.choice([1, 2, 3, 4, 5]))
    n = X.int_("n", add(p, ONE), None, lambda r, e: int(e.syms["p"]) + 1 + r.choice([0, 1, 2, 3]))
    U = X.clamped("U", p, n)

    def pick(r, e):
        ks = e.arrays["U"]
        c = [i for i in range(int(e.syms["p"]), int(e.syms["n"])) if ks[i] < ks[i + 1]]
        return r.choice(c)
    s = X.int_("s", p, sub(n, ONE), pick)

    def at(r, e):
        ks, i = e.arrays["U"], int(e.syms["s"])
        return ks[i] + (ks[i + 1] - ks[i]) * Fraction(r.randint(0, 8), 8)
    x = X.real("x", at)
    return X, p, n, U, s, x


def diff(U, a, b):
    return sub(U.get((a,)), U.get((b,)))


def row(U, s, x, j, prev):
    """Entry i of the row of degree j from the row of degree j-1."""
    def f(i):
        a = div(mul(sub(U.get((addn(s, i, ONE),)), x), prev(i)), diff(U, addn(s, i, ONE), addn(s, ONE, i, neg(j))))
        b = div(mul(sub(x, U.get((addn(s, i, neg(j)),))), prev(sub(i, ONE))), diff(U, add(s, i), addn(s, i, neg(j))))
        return add(ite(lt(i, j), a, ZERO), ite(lt(ZERO, i), b, ZERO))
    return f


def g_basis(ctx):
    X, p, n, U, s, x = inputs(ctx)
    R = call(ctx, X, BB + "::Evaluate", None, [p, U, s, x], nparams=4)
    rule = "basis values follow the Cox-de Boor recurrence"
    if not R.ok or not isinstance(R.ret, Arr):
        ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
        return
    demand(ctx, "there are degree+1 basis values", X, R, R.ret.dims[0], add(p, ONE))
    demand_bounds(ctx, "basis evaluation reads only existing knots", X, R)
    basis_rounds(ctx, X, R, rule, p, U, s, x)


@induction
def basis_rounds(ctx, X, R, rule, p, U, s, x):
    f = folds_in(R.ret)
    if len(f) != 1 or f[0] is not R.ret:
        ctx.add("open", rule, where(R.fn), "the values are not built by one loop")
        return
    L = Loop(f[0])
    if not L.simple() or L.unsolved():
        ctx.add("open", rule, where(R.fn), "the loop has further state")
        return
    demand(ctx, rule + ": the row of degree 0 is one", X, R, L.init.get((ZERO,)), ONE)
    demand(ctx, rule + ": one round per degree", X, R, L.N, p)
    facts = round_(X, L)
    heads(X, L.head)
    j = add(L.t, ONE)
    prev = lambda i: L.head.get((i,))
    F = R.facts0.extend(facts)
    new = lam((add(j, ONE),), (i := fresh("i")), L.next.get((i,), F.extend([le(ZERO, i), le(i, j)])), ("real",))
    demand(ctx, rule + ": each round makes the row of the next degree from the span's own knots", X, R, new, SArr((add(j, ONE),), row(U, s, x, j, prev)), facts=F)


def g_table(ctx):
    X, p, n, U, s, x = inputs(ctx)
    o = X.int_("order", 0, p)
    R = call(ctx, X, BB + "::EvaluateAll", None, [p, U, s, x, o], nparams=5)
    rule = "derivative table"
    if not R.ok or not isinstance(R.ret, Arr) or len(R.ret.dims) != 2:
        ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
        return
    demand(ctx, rule + ": order+1 rows of degree+1 values", X, R, vec([R.ret.dims[0], R.ret.dims[1]]), [add(o, ONE), add(p, ONE)])
    demand_bounds(ctx, "the derivative table reads only existing knots and entries", X, R)
    table_rounds(ctx, X, R, rule, p, U, s, x, o)


@induction
def table_rounds(ctx, X, R, rule, p, U, s, x, o):
    f = [a for a in folds_in(R.ret) if len(a.dims) == 2]
    outer = f[0] if len(f) == 1 else None
    if outer is None or not Loop(outer).simple():
        ctx.add("open", rule, where(R.fn), "the rows are not built by one loop")
        return
    ret, F = cut(X, R.ret, outer, "rows")

    def scaled(k, r):
        v = fresh("k")
        return mul(ite(eq(k, ZERO), ONE, mul(p, bprod(v, ZERO, sub(k, const(2)), subn(p, ONE, v)))), F.get((k, r)))
    demand(ctx, rule + ": row k carries the factor degree*(degree-1)*...*(degree-k+1)", X, R, ret, SArr((add(o, ONE), add(p, ONE)), scaled))
    L = Loop(outer)
    tri = folds_in(L.init)
    if len(tri) != 1:
        ctx.add("open", rule, where(R.fn), "row 0 does not come from one table")
        return
    tri = tri[0]
    init, T_ = cut(X, L.init, tri, "triangle")
    demand(ctx, rule + ": row 0 holds the basis values", X, R, lam((add(p, ONE),), (i := fresh("i")), init.get((ZERO, i), R.facts0.extend([le(ZERO, i), le(i, p)])), ("real",)),
           SArr((add(p, ONE),), lambda i: T_.get((i, p))))
    triangle(ctx, X, R, tri, p, U, s, x)
    rows(ctx, X, R, L, tri, T_, p, o)


@induction
def triangle(ctx, X0, R, tri, p, U, s, x):
    """The table of all lower degrees: values in the upper triangle, knot differences below."""
    rule = "derivative table: the triangle of lower degrees"
    X = fork(X0)
    L = Loop(tri)
    if not L.simple() or L.unsolved():
        ctx.add("open", rule, where(R.fn), "the loop has further state")
        return
    demand(ctx, rule + " starts with one", X, R, L.init.get((ZERO, ZERO)), ONE)
    demand(ctx, rule + " has one column per degree", X, R, L.N, p)
    facts = round_(X, L)
    heads(X, L.head)
    t, j = L.t, add(L.t, ONE)
    F = R.facts0.extend(facts)
    col = lam((add(j, ONE),), (i := fresh("i")), L.next.get((i, j), F.extend([le(ZERO, i), le(i, j)])), ("real",))
    demand(ctx, rule + ": each round makes the column of the next degree from the span's own knots", X, R, col,
           SArr((add(j, ONE),), row(U, s, x, j, lambda i: L.head.get((i, t)))), facts=F)
    low = lam((j,), (i := fresh("i")), L.next.get((j, i), F.extend([le(ZERO, i), lt(i, j)])), ("real",))
    demand(ctx, rule + ": knot differences below the diagonal", X, R, low, SArr((j,), lambda i: diff(U, addn(s, i, ONE), addn(s, ONE, i, neg(j)))), facts=F)
    a, b = X.int_("row", 0, p), X.int_("col", 0, p)
    demand(ctx, rule + ": finished columns stay", X, R, L.next.get((a, b), F.extend([le(b, t), le(a, t)])), L.head.get((a, b)), facts=F, pre=band(le(b, t), le(a, t)))


def subn(a, *bs):
    for b in bs:
        a = sub(a, b)
    return a


@induction
def rows(ctx, X0, R, L, tri, T_, p, o):
    """Row k of column r: alternating coefficient rows, each from the previous one."""
    rule = "derivative table: higher rows"
    X = fork(X0)
    inner = [a for a in folds_in(L.next) if a is L.next]
    others = L.unsolved()
    if not inner or len(others) > 1:
        ctx.add("open", rule, where(R.fn), "a column is not built by one loop")
        return
    K = Loop(inner[0])
    ka = K.unsolved()
    if not K.simple() or len(ka) != 1 or not isinstance(ka[0].next, Arr) or len(ka[0].phi.dims) != 2 or not isinstance(ka[0].init, Arr):
        ctx.add("open", rule, where(R.fn), "the loop over the orders has further state")
        return
    A = ka[0]
    demand(ctx, rule + ": one column per basis function", X, R, L.N, add(p, ONE))
    fo = round_(X, L)
    r = L.t
    demand(ctx, rule + ": one row per order", X, R, K.N, o, facts=R.facts0.extend(fo))
    fi = round_(X, K)
    t = K.t
    k = add(t, ONE)
    F = R.facts0.extend(fo + fi)
    heads(X, L.head, K.head, A.phi)
    if isinstance(A.init, Arr):
        for h in [a for a in A.init.fv if isinstance(a, ASym) and str(a.args[0]).startswith("phi_")]:
            heads(X, h)
    demand(ctx, rule + ": the coefficients start with one", X, R, A.init.get((ZERO, ZERO)), ONE, facts=R.facts0.extend(fo))
    m = sub(t, scale(idiv(t, const(2)), 2))
    cur = lambda j: A.phi.get((m, j))
    T2 = T_
    nxt = subst(K.next, {tri: T2})
    anx = subst(A.next, {tri: T2})
    pk, rk = sub(p, k), sub(r, k)

    def coef(j):
        a = ite(lt(j, k), cur(j), ZERO)
        b = ite(lt(ZERO, j), cur(sub(j, ONE)), ZERO)
        return div(sub(a, b), T2.get((add(pk, ONE), add(rk, j))))
    j = X.int_("j", 0, p)
    live = band(le(sub(k, r), j), le(j, k), le(j, sub(p, r)))
    demand(ctx, rule + ": the coefficients of order k are the differences of those of order k-1", X, R, anx.get((sub(ONE, m), j), F.extend([live])), coef(j), facts=F, pre=live)
    mid_lo, mid_hi = ite(le(sub(k, ONE), r), ONE, sub(k, r)), ite(le(sub(k, ONE), sub(p, r)), sub(k, ONE), sub(p, r))
    val = add(add(ite(le(k, r), div(mul(cur(ZERO), T2.get((rk, pk))), T2.get((add(pk, ONE), rk))), ZERO),
                  sumover(mid_lo, mid_hi, lambda j: div(mul(sub(cur(j), cur(sub(j, ONE))), T2.get((add(rk, j), pk))), T2.get((add(pk, ONE), add(rk, j)))))),
              ite(le(r, pk), neg(div(mul(cur(sub(k, ONE)), T2.get((r, pk))), T2.get((add(pk, ONE), r)))), ZERO))
    demand(ctx, rule + ": entry (k, r) combines the coefficients with the basis values of degree p-k", X, R, nxt.get((k, r), F), val, facts=F)
    a, b = X.int_("row", 0, o), X.int_("col", 0, p)
    other = bor(ne(a, k), ne(b, r))
    demand(ctx, rule + ": other entries stay", X, R, nxt.get((a, b), F.extend([other])), K.head.get((a, b)), facts=F, pre=other)


def g_lookup(ctx):
    X = Inputs(ctx.prog)
    c, p, n, U, P = X.curve()
    x = X.param("x", U)
    o = X.int_("order", 0, p)
    K = kv(X, U)
    sp = app("span", (p, x, U), "int")
    R = call(ctx, X, BB + "::Evaluate", None, [p, K, x], nparams=3, opaque=BASIC)
    tab = mk(AApp, "ders", (p, U, sp, x, o), ("real",), (add(o, ONE), add(p, ONE)))
    b = mk(AApp, "basis", (p, U, sp, x), ("real",), (add(p, ONE),))
    demand(ctx, "looking up basis values by parameter uses the span the knot vector reports", X, R, R.ret, SArr((add(p, ONE),), lambda i: b.get((i,))))
    R = call(ctx, X, BB + "::EvaluateAll", None, [p, K, x, o], nparams=4, opaque=BASIC)
    demand(ctx, "looking up the derivative table by parameter uses the span the knot vector reports", X, R, R.ret,
           SArr((add(o, ONE), add(p, ONE)), lambda i, j: tab.get((i, j))))
    R = call(ctx, X, BB + "::EvaluateDerivative", None, [p, K, x, o], nparams=4, opaque=BASIC)
    demand(ctx, "one derivative, by parameter, is that row of the table", X, R, R.ret, SArr((add(p, ONE),), lambda i: tab.get((o, i))))
    s = X.int_("s", p, sub(n, ONE))
    tab2 = mk(AApp, "ders", (p, U, s, x, o), ("real",), (add(o, ONE), add(p, ONE)))
    R = call(ctx, X, BB + "::EvaluateDerivative", None, [p, U, s, x, o], nparams=5, opaque=BASIC)
    demand(ctx, "one derivative is that row of the table", X, R, R.ret, SArr((add(p, ONE),), lambda i: tab2.get((o, i))))


def fixed(ctx, k):
    """Inputs of degree k."""
    X = Inputs(ctx.prog)
    n = X.int_("n", k + 1, None, lambda r, e: k + 1 + r.choice([0, 1, 2, 3]))
    U = X.clamped("U", const(k), n)
    s = X.int_("s", const(k), sub(n, ONE), lambda r, e: r.choice([i for i in range(k, int(e.syms["n"])) if e.arrays["U"][i] < e.arrays["U"][i + 1]]))

    def at(r, e):
        ks, i = e.arrays["U"], int(e.syms["s"])
        return ks[i] + (ks[i + 1] - ks[i]) * Fraction(r.randint(0, 8), 8)
    return X, U, s, X.real("x", at)


def exact(U, s, x, p, k):
    """The k-th derivatives of the p+1 functions of degree p that are not zero on span s."""
    if k > p:
        return [ZERO] * (p + 1)
    if k == 0:
        N = [ONE]
        for j in range(1, p + 1):
            f = row(U, s, x, const(j), lambda i, N=N: N[int(cval(i))] if 0 <= cval(i) < len(N) else ZERO)
            N = [f(const(i)) for i in range(j + 1)]
        return N
    low = exact(U, s, x, p - 1, k - 1)
    out = []
    for i in range(p + 1):
        a = div(low[i - 1], diff(U, add(s, const(i)), add(s, const(i - p)))) if i > 0 else ZERO
        b = div(low[i], diff(U, add(s, const(i + 1)), add(s, const(i + 1 - p)))) if i < p else ZERO
        out.append(mul(const(p), sub(a, b)))
    return out


def degrees(ctx):
    return range(1, 6) if ctx.tier == "quick" else range(1, 7)


def g_values(ctx):
    """Fixed degrees, every knot vector, span and parameter."""
    for k in degrees(ctx):
        X, U, s, x = fixed(ctx, k)
        R = call(ctx, X, BB + "::Evaluate", None, [const(k), U, s, x], nparams=4, unroll=2 * k + 8)
        rule = "basis values of degree %d are those of the Cox-de Boor recurrence" % k
        if not R.ok or not isinstance(R.ret, Arr):
            ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
            continue
        V = [R.ret.get((const(i),), R.facts0) for i in range(k + 1)]
        demand(ctx, rule, X, R, vec(V + [R.ret.dims[0]]), exact(U, s, x, k, 0) + [const(k + 1)])


def g_exact(ctx):
    for k in degrees(ctx):
        X, U, s, x = fixed(ctx, k)
        for o in range(k + 3):
            R = call(ctx, X, BB + "::EvaluateAll", None, [const(k), U, s, x, const(o)], nparams=5, unroll=2 * k + 8)
            rule = "derivatives up to order %d of the basis functions of degree %d" % (o, k)
            if not R.ok or not isinstance(R.ret, Arr) or len(R.ret.dims) != 2:
                ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
                continue
            V = [R.ret.get((const(a), const(i)), R.facts0) for a in range(o + 1) for i in range(k + 1)]
            demand(ctx, rule, X, R, vec(V + list(R.ret.dims)), [y for a in range(o + 1) for y in exact(U, s, x, k, a)] + [const(o + 1), const(k + 1)])


GROUPS = [g_basis, g_table, g_lookup, g_values, g_exact]
