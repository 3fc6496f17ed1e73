"""Value-graph terms: polynomial normal forms over interned atoms, boolean terms, binders, substitution.

Scalars are polynomials (Laurent monomials for divisions) with rational coefficients over interned atoms, so that
algebraically equal straight-line computations have one normal form.  Booleans are normalised comparisons and
connectives.  Bound variables (sums, products, first-index searches, quantifiers) are named by nesting depth, which
makes alpha-equivalent terms identical.
"""
from fractions import Fraction
import itertools

_counter = itertools.count(1)


class Atom:
    __slots__ = ("kind", "args", "typ", "id", "fv", "depth", "taint")

    def __repr__(self):
        return show(self)


class Poly:
    __slots__ = ("terms", "id", "fv", "depth", "taint", "_int")

    def __repr__(self):
        return show(self)


class B:
    __slots__ = ("kind", "args", "id", "fv", "depth", "taint")

    def __repr__(self):
        return show(self)


_atoms, _polys, _bools = {}, {}, {}
EMPTY = frozenset()


def reset():
    pass


def _meta(args):
    fv, depth, taint = EMPTY, 0, False
    for a in args:
        if isinstance(a, (Poly, B, Atom)) or hasattr(a, "fv"):
            if a.fv:
                fv = fv | a.fv if fv else a.fv
            if a.depth > depth:
                depth = a.depth
            taint = taint or a.taint
        elif isinstance(a, tuple):
            f, d, t = _meta(a)
            if f:
                fv = fv | f
            depth = max(depth, d)
            taint = taint or t
    return fv, depth, taint


def atom(kind, args, typ):
    key = (kind, args, typ)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.typ, a.id = kind, args, typ, next(_counter)
        fv, depth, taint = _meta(args)
        if kind in ("sym",):
            fv = frozenset((a,))
        elif kind == "unk":
            taint = True
            fv = frozenset((a,))
        elif kind == "bv":
            depth = args[0]
        elif kind == "app" and args[0] == "decision":
            depth = 0       # closed
        a.fv, a.depth, a.taint = fv, depth, taint
        _atoms[key] = a
    return a


def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    key = tuple(items)
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.terms = key
        p.id = next(_counter)
        fv, depth, taint = set(), 0, False
        for m, _ in key:
            for a, _e in m:
                fv |= a.fv
                depth = max(depth, a.depth)
                taint = taint or a.taint
        p.fv, p.depth, p.taint = frozenset(fv), depth, taint
        p._int = None
        _polys[key] = p
    return p


def const(c):
    c = Fraction(c)
    return _mkpoly({(): c} if c else {})


ZERO = const(0)
ONE = const(1)


def pa(a):
    return _mkpoly({((a, 1),): Fraction(1)})


def sym(name, typ="int"):
    return pa(atom("sym", (name,), typ))


_fresh = itertools.count(1)


def fresh(prefix, typ="int"):
    return sym("%s#%d" % (prefix, next(_fresh)), typ)


def unk(reason, typ="real"):
    return pa(atom("unk", (reason, next(_fresh)), typ))


def unkb(reason):
    return batom(atom("unk", (reason, next(_fresh)), "bool"))


def is_poly(x):
    return isinstance(x, Poly)


def isint(p):
    if p._int is None:
        r = True
        for m, c in p.terms:
            if c.denominator != 1:
                r = False
                break
            for a, e in m:
                if a.typ != "int" or e < 0:
                    r = False
                    break
            if not r:
                break
        p._int = r
    return p._int


def cval(p):
    """Constant value or None."""
    if not p.terms:
        return Fraction(0)
    if len(p.terms) == 1 and p.terms[0][0] == ():
        return p.terms[0][1]
    return None


def add(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    d = dict(a.terms)
    for m, c in b.terms:
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def neg(a):
    return _mkpoly({m: -c for m, c in a.terms})


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def scale(a, c):
    c = Fraction(c)
    return _mkpoly({m: k * c for m, k in a.terms})


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    r = [(a, e) for a, e in d.items() if e]
    r.sort(key=lambda x: x[0].id)
    return tuple(r)


class TooBig(Exception):
    pass


LIMIT = 4000


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if len(a.terms) * len(b.terms) > LIMIT:
        raise TooBig()
    d = {}
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d)


def addn(*xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def power(a, n):
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def inv(p):
    c = cval(p)
    if c is not None:
        if c == 0:
            return unk("division by zero")
        return const(1 / c)
    if len(p.terms) == 1:
        m, c = p.terms[0]
        r = _mkpoly({tuple((a, -e) for a, e in m if a.kind != "inv"): 1 / c})
        for a, e in m:
            if a.kind == "inv":
                r = mul(r, power(a.args[0], e) if e > 0 else power(pa(a), -e))
        return r
    lead = p.terms[0][1]
    return scale(pa(atom("inv", (scale(p, 1 / lead),), "real")), 1 / lead)


def div(a, b):
    return mul(a, inv(b))


# ---- booleans ---------------------------------------------------------------------------------------------

def _mkb(kind, args):
    key = (kind, args)
    b = _bools.get(key)
    if b is None:
        b = B()
        b.kind, b.args, b.id = kind, args, next(_counter)
        b.fv, b.depth, b.taint = _meta(args)
        _bools[key] = b
    return b


TRUE = _mkb("true", ())
FALSE = _mkb("false", ())


def mkbool(v):
    return TRUE if v else FALSE


def batom(a):
    return _mkb("batom", (a,))


def bsym(name):
    return batom(atom("sym", (name,), "bool"))


def _gcdnorm(p, keepsign=True):
    from math import gcd
    if not p.terms:
        return p
    den = 1
    for _, c in p.terms:
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for m, c in p.terms:
        g = gcd(g, int(abs(c * den)))
    s = Fraction(den, g)
    if not keepsign and p.terms[0][1] < 0:
        s = -s
    return scale(p, s)


def lt0(p):
    c = cval(p)
    if c is not None:
        return mkbool(c < 0)
    if isint(p):
        return le0(add(p, ONE))
    return _mkb("lt", (_gcdnorm(p),))


def le0(p):
    c = cval(p)
    if c is not None:
        return mkbool(c <= 0)
    if isint(p):
        # tighten: sum a_i x_i + c <= 0
        from math import gcd, ceil
        g = 0
        c0 = Fraction(0)
        for m, c in p.terms:
            if m == ():
                c0 = c
            else:
                g = gcd(g, int(abs(c)))
        if g > 1:
            d = {m: c / g for m, c in p.terms if m != ()}
            d[()] = Fraction(ceil(c0 / g))
            p = _mkpoly(d)
        return _mkb("le", (p,))
    return _mkb("le", (_gcdnorm(p),))


def eq0(p):
    c = cval(p)
    if c is not None:
        return mkbool(c == 0)
    p = _gcdnorm(p, False)
    if isint(p) and indivisible(p):
        return FALSE
    return _mkb("eq", (p,))


def indivisible(p):
    """Whole-number terms whose common divisor does not divide the constant: never zero."""
    from math import gcd
    g, c0 = 0, 0
    for m, c in p.terms:
        if m:
            g = gcd(g, int(c))
        else:
            c0 = int(c)
    return g > 1 and c0 % g != 0


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def eq(a, b):
    return eq0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ne(a, b):
    return bnot(eq(a, b))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == "not":
        return b.args[0]
    if b.kind == "le" and isint(b.args[0]):
        return le0(sub(ONE, b.args[0]))
    if b.kind == "and":
        return bor(*[bnot(x) for x in b.args])
    if b.kind == "or":
        return band(*[bnot(x) for x in b.args])
    return _mkb("not", (b,))


def band(*bs):
    out = {}
    st = list(reversed(bs))
    while st:
        b = st.pop()
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        if b.kind == "and":
            st.extend(reversed(b.args))
            continue
        out[b.id] = b
    for b in list(out.values()):
        if bnot(b).id in out:
            return FALSE
    # absorption: x and (x or y) = x ; x and (not x or y) = x and y
    l = list(out.values())
    changed = False
    for i, b in enumerate(l):
        if b.kind == "or":
            if any(x.id in out for x in b.args):
                l[i] = TRUE
                changed = True
            else:
                rest = [x for x in b.args if bnot(x).id not in out]
                if len(rest) != len(b.args):
                    l[i] = bor(*rest)
                    changed = True
    if changed:
        return band(*l)
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    l.sort(key=lambda x: x.id)
    return _mkb("and", tuple(l))


def bor(*bs):
    out = {}
    st = list(reversed(bs))
    while st:
        b = st.pop()
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        if b.kind == "or":
            st.extend(reversed(b.args))
            continue
        out[b.id] = b
    for b in list(out.values()):
        if bnot(b).id in out:
            return TRUE
    l = list(out.values())
    changed = False
    for i, b in enumerate(l):
        if b.kind == "and":
            if any(x.id in out for x in b.args):
                l[i] = FALSE
                changed = True
            else:
                rest = [x for x in b.args if bnot(x).id not in out]
                if len(rest) != len(b.args):
                    l[i] = band(*rest)
                    changed = True
    if changed:
        return bor(*l)
    if len(l) >= 2:
        # factor common conjuncts: (a and x) or (a and y) = a and (x or y)
        sets = [set(x.id for x in (b.args if b.kind == "and" else (b,))) for b in l]
        common = set.intersection(*sets)
        if common:
            byid = {x.id: x for b in l for x in (b.args if b.kind == "and" else (b,))}
            rest = []
            for b in l:
                rest.append(band(*[x for x in (b.args if b.kind == "and" else (b,)) if x.id not in common]))
            return band(*([byid[i] for i in sorted(common)] + [bor(*rest)]))
    if not l:
        return FALSE
    if len(l) == 1:
        return l[0]
    l.sort(key=lambda x: x.id)
    return _mkb("or", tuple(l))


def implies(a, b):
    return bor(bnot(a), b)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


# ---- ite --------------------------------------------------------------------------------------------------

def restrict(p, c, val):
    """Simplifies top-level ite atoms of p whose condition is decided by (c == val)."""
    if not p.terms:
        return p
    ch = False
    out = ZERO
    nc = bnot(c)
    for m, k in p.terms:
        t = const(k)
        for a, e in m:
            if a.kind == "ite" and e > 0:
                cc = a.args[0]
                d = None
                if cc is c:
                    d = val
                elif cc is nc:
                    d = not val
                elif val and c.kind == "and":
                    if cc in c.args: d = True
                    elif bnot(cc) in c.args: d = False
                elif not val and c.kind == "or":
                    if cc in c.args: d = False
                    elif bnot(cc) in c.args: d = True
                elif val and cc.kind == "or" and c in cc.args: d = True
                elif val and cc.kind == "and" and nc in cc.args: d = False
                elif not val and cc.kind == "and" and c in cc.args: d = False
                elif not val and cc.kind == "or" and nc in cc.args: d = True
                if d is not None:
                    t = mul(t, power(restrict(a.args[1] if d else a.args[2], c, val), e))
                    ch = True
                    continue
            t = mul(t, _mkpoly({((a, e),): Fraction(1)}))
        out = add(out, t)
    return out if ch else p


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if a is b:
        return a
    if c.kind == "not":
        c, a, b = c.args[0], b, a
    elif c.kind == "le" and isint(c.args[0]):
        n = bnot(c)
        if n.id < c.id:
            c, a, b = n, b, a
    # pull out the common part
    da, db = dict(a.terms), dict(b.terms)
    common = {m: k for m, k in da.items() if db.get(m) == k}
    if common:
        cp = _mkpoly(common)
        return add(cp, ite(c, sub(a, cp), sub(b, cp)))
    if not b.terms and len(a.terms) == 1:
        m, k = a.terms[0]
        if k != 1 or len(m) > 0:
            # ite(c, k*m, 0) = k*m*ite(c,1,0) only when m is total (no division)
            if all(e > 0 for _, e in m) and not any(x.kind == "sel" for x, _ in m):
                return mul(_mkpoly({m: k}), ite(c, ONE, ZERO))
    if not a.terms and len(b.terms) >= 1 and cval(b) == 1:
        return sub(ONE, ite(c, ONE, ZERO))
    typ = "int" if isint(a) and isint(b) else "real"
    return pa(atom("ite", (c, a, b), typ))


# ---- binders ----------------------------------------------------------------------------------------------

def close(var, x):
    """Replaces the symbol var (a Poly that is a single sym) in x by the canonical bound variable; returns (bv, x')."""
    d = x.depth + 1
    bv = atom("bv", (d,), "int")
    return bv, subst(x, {single(var): pa(bv)}, nocheck=True)


def single(p):
    """The atom of a polynomial that is exactly one atom."""
    if isinstance(p, Atom):
        return p
    assert len(p.terms) == 1 and p.terms[0][1] == 1 and len(p.terms[0][0]) == 1 and p.terms[0][0][0][1] == 1, p
    return p.terms[0][0][0][0]


def is_single(p):
    return len(p.terms) == 1 and p.terms[0][1] == 1 and len(p.terms[0][0]) == 1 and p.terms[0][0][0][1] == 1


def open_(d, x, val):
    """Instantiates bound variable of depth d in x by val."""
    return _substbv(x, atom("bv", (d,), "int"), val)


def bsum(var, lo, hi, body):
    """Sum over var = lo..hi inclusive of body (0 if empty)."""
    if body is ZERO:
        return ZERO
    v = single(var)
    # linear: constants and invariant factors are pulled out
    out = ZERO
    groups = {}
    for m, k in body.terms:
        inv_, dep = [], []
        for a, e in m:
            (dep if v in a.fv else inv_).append((a, e))
        groups.setdefault(tuple(dep), {})
        key = tuple(inv_)
        groups[tuple(dep)][key] = groups[tuple(dep)].get(key, 0) + k
    for dep, invs in groups.items():
        coef = _mkpoly(invs)
        if not dep:
            out = add(out, mul(coef, count(lo, hi)))
            continue
        b = _mkpoly({dep: Fraction(1)})
        # normalise the lower bound to zero
        c0 = cval(lo)
        if c0 != 0:
            b = subst(b, {v: add(pa(v), lo)})
            h = sub(hi, lo)
        else:
            h = hi
        ch = cval(h)
        if ch is not None and ch < 0:
            continue
        if ch is not None and ch < 3:
            s = ZERO
            for i in range(int(ch) + 1):
                s = add(s, subst(b, {v: const(i)}))
            out = add(out, mul(coef, s))
            continue
        pick = indicator(b, v)
        if pick is not None:
            K, bk = pick
            out = add(out, mul(coef, ite(band(le(ZERO, K), le(K, h)), bk, ZERO)))
            continue
        if len(b.terms) != 1 or (len(b.terms) == 1 and any(v not in a.fv for a, _ in b.terms[0][0])):
            if b.terms and not (len(b.terms) == 1 and b.terms[0][0] == dep):
                out = add(out, mul(coef, bsum(pa(v), ZERO, h, b)) if len(b.terms) > 1 or v in b.fv else mul(coef, mul(b, count(ZERO, h))))
                continue
        bv, bb = close(pa(v), b)
        typ = "int" if isint(b) else "real"
        out = add(out, mul(coef, pa(atom("sum", (h, bb, bv.args[0]), typ))))
    return out


def indicator(b, v):
    """b = (v == K ? x : 0) * ...: (K, b at K), else None."""
    if len(b.terms) != 1:
        return None
    for a, e in b.terms[0][0]:
        if a.kind == "ite" and e > 0 and a.args[0].kind == "eq" and a.args[2] is ZERO:
            q = a.args[0].args[0]
            c = [k for m, k in q.terms if m == ((v, 1),)]
            if len(c) == 1 and c[0] in (1, -1) and isint(q):
                r = sub(q, scale(pa(v), c[0]))
                if v not in r.fv:
                    K = scale(r, -c[0])
                    return K, subst(b, {v: K})
    return None


def count(lo, hi):
    """max(0, hi-lo+1); the caller guarantees or proves non-negativity through trip counts (see mx0)."""
    return mx0(add(sub(hi, lo), ONE))


def mx0(p):
    c = cval(p)
    if c is not None:
        return const(max(c, 0))
    if is_single(p) and single(p).kind == "max0":
        return p
    return pa(atom("max0", (p,), "int" if isint(p) else "real"))


def bexists(var, lo, hi, body):
    """exists var in [lo, hi): body"""
    v = single(var)
    if body is FALSE:
        return FALSE
    c0 = cval(lo)
    if c0 != 0:
        body = subst(body, {v: add(pa(v), lo)})
        hi = sub(hi, lo)
        lo = ZERO
    ch = cval(hi)
    if ch is not None and ch <= 3:
        return bor(*[subst(body, {v: const(i)}) for i in range(max(0, int(ch)))])
    if v not in body.fv:
        return band(body, lt(lo, hi))
    bv, bb = close(pa(v), body)
    return batom(atom("exists", (hi, bb, bv.args[0]), "bool"))


def bforall(var, lo, hi, body):
    return bnot(bexists(var, lo, hi, bnot(body)))


def first(var, lo, hi, body):
    """Least var in [lo, hi) with body, else hi."""
    v = single(var)
    if body is FALSE:
        return hi
    if cval(lo) != 0:
        return add(lo, first(var, ZERO, sub(hi, lo), subst(body, {v: add(pa(v), lo)})))
    if v not in body.fv:
        return ite(band(body, lt(ZERO, hi)), ZERO, hi)
    bv, bb = close(pa(v), body)
    return pa(atom("first", (hi, bb, bv.args[0]), "int"))


def over(kind, var, lo, hi, body):
    """minover / maxover over var = lo..hi inclusive."""
    v = single(var)
    if cval(lo) != 0:
        body = subst(body, {v: add(pa(v), lo)})
        hi = sub(hi, lo)
    if v not in body.fv:
        return body
    bv, bb = close(pa(v), body)
    return pa(atom(kind, (hi, bb, bv.args[0]), "real"))


def bprod(var, lo, hi, body):
    """Product over var = lo..hi inclusive of body (1 if empty)."""
    v = single(var)
    if body is ONE:
        return ONE
    if cval(lo) != 0:
        return bprod(var, ZERO, sub(hi, lo), subst(body, {v: add(pa(v), lo)}))
    ch = cval(hi)
    if ch is not None and ch < 3:
        r = ONE
        for i in range(int(ch) + 1):
            r = mul(r, subst(body, {v: const(i)}))
        return r
    bv, bb = close(pa(v), body)
    return pa(atom("prod", (hi, bb, bv.args[0]), "int" if isint(body) else "real"))


BINDERS = ("sum", "prod", "first", "minover", "maxover", "exists")


def app(name, args, typ="real"):
    return pa(atom("app", (name,) + tuple(args), typ))


_sizes = {}


def size(x):
    """Number of distinct parts of a term (large ones counted up to 500)."""
    seen, todo = set(), [x]
    while todo and len(seen) < 500:
        y = todo.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, Poly):
            todo += [a for m, _ in y.terms for a, _e in m]
        elif isinstance(y, tuple):
            todo += list(y)
        elif hasattr(y, "args"):
            todo += [z for z in y.args if hasattr(z, "fv") or isinstance(z, tuple)]
    return len(seen)


def decision(c):
    """A large condition as one named decision, equal for equal conditions."""
    if c.kind == "batom" or size(c) < 60:
        return c
    if c.kind == "not":
        return bnot(decision(c.args[0]))
    return batom(atom("app", ("decision", c), "bool"))


def minmax(kind, xs):
    flat = {}
    for x in xs:
        if is_single(x) and single(x).kind == kind:
            for y in single(x).args:
                flat[y.id] = y
        else:
            flat[x.id] = x
    l = sorted(flat.values(), key=lambda x: x.id)
    cs = [cval(x) for x in l]
    if all(c is not None for c in cs):
        return const(min(cs) if kind == "min" else max(cs))
    # constants combined
    kc = [c for c in cs if c is not None]
    if len(kc) > 1:
        c = min(kc) if kind == "min" else max(kc)
        l = [x for x in l if cval(x) is None] + [const(c)]
        l.sort(key=lambda x: x.id)
    # x and x + c
    drop = set()
    for i, x in enumerate(l):
        for j, y in enumerate(l):
            if i != j and i not in drop and j not in drop:
                d = cval(sub(x, y))
                if d is not None:
                    # x = y + d
                    worse = i if ((d > 0) == (kind == "min")) else j
                    drop.add(worse)
    l = [x for i, x in enumerate(l) if i not in drop]
    if len(l) == 1:
        return l[0]
    return pa(atom(kind, tuple(l), "int" if all(isint(x) for x in l) else "real"))


def idiv(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 1:
        return a
    if ca is not None and cb is not None and cb != 0:
        q = abs(int(ca)) // abs(int(cb))
        return const(q if (ca >= 0) == (cb > 0) else -q)
    return pa(atom("idiv", (a, b), "int"))


def imod(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 1:
        return ZERO
    if ca is not None and cb is not None and cb != 0:
        return sub(a, mul(idiv(a, b), b))
    return pa(atom("imod", (a, b), "int"))


# ---- substitution -----------------------------------------------------------------------------------------

def _rebuild(a, sargs, rec):
    """Rebuilds an atom from substituted args through the smart constructors; returns Poly or B."""
    k = a.kind
    if k == "ite":
        return ite(*sargs)
    if k == "inv":
        return inv(sargs[0])
    if k == "idiv":
        return idiv(*sargs)
    if k == "imod":
        return imod(*sargs)
    if k in ("min", "max"):
        return minmax(k, sargs)
    if k == "max0":
        return mx0(sargs[0])
    if k == "sel":
        arr = sargs[0]
        if arr is a.args[0] or getattr(arr, "opaque", False):
            return pa(atom("sel", sargs, a.typ)) if a.typ != "bool" else batom(atom("sel", sargs, a.typ))
        return arr.sel(sargs[1], sargs[2])
    if k == "app":
        hook = APPHOOKS.get(a.args[0])
        if hook:
            return hook(*sargs[1:])
    x = atom(k, sargs, a.typ)
    return batom(x) if a.typ == "bool" else pa(x)


APPHOOKS = {}


def subst(x, m, nocheck=False):
    """Capture-avoiding substitution of symbols (Atom -> Poly/B) and array symbols (ASym -> Arr)."""
    if not m:
        return x
    keys = set(m.keys())
    memo = {}

    def rec(y):
        if isinstance(y, tuple):
            return tuple(rec(z) for z in y)
        if not hasattr(y, "fv"):
            return y
        if not (y.fv & keys):
            return y
        r = memo.get(id(y))
        if r is not None:
            return r[1]
        r = rec1(y)
        memo[id(y)] = (y, r)
        return r

    def rec_atom(a):
        if a in m:
            return m[a]
        if a.kind in BINDERS:
            # open with a fresh variable, substitute, close again
            hi, body, d = a.args
            f = fresh("b")
            nb = rec(open_(d, body, f))
            nh = rec(hi)
            if a.kind == "sum":
                return bsum(f, ZERO, nh, nb)
            if a.kind == "exists":
                return bexists(f, ZERO, nh, nb)
            if a.kind == "first":
                return first(f, ZERO, nh, nb)
            if a.kind in ("minover", "maxover"):
                return over(a.kind, f, ZERO, nh, nb)
            if a.kind == "prod":
                return bprod(f, ZERO, nh, nb)
            bv, bb = close(f, nb)
            return pa(atom(a.kind, (nh, bb, bv.args[0]), a.typ))
        return _rebuild(a, tuple(rec(z) for z in a.args), rec)

    def rec1(y):
        if isinstance(y, Poly):
            out = ZERO
            for mono, c in y.terms:
                t = const(c)
                for a, e in mono:
                    if a.fv & keys:
                        s = memo.get(id(a))
                        if s is None:
                            s = (a, rec_atom(a))
                            memo[id(a)] = s
                        s = s[1]
                        t = mul(t, power(s, e) if e > 0 else power(inv(s), -e))
                    else:
                        t = mul(t, _mkpoly({((a, e),): Fraction(1)}))
                out = add(out, t)
            return out
        if isinstance(y, B):
            k = y.kind
            if k == "batom":
                r = rec_atom(y.args[0])
                return r
            if k == "not":
                return bnot(rec(y.args[0]))
            if k == "and":
                return band(*[rec(z) for z in y.args])
            if k == "or":
                return bor(*[rec(z) for z in y.args])
            if k == "lt":
                return lt0(rec(y.args[0]))
            if k == "le":
                return le0(rec(y.args[0]))
            if k == "eq":
                return eq0(rec(y.args[0]))
            return y
        if isinstance(y, Atom):
            return rec_atom(y)
        return y.subst_(m, rec)
    return rec(x)


def _substbv(x, bv, val):
    """Replaces a canonical bound variable (free in x because its binder was just removed)."""
    memo = {}
    d = bv.args[0]

    def rec(y):
        if isinstance(y, tuple):
            return tuple(rec(z) for z in y)
        if not hasattr(y, "fv"):
            return y
        if y.depth < d:
            return y
        r = memo.get(id(y))
        if r is not None:
            return r[1]
        r = rec1(y)
        memo[id(y)] = (y, r)
        return r

    def rec_atom(a):
        if a is bv:
            return val
        if a.depth < d:
            return pa(a) if a.typ != "bool" else batom(a)
        if a.kind in BINDERS:
            hi, body, dd = a.args
            nh = rec(hi)
            if dd == d:
                # inner binder of the same depth shadows; cannot contain our bv
                nb = body
                x2 = atom(a.kind, (nh, nb, dd), a.typ)
                return batom(x2) if a.typ == "bool" else pa(x2)
            f = fresh("b")
            nb = rec(_substbv(body, atom("bv", (dd,), "int"), f))
            return {"sum": lambda: bsum(f, ZERO, nh, nb), "exists": lambda: bexists(f, ZERO, nh, nb),
                    "first": lambda: first(f, ZERO, nh, nb), "prod": lambda: bprod(f, ZERO, nh, nb), "minover": lambda: over("minover", f, ZERO, nh, nb),
                    "maxover": lambda: over("maxover", f, ZERO, nh, nb)}[a.kind]()
        return _rebuild(a, tuple(rec(z) for z in a.args), rec)

    def rec1(y):
        if isinstance(y, Poly):
            out = ZERO
            for mono, c in y.terms:
                t = const(c)
                for a, e in mono:
                    if a.depth >= d:
                        s = rec_atom(a)
                        t = mul(t, power(s, e) if e > 0 else power(inv(s), -e))
                    else:
                        t = mul(t, _mkpoly({((a, e),): Fraction(1)}))
                out = add(out, t)
            return out
        if isinstance(y, B):
            k = y.kind
            if k == "batom":
                return rec_atom(y.args[0])
            if k == "not":
                return bnot(rec(y.args[0]))
            if k == "and":
                return band(*[rec(z) for z in y.args])
            if k == "or":
                return bor(*[rec(z) for z in y.args])
            return {"lt": lt0, "le": le0, "eq": eq0}[k](rec(y.args[0])) if k in ("lt", "le", "eq") else y
        if isinstance(y, Atom):
            return rec_atom(y)
        return y.substbv_(rec)
    return rec(x)


def atoms_of(x, pred, out=None, seen=None):
    """All atoms (deep) satisfying pred."""
    if out is None:
        out, seen = {}, set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not hasattr(y, "fv") or id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, Poly):
            for m, _ in y.terms:
                for a, _e in m:
                    st.append(a)
        elif isinstance(y, B):
            st.extend(y.args)
        elif isinstance(y, Atom):
            if pred(y):
                out[y.id] = y
            st.extend(y.args)
        else:
            st.extend(y.parts())
    return out


# ---- zero test --------------------------------------------------------------------------------------------

def is_zero(p, depth=0):
    """True if p normalises to zero after clearing denominators."""
    if not p.terms:
        return True
    if depth > 6:
        return False
    invs = {}
    negs = {}
    for m, c in p.terms:
        for a, e in m:
            if a.kind == "inv":
                invs[a] = max(invs.get(a, 0), e)
            elif e < 0:
                negs[a] = min(negs.get(a, 0), e)
    if not invs and not negs:
        return False
    if invs:
        a = max(invs, key=lambda z: z.id)
        k = invs[a]
        out = ZERO
        try:
            for m, c in p.terms:
                e = 0
                rest = []
                for b, be in m:
                    if b is a:
                        e = be
                    else:
                        rest.append((b, be))
                out = add(out, mul(_mkpoly({tuple(rest): c}), power(a.args[0], k - e)))
        except TooBig:
            return False
        return is_zero(out, depth + 1)
    f = _mkpoly({tuple(sorted(((a, -e) for a, e in negs.items()), key=lambda x: x[0].id)): Fraction(1)})
    return is_zero(mul(p, f), depth + 1)


# ---- printing ---------------------------------------------------------------------------------------------

def show(x, depth=0):
    if depth > 12:
        return "..."
    s = lambda y: show(y, depth + 1)
    if isinstance(x, Poly):
        if not x.terms:
            return "0"
        out = []
        for m, c in x.terms:
            f = []
            for a, e in m:
                f.append(s(a) + ("^%d" % e if e != 1 else ""))
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append("*".join(f))
            elif c == -1:
                out.append("-" + "*".join(f))
            else:
                out.append("%s*%s" % (c, "*".join(f)))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if isinstance(x, Atom):
        k, a = x.kind, x.args
        if k == "sym":
            return a[0]
        if k == "bv":
            return "$%d" % a[0]
        if k == "sel":
            return "%s[%s]%s" % (s(a[0]), ",".join(s(i) for i in a[1]), "" if a[2] is None else "." + str(a[2]))
        if k == "ite":
            return "(%s ? %s : %s)" % tuple(s(y) for y in a)
        if k == "inv":
            return "1/%s" % s(a[0])
        if k in BINDERS:
            return "%s($%d<=%s: %s)" % (k, a[2], s(a[0]), s(a[1]))
        if k == "app":
            return "%s(%s)" % (a[0], ", ".join(s(y) if hasattr(y, "fv") else str(y) for y in a[1:]))
        if k == "unk":
            return "?%s#%s" % (a[0], a[1] if len(a) > 1 else "")
        return "%s(%s)" % (k, ", ".join(s(y) if hasattr(y, "fv") else str(y) for y in a))
    if isinstance(x, B):
        k, a = x.kind, x.args
        if k in ("true", "false"):
            return k
        if k == "batom":
            return s(a[0])
        if k == "not":
            return "!" + s(a[0])
        if k in ("and", "or"):
            return "(" + (" & " if k == "and" else " | ").join(s(y) for y in a) + ")"
        return "%s %s 0" % (s(a[0]), {"lt": "<", "le": "<=", "eq": "=="}[k])
    return repr(x)
