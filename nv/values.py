"""Structured abstract values: fixed vectors, records, arrays as update chains, references, iterators, closures."""
from fractions import Fraction
from .terms import *
from . import terms as T

_values = {}


class Value:
    __slots__ = ("args", "id", "fv", "depth", "taint", "_dims")
    opaque = False

    def parts(self):
        return self.args

    def bound(self):
        return EMPTY

    def map_(self, f):
        return mk(type(self), *[f(a) for a in self.args])

    def subst_(self, m, rec):
        return self.map_(rec)

    def substbv_(self, rec):
        return self.map_(rec)

    def __repr__(self):
        return "%s%r" % (type(self).__name__, tuple(self.args))


def mk(cls, *args):
    key = (cls, args)
    v = _values.get(key)
    if v is None:
        v = cls()
        v.args = args
        v.id = next(T._counter)
        fv, d, t = T._meta(args)
        v.fv, v.depth, v.taint = fv, d, t
        v._dims = None
        b = v.bound()
        if b:
            v.fv = v.fv - b
        v.init()
        _values[key] = v
    return v


class Vec(Value):
    """Fixed-size Eigen matrix; args = (rows, cols, comps row-major)."""
    def init(self): pass
    rows = property(lambda s: s.args[0])
    cols = property(lambda s: s.args[1])
    c = property(lambda s: s.args[2])
    def __repr__(self): return "<" + ", ".join(map(repr, self.c)) + ">"


def vec(comps, rows=None, cols=1):
    comps = tuple(comps)
    return mk(Vec, rows if rows is not None else len(comps) // cols, cols, comps)


class Struct(Value):
    """args = (cls, ((field, value), ...))"""
    def init(self): pass
    cls = property(lambda s: s.args[0])
    fields = property(lambda s: dict(s.args[1]))
    def get(self, f):
        for n, v in self.args[1]:
            if n == f:
                return v
        raise KeyError(f)
    def has(self, f):
        return any(n == f for n, _ in self.args[1])
    def with_(self, f, v):
        if not self.has(f):
            return mk(Struct, self.cls, self.args[1] + ((f, v),))
        return mk(Struct, self.cls, tuple((n, v if n == f else o) for n, o in self.args[1]))
    def __repr__(self): return "{%s %s}" % (self.cls.split("::")[-1], ", ".join("%s=%r" % x for x in self.args[1]))


def struct(cls, **fields):
    return mk(Struct, cls, tuple(fields.items()))


class Str(Value):
    """String value: ('lit', s) or ('atom', name) or ('cat', a, b) ..."""
    def init(self): pass
    def __repr__(self): return "str%r" % (self.args,)


class Opaque(Value):
    """An object the domain does not interpret (streams, exceptions, ...): (kind, id)"""
    def init(self): pass


class Unknown(Value):
    """No information: (reason, id)"""
    def init(self):
        self.taint = True


def unknown(reason):
    return mk(Unknown, reason, next(T._fresh))


# ---- shapes -----------------------------------------------------------------------------------------------
# ('real',) ('int',) ('bool',) ('vec', r, c) ('struct', cls, ((f, shape),...)) ('arr', shape, ndim) ('str',) ('opaque', name)

def shape_of(v):
    if isinstance(v, Poly):
        return ("int",) if isint(v) else ("real",)
    if isinstance(v, B):
        return ("bool",)
    if isinstance(v, Vec):
        return ("vec", v.rows, v.cols)
    if isinstance(v, Struct):
        return ("struct", v.cls, tuple((n, shape_of(x)) for n, x in v.args[1]))
    if isinstance(v, Arr):
        return ("arr", v.shape, len(v.dims))
    if isinstance(v, Str):
        return ("str",)
    return ("opaque", type(v).__name__)


def build_leaf(arr, idx, shape, path):
    """Value of an element of an opaque array."""
    k = shape[0]
    if k in ("real", "int"):
        return pa(atom("sel", (arr, idx, path or None), k))
    if k == "bool":
        return batom(atom("sel", (arr, idx, path or None), "bool"))
    if k == "vec":
        return vec([pa(atom("sel", (arr, idx, path + (i,)), "real")) for i in range(shape[1] * shape[2])], shape[1], shape[2])
    if k == "struct":
        return mk(Struct, shape[1], tuple((n, build_leaf(arr, idx, s, path + (n,))) for n, s in shape[2]))
    if k == "arr":
        return mk(ANest, arr, idx, path, shape[1], shape[2])
    if k == "str":
        return mk(Str, "sel", arr, idx, path)
    return mk(Unknown, "element", arr, idx, path)


def component(v, path):
    """Leaf of a value along a component path (as used in sel atoms)."""
    if not path:
        return v
    h = path[0]
    if isinstance(v, Vec):
        return v.c[h]
    if isinstance(v, Struct):
        return component(v.get(h), path[1:])
    if isinstance(v, Arr):
        if isinstance(h, str) and h.startswith("dim"):
            return v.dims[int(h[3:])]
        # nested array element: ('at', idxtuple)
        return component(v.get(h[1], None), path[1:])
    if isinstance(v, Unknown):
        return unk("component of unknown")
    return unk("component")


def vite(c, a, b):
    """Gated join of two values."""
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if isinstance(a, Vec) and isinstance(b, Vec) and (a.rows, a.cols) == (b.rows, b.cols):
        return vec([ite(c, x, y) for x, y in zip(a.c, b.c)], a.rows, a.cols)
    if isinstance(a, Struct) and isinstance(b, Struct):
        fa, fb = a.fields, b.fields
        if set(fa) == set(fb):
            return mk(Struct, a.cls, tuple((n, vite(c, fa[n], fb[n])) for n, _ in a.args[1]))
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims):
        return mk(AIte, c, a, b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return mk(RefIte, c, a, b)
    if isinstance(a, Iter) and isinstance(b, Iter) and a.args[0] is b.args[0]:
        return mk(Iter, a.args[0], ite(c, a.args[1], b.args[1]))
    if isinstance(a, Str) and isinstance(b, Str):
        return mk(Str, "ite", c, a, b)
    if isinstance(a, Unknown) and a.args[0] == "uninit" and isinstance(b, Value):
        return mk(Unknown, "uninit-or", c, b)
    # something unknown on one side only: known there, unknown components here
    if isinstance(a, Unknown) and isinstance(b, Struct):
        return vite(c, like(b, a), b)
    if isinstance(b, Unknown) and isinstance(a, Struct):
        return vite(c, a, like(a, b))
    return unknown("join")


def like(v, u):
    """A value of v's structure with unknown parts."""
    if isinstance(v, Struct):
        return mk(Struct, v.cls, tuple((n, like(x, u)) for n, x in v.args[1]))
    if isinstance(v, Vec):
        return vec([T.unk("part of an unknown value", "real") for _ in v.c], v.rows, v.cols)
    if isinstance(v, Poly):
        return T.unk("part of an unknown value", "int" if isint(v) else "real")
    if isinstance(v, B):
        return T.unkb("part of an unknown value")
    return unknown("part")


# ---- arrays -----------------------------------------------------------------------------------------------

class Ctx:
    """Minimal context; the interpreter's contexts know the path facts."""
    def decide(self, b):
        return True if b is TRUE else False if b is FALSE else None
    def idiv(self, a, b): return idiv(a, b)
    def imod(self, a, b): return imod(a, b)


NOCTX = Ctx()


class Arr(Value):
    """Abstract array; dims = tuple of Poly, get(idx) -> Value"""
    def init(self): pass
    @property
    def dims(self):
        if self._dims is None:
            self._dims = self.calc_dims()
        return self._dims
    def get(self, idx, ctx=None):
        raise NotImplementedError
    def sel(self, idx, comp):
        v = self.get(idx, NOCTX)
        return component(v, comp or ())


class ASym(Arr):
    """Input array: (name, shape, dims)"""
    opaque = True
    def init(self):
        self.fv = self.fv | frozenset((self,))
    shape = property(lambda s: s.args[1])
    def calc_dims(self): return self.args[2]
    def get(self, idx, ctx=None): return build_leaf(self, idx, self.shape, ())
    def subst_(self, m, rec):
        if self in m:
            return m[self]
        return self.map_(rec)
    def __repr__(self): return self.args[0]


class AUnk(Arr):
    """Array of unknown content (known dims possible): (reason, id, shape, dims, kind)"""
    opaque = True
    def init(self):
        self.taint = True
    shape = property(lambda s: s.args[2])
    def calc_dims(self): return self.args[3]
    def get(self, idx, ctx=None): return build_leaf(self, idx, self.shape, ())
    def __repr__(self): return "?%s#%s" % (self.args[0], self.args[1])


class ARec(Arr):
    """Self-referential array (its elements are defined by a recurrence): (id, shape, dims); see RECS."""
    opaque = True
    shape = property(lambda s: s.args[1])
    def calc_dims(self): return self.args[2]
    def get(self, idx, ctx=None): return build_leaf(self, idx, self.shape, ())
    def __repr__(self): return "rec%s" % (self.args[0],)


RECS = {}   # id -> ALoop defining it


class AFold(Arr):
    """Final value of an array leaf of an unsolved loop: (loop id, leaf, shape, dims, what it depends on)"""
    opaque = True
    shape = property(lambda s: s.args[2])
    def init(self):
        self.taint = True
        self.fv = self.fv | frozenset((self,))
    def subst_(self, m, rec):
        return m[self] if self in m else self.map_(rec)
    def calc_dims(self): return self.args[3]
    def get(self, idx, ctx=None): return build_leaf(self, idx, self.shape, ())
    def __repr__(self): return "fold%s" % (self.args[:2],)


FOLDS = {}  # loop id -> record


class ANest(Arr):
    """Array nested in an opaque array's element: (arr, idx, path, shape, ndim)"""
    opaque = True
    shape = property(lambda s: s.args[3])
    def calc_dims(self):
        a, i, p, s, n = self.args
        return tuple(pa(atom("sel", (a, i, p + ("dim%d" % k,)), "int")) for k in range(n))
    def get(self, idx, ctx=None):
        a, i, p, s, n = self.args
        return build_leaf(a, i, s, p + (("at", idx),))
    def map_(self, f):
        a, i, p, s, n = self.args
        na, ni, np = f(a), f(i), f(p)
        if na is a and ni is i and np is p:
            return self
        if getattr(na, "opaque", False):
            return mk(ANest, na, ni, np, s, n)
        return component(na.get(ni, NOCTX), np)
    def __repr__(self): return "%r[%r]%r" % self.args[:3]


class AFill(Arr):
    """(dims, value, element shape)"""
    shape = property(lambda s: s.args[2])
    def calc_dims(self): return self.args[0]
    def get(self, idx, ctx=None): return self.args[1]


class AList(Arr):
    """Explicit list of values (initializer list): (values, element shape)"""
    def init(self): pass
    shape = property(lambda s: s.args[1])
    def calc_dims(self): return (const(len(self.args[0])),)
    def get(self, idx, ctx=None):
        c = cval(idx[0])
        vals = self.args[0]
        if c is not None:
            return vals[int(c)] if 0 <= c < len(vals) else unknown("list index")
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r = vite(eq(idx[0], const(k)), vals[k], r)
        return r


def idx_eq(a, b):
    return band(*[eq(x, y) for x, y in zip(a, b)])


class AStore(Arr):
    """(base, idx, value)"""
    shape = property(lambda s: s.args[0].shape)
    def calc_dims(self): return self.args[0].dims
    def get(self, idx, ctx=None):
        ctx = ctx or NOCTX
        b, i, v = self.args
        c = idx_eq(idx, i)
        d = ctx.decide(c)
        if d is True:
            return v
        if d is False:
            return b.get(idx, ctx)
        return vite(c, v, b.get(idx, ctx))


class AIte(Arr):
    """(cond, a, b)"""
    shape = property(lambda s: s.args[1].shape)
    def calc_dims(self):
        c, a, b = self.args
        return tuple(ite(c, x, y) for x, y in zip(a.dims, b.dims))
    def get(self, idx, ctx=None):
        ctx = ctx or NOCTX
        c, a, b = self.args
        d = ctx.decide(c)
        if d is True:
            return a.get(idx, ctx)
        if d is False:
            return b.get(idx, ctx)
        return vite(c, a.get(idx, ctx), b.get(idx, ctx))
    def map_(self, f):
        c, a, b = self.args
        c2 = f(c)
        if c2 is TRUE:
            return f(a)
        if c2 is FALSE:
            return f(b)
        return mk(AIte, c2, f(a), f(b))


class AResize(Arr):
    """(base, size, default)"""
    shape = property(lambda s: s.args[0].shape)
    def calc_dims(self): return (self.args[1],)
    def get(self, idx, ctx=None):
        ctx = ctx or NOCTX
        b, n, dv = self.args
        c = lt(idx[0], b.dims[0])
        d = ctx.decide(c)
        if d is True:
            return b.get(idx, ctx)
        if d is False:
            return dv
        return vite(c, b.get(idx, ctx), dv)


class AInsert(Arr):
    """cnt copies of val before pos: (base, pos, cnt, val)"""
    shape = property(lambda s: s.args[0].shape)
    def calc_dims(self): return (add(self.args[0].dims[0], self.args[2]),)
    def get(self, idx, ctx=None):
        ctx = ctx or NOCTX
        b, p, n, v = self.args
        i = idx[0]
        c1 = lt(i, p)
        d1 = ctx.decide(c1)
        if d1 is True:
            return b.get(idx, ctx)
        c2 = lt(i, add(p, n))
        d2 = ctx.decide(c2)
        if d2 is True:
            r = v
        elif d2 is False:
            r = b.get((sub(i, n),), ctx)
        else:
            r = vite(c2, v, b.get((sub(i, n),), ctx))
        if d1 is False:
            return r
        return vite(c1, b.get(idx, ctx), r)


class AErase(Arr):
    """(base, pos, cnt)"""
    shape = property(lambda s: s.args[0].shape)
    def calc_dims(self): return (sub(self.args[0].dims[0], self.args[2]),)
    def get(self, idx, ctx=None):
        ctx = ctx or NOCTX
        b, p, n = self.args
        c1 = lt(idx[0], p)
        d = ctx.decide(c1)
        x = lambda: b.get(idx, ctx)
        y = lambda: b.get((add(idx[0], n),), ctx)
        return x() if d is True else y() if d is False else vite(c1, x(), y())


class AConcat(Arr):
    """Insertion of a whole array: (base, pos, other)"""
    shape = property(lambda s: s.args[0].shape)
    def calc_dims(self): return (add(self.args[0].dims[0], self.args[2].dims[0]),)
    def get(self, idx, ctx=None):
        ctx = ctx or NOCTX
        b, p, o = self.args
        i = idx[0]
        n = o.dims[0]
        c1, c2 = lt(i, p), lt(i, add(p, n))
        d1, d2 = ctx.decide(c1), ctx.decide(c2)
        if d1 is True:
            return b.get(idx, ctx)
        if d2 is True:
            r = o.get((sub(i, p),), ctx)
        elif d2 is False:
            r = b.get((sub(i, n),), ctx)
        else:
            r = vite(c2, o.get((sub(i, p),), ctx), b.get((sub(i, n),), ctx))
        if d1 is False:
            return r
        return vite(c1, b.get(idx, ctx), r)


class ASlice(Arr):
    """(base, start, len)"""
    shape = property(lambda s: s.args[0].shape)
    def calc_dims(self): return (self.args[2],)
    def get(self, idx, ctx=None):
        b, p, n = self.args
        return b.get((add(p, idx[0]),), ctx)


class ARev(Arr):
    """Reversed array: (base,)"""
    shape = property(lambda s: s.args[0].shape)
    def calc_dims(self): return self.args[0].dims
    def get(self, idx, ctx=None):
        b = self.args[0]
        return b.get((sub(sub(b.dims[0], ONE), idx[0]),), ctx)


class ALam(Arr):
    """Elementwise definition: (dims, vars, body, element shape) with private variable symbols."""
    def bound(self):
        return frozenset(single(v) for v in self.args[1])
    shape = property(lambda s: s.args[3])
    def calc_dims(self): return self.args[0]
    def get(self, idx, ctx=None):
        return T.subst(self.args[2], {single(v): i for v, i in zip(self.args[1], idx)})
    def map_(self, f):
        if len(self.args[1]) == 1:
            return lam(f(self.args[0]), self.args[1][0], f(self.args[2]), self.args[3])
        return mk(ALam, f(self.args[0]), self.args[1], f(self.args[2]), self.args[3])


class Write(Value):
    """A family of writes: (vars, guard, idx, value); vars = ((sym, lo, hi), ...) inclusive ranges, outermost first."""
    def init(self): pass
    def bound(self):
        return frozenset(single(v) for v, _, _ in self.args[0])
    vars = property(lambda s: s.args[0])
    guard = property(lambda s: s.args[1])
    idx = property(lambda s: s.args[2])
    val = property(lambda s: s.args[3])
    def map_(self, f):
        return mk(Write, tuple((v, f(lo), f(hi)) for v, lo, hi in self.vars), f(self.guard), f(self.idx), f(self.val))


def split_lin(p, v):
    """p = a*v + r with a, r free of v; None if not linear in v."""
    va = single(v)
    a, r = {}, {}
    for m, c in p.terms:
        e = 0
        rest = []
        for x, k in m:
            if x is va:
                e = k
            else:
                if va in x.fv:
                    return None
                rest.append((x, k))
        if e == 0:
            r[m] = c
        elif e == 1:
            a[tuple(rest)] = c
        else:
            return None
    return T._mkpoly(a), T._mkpoly(r)


def invert(w, q, ctx):
    """Solves w.idx(vars) == q; returns (cond, {var: term}) or None when the write is not provably injective."""
    todo = [v for v, _, _ in w.vars]
    rng = {single(v): (lo, hi) for v, lo, hi in w.vars}
    sol = {}
    conds = []
    eqs = list(zip(w.idx, q))

    def free(e):
        return [v for v in todo if single(v) in e.fv and single(v) not in sol]
    progress = True
    while progress:
        progress = False
        rest = []
        for e, t in eqs:
            e = T.subst(e, sol) if sol else e
            fr = free(e)
            if not fr:
                conds.append(eq(e, t))
                progress = True
                continue
            done = False
            if len(fr) == 1:
                s = split_lin(e, fr[0])
                if s is not None:
                    a, r = s
                    ca = cval(a)
                    if ca in (1, -1):
                        sol[single(fr[0])] = scale(sub(t, r), ca)
                        done = True
                    else:
                        ext = ctx_extend(ctx, w, sol)
                        sg = 1 if ext.decide(le(ONE, a)) is True else -1 if ext.decide(le(a, const(-1))) is True else 0
                        if sg:
                            # strided: the quotient, provided the division is exact
                            U = a if sg > 0 else neg(a)
                            fd = getattr(ctx, "fdiv", None)
                            x = fd(sub(t, r), U) if fd else None      # exactness is demanded below: floor or not is the same
                            x = scale(x if x is not None else ctx.idiv(sub(t, r), U), sg)
                            sol[single(fr[0])] = x
                            conds.append(eq(add(mul(a, x), r), t))
                            done = True
            elif len(fr) == 2:
                for (x, y) in ((fr[0], fr[1]), (fr[1], fr[0])):
                    s = split_lin(e, x)
                    if s is None:
                        continue
                    U, r = s
                    if any(single(z) in U.fv for z in todo):
                        continue
                    sgn = 1
                    cu = cval(U)
                    if cu in (1, -1):
                        continue
                    s2 = split_lin(r, y)
                    if s2 is None or cval(s2[0]) not in (1, -1):
                        continue
                    lo, hi = rng[single(y)]
                    if single(x) in lo.fv or single(x) in hi.fv or single(y) in lo.fv or single(y) in hi.fv:
                        pass
                    ext = ctx_extend(ctx, w, sol)
                    # the stride may be negative (descending outer index): e = x*U + r
                    if ext.decide(le(U, ZERO)) is True:
                        continue
                    # r may carry an offset that is a multiple of U: r = k*U + r0
                    kr = rem_split(r, U, ext)
                    if kr is None:
                        continue
                    k, r0 = kr
                    sol[single(x)] = sub(ctx.idiv(t, U), k)
                    rr = ctx.imod(t, U)
                    s3 = split_lin(r0, y)
                    if s3 is None or cval(s3[0]) not in (1, -1):
                        del sol[single(x)]
                        continue
                    sol[single(y)] = scale(sub(rr, s3[1]), cval(s3[0]))
                    done = True
                    break
            if not done:
                # descending outer index: x has coefficient -U
                if len(fr) == 2:
                    for (x, y) in ((fr[0], fr[1]), (fr[1], fr[0])):
                        s = split_lin(e, x)
                        if s is None:
                            continue
                        nU, r = s
                        U = neg(nU)
                        if any(single(z) in U.fv for z in todo) or cval(U) in (1, -1):
                            continue
                        s2 = split_lin(r, y)
                        if s2 is None or cval(s2[0]) not in (1, -1):
                            continue
                        ext = ctx_extend(ctx, w, sol)
                        kr = rem_split(r, U, ext)
                        if kr is None:
                            continue
                        k, r0 = kr
                        # e = (k - x)*U + r0
                        s3 = split_lin(r0, y)
                        if s3 is None or cval(s3[0]) not in (1, -1):
                            continue
                        sol[single(x)] = sub(k, ctx.idiv(t, U))
                        sol[single(y)] = scale(sub(ctx.imod(t, U), s3[1]), cval(s3[0]))
                        done = True
                        break
            if done:
                progress = True
            else:
                rest.append((e, t))
        eqs = rest
        if not eqs:
            break
    if eqs:
        return None
    for v, lo, hi in w.vars:
        a = single(v)
        if a not in sol:
            return None
    # resolve dependencies between solutions
    for _ in range(len(sol)):
        sol = {a: T.subst(p, {k: x for k, x in sol.items() if k is not a}) for a, p in sol.items()}
    for a, p in sol.items():
        if p.fv & set(sol):
            return None
    for v, lo, hi in w.vars:
        x = sol[single(v)]
        conds.append(le(T.subst(lo, sol), x))
        conds.append(le(x, T.subst(hi, sol)))
    conds.append(T.subst(w.guard, sol))
    return band(*conds), sol


def rem_split(r, U, ext):
    """(k, r0) with r = k*U + r0 and provably 0 <= r0 < U."""
    k, r0 = T_divpoly(r, U)
    for d in (0, -1, 1):
        x = r0 if d == 0 else sub(r0, scale(U, d))
        if ext.decide(band(le(ZERO, x), lt(x, U))) is True:
            return add(k, const(d)), x
    return None


def T_divpoly(r, U):
    """r = k*U + r0, dividing term-wise by a monomial U (k collects the divisible terms)."""
    if len(U.terms) == 1:
        um, uc = U.terms[0]
        if um:
            k, r0 = {}, {}
            ud = dict(um)
            for m, c in r.terms:
                md = dict(m)
                if all(md.get(a, 0) >= e for a, e in ud.items()):
                    for a, e in ud.items():
                        md[a] -= e
                    mm = tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda x: x[0].id))
                    k[mm] = c / uc
                else:
                    r0[m] = c
            return T._mkpoly(k), T._mkpoly(r0)
        return ZERO, r
    # U is a sum (e.g. n+1): try r = k*U + r0 with k a combination of single symbols
    return divsum(r, U)


def divsum(r, U):
    """Division of r by a sum U using its first non-constant monomial as the leading term."""
    lead = [(m, c) for m, c in U.terms if m]
    if not lead:
        return ZERO, r
    # choose the monomial of U that is a single symbol
    lm, lc = lead[0]
    k = ZERO
    rem = r
    for _ in range(8):
        found = None
        for m, c in rem.terms:
            md = dict(m)
            if len(m) > len(lm) and all(md.get(a, 0) >= e for a, e in lm):
                found = (m, c)
                break
        if found is None:
            break
        m, c = found
        md = dict(m)
        for a, e in lm:
            md[a] -= e
        t = T._mkpoly({tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda x: x[0].id)): c / lc})
        k = add(k, t)
        rem = sub(rem, mul(t, U))
    # a bare multiple of U left over (e.g. rem = U - 1 + ...)
    return k, rem


def ctx_extend(ctx, w, sol):
    e = getattr(ctx, "extend", None)
    if e is None:
        return ctx
    facts = []
    for v, lo, hi in w.vars:
        facts += [le(lo, v), le(v, hi)]
    facts.append(w.guard)
    return e(facts)


_lams = {}
_place = {}


def lam(dims, v, body, shape):
    """One-dimensional elementwise array; equal up to the name of the variable means identical."""
    p = _place.get(single(v).typ)
    if p is None:
        p = _place[single(v).typ] = T.sym("@elem", single(v).typ)
    key = (dims, T.subst(body, {single(v): p}), shape)
    r = _lams.get(key)
    if r is None:
        r = _lams[key] = mk(ALam, dims, (v,), body, shape)
    return r


def loop_arr(base, writes):
    """The array after a loop; one that writes every element once, in place, is an elementwise definition."""
    if len(writes) == 1 and len(base.dims) == 1:
        w = writes[0]
        if isinstance(w, Write) and len(w.vars) == 1 and w.guard is TRUE:
            v, lo, hi = w.vars[0]
            if lo is ZERO and w.idx == (v,) and T.add(hi, T.ONE) is base.dims[0] and not w.val.taint:
                return lam(base.dims, v, w.val, base.shape)
    return mk(ALoop, base, writes)


class ALoop(Arr):
    """Array after a loop: (base, (Write, ...)); writes of one iteration in order, all with the same outermost variable."""
    def init(self): pass
    shape = property(lambda s: s.args[0].shape)
    base = property(lambda s: s.args[0])
    writes = property(lambda s: s.args[1])
    def calc_dims(self): return self.args[0].dims
    def map_(self, f):
        return loop_arr(f(self.args[0]), f(self.args[1]))
    def get(self, idx, ctx=None):
        ctx = ctx or NOCTX
        cands = []
        for w in self.writes:
            r = invert(w, idx, ctx)
            if r is None:
                return build_leaf(mk(AUnk, "non-invertible write", next(T._fresh), self.shape, self.dims, None), idx, self.shape, ())
            c, sol = r
            d = ctx.decide(c)
            if d is False:
                continue
            cands.append((TRUE if d is True else c, sol, w))
        if not cands:
            return self.base.get(idx, ctx)
        # order: outermost iteration first, then position in the body
        val, conds = None, []
        res = None
        cur = None  # list of (cond, s, value)
        chain = []
        for c, sol, w in cands:
            s = sol[single(w.vars[0][0])] if w.vars else None
            chain.append((c, s, T.subst(w.val, sol)))
        # later entries win on equal iteration
        res = None
        need_base = not any(c is TRUE for c, _, _ in chain)
        out = self.base.get(idx, ctx) if need_base else None
        acc = []  # accepted (cond, s)
        for c, s, v in chain:
            win = c
            for c2, s2 in acc:
                both = band(c, c2)
                if both is FALSE or ctx.decide(both) is False:
                    continue
                if s is s2 or ctx.decide(le(s2, s)) is True:
                    continue
                win = band(win, bor(bnot(c2), le(s2, s)))
            acc.append((c, s))
            out = v if (win is TRUE or out is None) else vite(win, v, out)
        return out


# ---- references -------------------------------------------------------------------------------------------

class Ref(Value):
    """Lvalue / pointer: (root location, path) ; path steps: ('f', name) ('i', idx tuple) ('c', comps tuple, rows, cols) ('row', k) ('col', k)"""
    def init(self): pass
    root = property(lambda s: s.args[0])
    path = property(lambda s: s.args[1])
    def step(self, *st):
        return mk(Ref, self.root, self.path + (st,))
    def __repr__(self): return "&%s%s" % (self.root, "".join(".%s" % (s[1],) if s[0] == "f" else "[%r]" % (s[1:],) for s in self.path))


class RefIte(Value):
    """(cond, ref, ref)"""
    def init(self): pass


class Iter(Value):
    """Iterator: (ref to array, index)"""
    def init(self): pass


class RIter(Value):
    """Reverse iterator: (ref to array, base index)"""
    def init(self): pass


class Closure(Value):
    """Lambda: (key or cls, captures ((id, Ref/value kind), ...), this ref)"""
    def init(self): pass


class Span(Value):
    """std::span over an array: (ref to array, start, len)"""
    def init(self): pass


class MdSpan(Value):
    """mdspan over an array: (ref to array, extents)"""
    def init(self): pass


class AApp(Arr):
    """Array result of a function analysed on its own: (name, args, element shape, dims)"""
    opaque = True
    shape = property(lambda s: s.args[2])
    def calc_dims(self): return self.args[3]
    def get(self, idx, ctx=None): return build_leaf(self, idx, self.shape, ())
    def __repr__(self): return "%s%r" % (self.args[0], self.args[1])
