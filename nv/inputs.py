"""Symbolic valid inputs of the library's types, the facts that hold for them, and sample valuations of their symbols."""
import random
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .evalt import Env, ev, evget, Undet, is_nan
from .frontend import AnalysisBroken

F = Fraction


def rec_fields(prog, cls):
    r = prog["records"].get(cls)
    if r is None:
        raise AnalysisBroken("class %s not found" % cls)
    return r["fields"]


def knot_field(prog):
    """Name of the array member that holds the knots."""
    for f in rec_fields(prog, "libnurbs::KnotVector"):
        if "vector<" in f["t"] and "double" in f["t"]:
            return f["name"]
    raise AnalysisBroken("libnurbs::KnotVector holds no vector of numbers")


def default_rest(I, cls, given):
    """Struct of a class with the given fields; other fields (if any) keep their default values."""
    s = I.default_struct(cls, True)
    for n, v in given.items():
        if not isinstance(s, Struct) or not s.has(n):
            raise AnalysisBroken("%s has no member %s" % (cls, n))
        s = s.with_(n, v)
    return s


def knotvec(I, arr):
    return default_rest(I, "libnurbs::KnotVector", {knot_field(I.prog): arr})


def knots_of(prog, kv):
    return kv.get(knot_field(prog))


VEC4 = ("vec", 4, 1)


class NoValue(Exception):
    pass


class Inputs:
    """Collects symbols, facts and sample generators of one entry."""
    def __init__(self, prog):
        from .interp import Interp
        self.prog = prog
        self.I = Interp(prog)
        self.facts = []
        self.gens = []     # f(rng, env)
        self.knots = {}    # knot array ASym -> (p, n)

    # ---- scalars
    def int_(self, name, lo=None, hi=None, choose=None):
        s = sym(name, "int")
        if lo is not None:
            self.facts.append(le(const(lo) if isinstance(lo, int) else lo, s))
        if hi is not None:
            self.facts.append(le(s, const(hi) if isinstance(hi, int) else hi))

        def g(rng, env):
            if choose:
                env.syms[name] = F(choose(rng, env))
            else:
                a = int(ev(lo, env)) if hasattr(lo, "fv") else (lo if lo is not None else -3)
                b = int(ev(hi, env)) if hasattr(hi, "fv") else (hi if hi is not None else a + 5)
                env.syms[name] = F(rng.randint(a, max(a, b)))
        self.gens.append(g)
        return s

    def define(self, s, term):
        """s stands for the term."""
        name = single(s).args[0]

        def g(rng, env):
            from .evalt import ev, Undet, Uninit, OutOfRange
            try:
                env.syms[name] = ev(term, env)
            except (Undet, Uninit, OutOfRange):
                raise NoValue
        self.gens.append(g)

    def real(self, name, choose=None):
        s = sym(name, "real")

        def g(rng, env):
            env.syms[name] = choose(rng, env) if choose else rreal(rng)
        self.gens.append(g)
        return s

    def vec3(self, name):
        return vec([self.real("%s.%d" % (name, i)) for i in range(3)], 3, 1)

    def vec4(self, name):
        return vec([self.real("%s.%d" % (name, i)) if i < 3 else self.real("%s.3" % name, lambda r, e: rweight(r)) for i in range(4)], 4, 1)

    def mat3(self, name):
        return vec([self.real("%s.%d" % (name, i)) for i in range(9)], 3, 3)

    # ---- arrays
    def array(self, name, size, shape=("real",), elem=None):
        a = mk(ASym, name, shape, (size,))

        def g(rng, env):
            n = int(ev(size, env))
            env.arrays[name] = [(elem or (lambda r: relem(r, shape)))(rng) for _ in range(max(0, n))]
        self.gens.append(g)
        return a

    def points(self, name, size, homogeneous=False):
        def g(rng, env):
            n = max(0, int(ev(size, env)))
            same = rng.random() < 0.25
            w0 = rweight(rng)
            env.arrays[name] = [(*rpos(rng, 3), w0 if same else rweight(rng)) for _ in range(n)]
        self.gens.append(g)
        return mk(ASym, name, VEC4, (size,))

    def clamped(self, name, p, n):
        """Valid clamped knot vector for degree p and n points."""
        a = mk(ASym, name, ("real",), (addn(n, p, ONE),))
        self.knots[a] = (p, n)

        def g(rng, env):
            pp, nn = int(ev(p, env)), int(ev(n, env))
            env.arrays[name] = rknots(rng, pp, nn)
        self.gens.append(g)
        # the end knots
        self.facts.append(eq(a.get((ZERO,)), ZERO))
        self.facts.append(eq(a.get((sub(a.dims[0], ONE),)), ONE))
        return a

    def param(self, name, arr, inner=False):
        """Parameter in [0,1] (or strictly inside), often at a knot."""
        def ch(rng, env):
            ks = env.arrays[arr.args[0]] if arr is not None else [F(0), F(1)]
            for _ in range(50):
                r = rng.random()
                if getattr(rng, "cluster", None) and rng.random() < 0.6:
                    v = near(rng)
                    if not 0 <= v <= 1:
                        continue
                elif r < 0.45:
                    v = rng.choice(ks)
                elif r < 0.55:
                    v = F(0) if rng.random() < .5 else F(1)
                elif r < 0.62:
                    v = rng.choice(ks) + tiny(rng)
                    if not 0 <= v <= 1:
                        continue
                elif r < 0.8:
                    i = rng.randrange(len(ks) - 1)
                    v = (ks[i] + ks[i + 1]) / 2
                else:
                    v = F(rng.randint(1, 96), 97)
                if not inner or 0 < v < 1:
                    return v
            return F(1, 3)
        u = self.real(name, ch)
        self.facts += ([lt(ZERO, u), lt(u, ONE)] if inner else [le(ZERO, u), le(u, ONE)])
        return u

    # ---- objects
    def curve(self, pre=""):
        p = self.int_(pre + "p", 1, None, lambda r, e: r.choice([1, 2, 2, 3, 3, 4]) if r.random() < 0.93 else r.choice([5, 6]))
        n = self.int_(pre + "n", add(p, ONE), None, lambda r, e: int(e.syms[pre + "p"]) + 1 + r.choice([0, 1, 2, 3, 5]))
        U = self.clamped(pre + "U", p, n)
        P = self.points(pre + "P", n)
        c = default_rest(self.I, "libnurbs::Curve", {"Degree": p, "Knots": knotvec(self.I, U), "ControlPoints": P})
        return c, p, n, U, P

    def grid(self, pre="", shape=VEC4, lo=1, cls=None, sizes=None):
        if sizes:
            nu, nv = map(const, sizes)
            G = self.points(pre + "P", mul(nu, nv)) if shape is VEC4 else self.array(pre + "P", mul(nu, nv), shape)
            return self.gridval(nu, nv, G, cls), nu, nv, G
        nu = self.int_(pre + "nu", lo, None, lambda r, e: (r.choice([1, 2, 3, 4, 5]) if r.random() < 0.93 else r.choice([6, 7, 9])) + lo - 1)
        nv = self.int_(pre + "nv", lo, None, lambda r, e: (r.choice([1, 2, 3, 4]) if r.random() < 0.88 else r.choice([5, 6, 8])) + lo - 1)
        G = self.points(pre + "P", mul(nu, nv)) if shape is VEC4 else self.array(pre + "P", mul(nu, nv), shape)
        return self.gridval(nu, nv, G, cls), nu, nv, G

    def gridval(self, nu, nv, G, cls=None):
        return default_rest(self.I, cls or self.gridcls(), {"UCount": nu, "VCount": nv, "Values": G})

    def gridcls(self):
        for f in rec_fields(self.prog, "libnurbs::Surface"):
            if f["name"] == "ControlPoints":
                from .interp import clean
                return self.I.rec(clean(f["t"]))["name"]
        raise AnalysisBroken("libnurbs::Surface has no ControlPoints")

    def surface(self, pre="", sizes=None):
        """sizes: constant degrees and counts."""
        if sizes:
            pu, pv, nu, nv = [const(x) for x in sizes]
            return self.surface_of(pre, pu, pv, nu, nv)
        pu = self.int_(pre + "pu", 1, None, lambda r, e: r.choice([1, 2, 3]) if r.random() < 0.88 else r.choice([4, 5]))
        pv = self.int_(pre + "pv", 1, None, lambda r, e: r.choice([1, 2, 3]) if r.random() < 0.88 else r.choice([4, 5]))
        nu = self.int_(pre + "nu", add(pu, ONE), None, lambda r, e: int(e.syms[pre + "pu"]) + 1 + r.choice([0, 1, 2, 3]))
        nv = self.int_(pre + "nv", add(pv, ONE), None, lambda r, e: int(e.syms[pre + "pv"]) + 1 + r.choice([0, 1, 2]))
        return self.surface_of(pre, pu, pv, nu, nv)

    def surface_of(self, pre, pu, pv, nu, nv):
        U = self.clamped(pre + "U", pu, nu)
        V = self.clamped(pre + "V", pv, nv)
        P = self.points(pre + "P", mul(nu, nv))
        s = default_rest(self.I, "libnurbs::Surface",
                         {"DegreeU": pu, "DegreeV": pv, "KnotsU": knotvec(self.I, U), "KnotsV": knotvec(self.I, V),
                          "ControlPoints": self.gridval(nu, nv, P)})
        return s, (pu, nu, U), (pv, nv, V), P

    # ---- contracts of valid knot vectors
    def extra(self, a, facts):
        """Axioms (polynomials >= 0) for atoms about valid knot vectors."""
        if a.kind == "sel" and a.args[0] in self.knots:
            q = pa(a)
            yield q
            yield sub(ONE, q)
        elif a.kind == "app" and a.args[0] == "span" and a.args[3] in self.knots:
            p, n = self.knots[a.args[3]]
            if a.args[1] is p:
                yield sub(pa(a), p)
                yield sub(sub(n, ONE), pa(a))
        elif a.kind == "first":
            hi, body, d = a.args
            for U, (p, n) in self.knots.items():
                if hi is U.dims[0] and body.kind == "lt":
                    x = body.args[0]
                    bv = pa(T.atom("bv", (d,), "int"))
                    u = add(x, U.get((bv,)))
                    if T.atom("bv", (d,), "int") in [y for m, _ in u.terms for y, _e in m]:
                        continue
                    if u.depth:
                        continue
                    key = ("ub", a.id)
                    if key in _busy:
                        continue
                    _busy.add(key)
                    try:
                        if facts.prove(le(ZERO, u)):
                            yield sub(pa(a), add(p, ONE))
                        if facts.prove(lt(u, ONE)):
                            yield sub(n, pa(a))
                    finally:
                        _busy.discard(key)

    def samples(self, count, seed, apps=None):
        for i in range(count):
            rng = random.Random("%s/%s" % (seed, i))
            env = Env("%s/%s" % (seed, i), apps=apps or APPS)
            try:
                for g in self.gens:
                    g(rng, env)
            except NoValue:
                continue
            yield env


_busy = set()


TINY = [F(1, 10 ** 5), F(1, 2 * 10 ** 6), F(1, 10 ** 7), F(1, 10 ** 9), F(1, 10 ** 13)]


LITERALS = []


def note_literals(prog):
    """Small constants of the program: differences around them are worth a sample."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            v = x.get("v")
            if x.get("k") == "float" or isinstance(v, float):
                try:
                    q = abs(F(v) if isinstance(v, (int, float)) else F(str(v)))
                    if 0 < q < F(1, 50):
                        out.add(q)
                except (ValueError, TypeError):
                    pass
            for y in x.values():
                if isinstance(y, (dict, list)):
                    walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for f in prog["functions"].values():
        walk(f.get("body"))
        walk(f.get("params"))
    LITERALS[:] = sorted(out)[:12]


def tiny(rng):
    if LITERALS and rng.random() < 0.4:
        return rng.choice(LITERALS) * rng.choice([1, -1]) * rng.choice([F(1, 2), F(1), F(3, 2)])
    return rng.choice(TINY) * rng.choice([1, -1])


def rreal(rng):
    """A number; often zero, a small integer, an earlier number again or one very close to it."""
    pool = getattr(rng, "pool", None)
    if pool is None:
        pool = rng.pool = [F(0), F(1)]
    r = rng.random()
    if r < 0.08:
        v = F(0)
    elif r < 0.18:
        v = F(rng.randint(-3, 3))
    elif r < 0.26:
        v = rng.choice(pool)
    elif r < 0.30:
        v = rng.choice(pool) + tiny(rng)
    else:
        v = F(rng.randint(-900, 900), rng.choice([7, 11, 13, 64]))
    if len(pool) < 40:
        pool.append(v)
    return v


def rweight(rng):
    return F(rng.randint(1, 60), rng.choice([8, 9, 10])) if rng.random() < 0.8 else F(1)


def rpos(rng, n):
    """Coordinates of one point; now and then very small or very large all together."""
    v = [rreal(rng) for _ in range(n)]
    r = rng.random()
    if r < 0.12:
        k = abs(tiny(rng)) * F(rng.randint(1, 9), 10)
        v = [x / 130 * k for x in v]
    elif r < 0.16:
        v = [x * 10 ** rng.choice([3, 6, 9]) for x in v]
    return v


def relem(rng, shape):
    k = shape[0]
    if k == "real":
        return rreal(rng)
    if k == "int":
        return F(rng.randint(0, 6))
    if k == "bool":
        return rng.random() < 0.5
    if k == "vec":
        n = shape[1] * shape[2]
        return tuple(rpos(rng, 3) + [rreal(rng)] * (n - 3) if n in (3, 4) else [rreal(rng) for _ in range(n)])
    if k == "struct":
        return {n: relem(rng, s) for n, s in shape[2]}
    raise Undet("sample of shape " + str(shape))


def near(rng):
    a, e = rng.cluster
    return a + e * rng.choice([F(-9, 10), F(-1, 2), F(-1, 4), F(1, 4), F(1, 2), F(9, 10), F(0), F(-3, 2), F(3, 2)])


def rknots(rng, p, n):
    m = n - p - 1       # interior knots
    ks = []
    rng.cluster = None
    if rng.random() < 0.15:     # knots very close to each other or to an end
        rng.cluster = (rng.choice([F(0), F(1), F(1, 2)]), abs(tiny(rng)))
    while len(ks) < m:
        v = F(rng.randint(1, 30), 31) if rng.random() < 0.7 else F(rng.randint(1, 7), 8)
        if rng.random() < 0.08:
            v = rng.choice(ks + [F(0), F(1)]) + tiny(rng)
        if rng.cluster and rng.random() < 0.6:
            v = near(rng)
        if not 0 < v < 1:
            continue
        if v in ks:
            continue
        mult = rng.choice([1, 1, 1, 2, p]) if p > 1 else 1
        mult = min(mult, p, m - len(ks))
        ks += [v] * mult
    ks.sort()
    return [F(0)] * (p + 1) + ks + [F(1)] * (p + 1)


# ---- meaning of the contracts used in clients ---------------------------------------------------------------

def arrvals(env, arr):
    """Concrete content of a one-dimensional array value."""
    key = ("vals", id(arr))
    r = env.memo.get(key)
    if r is None:
        n = int(ev(arr.dims[0], env))
        old, env.inexact = env.inexact, False
        r = (arr, [ev(evget(arr, (F(i),), env), env) for i in range(n)])
        if env.inexact:
            raise Undet("rounded argument of a contract")
        env.inexact = old
        env.memo[key] = r
    return r[1]


def span_of(ks, p, u):
    last = len(ks) - p - 2
    if u >= ks[-1]:
        return last
    i = 0
    while i < len(ks) and ks[i] <= u:
        i += 1
    return max(p, min(last, i - 1)) if u <= ks[0] else i - 1


def app_span(env, p, u, arr):
    return F(span_of(arrvals(env, arr), int(ev(p, env)), ev(u, env)))


def basis_funs(p, ks, i, u):
    N = [F(0)] * (p + 1)
    left, right = [F(0)] * (p + 1), [F(0)] * (p + 1)
    N[0] = F(1)
    for j in range(1, p + 1):
        left[j] = u - ks[i + 1 - j]
        right[j] = ks[i + j] - u
        saved = F(0)
        for r in range(j):
            d = right[r + 1] + left[j - r]
            if d == 0:
                raise Undet("0/0 in basis")
            t = N[r] / d
            N[r] = saved + right[r + 1] * t
            saved = left[j - r] * t
        N[j] = saved
    return N


def app_basis(env, args):
    p, arr, i, u = args
    ks, ii = arrvals(env, arr), int(ev(i, env))
    pp = int(ev(p, env))
    if ii + pp >= len(ks) or ii + 1 - pp < 0 or ii < 0:
        raise Undet("basis outside the knot vector")
    return basis_funs(pp, ks, ii, ev(u, env))


def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1) if a and b else []
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def app_ders(env, args):
    """Derivatives of the basis functions on a span: polynomials in (t-u) by Cox-de Boor, exact."""
    p, arr, i, u, order = args
    ks, ii = arrvals(env, arr), int(ev(i, env))
    pp, uu, oo = int(ev(p, env)), ev(u, env), int(ev(order, env))
    if ii + pp >= len(ks) or ii + 1 - pp < 0 or ii < 0:
        raise Undet("basis outside the knot vector")
    N = {ii: [F(1)]}
    for d in range(1, pp + 1):
        M = {}
        for j in range(ii - d, ii + 1):
            acc = []
            if j in N and ks[j + d] != ks[j]:
                acc = padd(acc, pmul(N[j], [(uu - ks[j]) / (ks[j + d] - ks[j]), 1 / (ks[j + d] - ks[j])]))
            if j + 1 in N and ks[j + d + 1] != ks[j + 1]:
                dd = ks[j + d + 1] - ks[j + 1]
                acc = padd(acc, pmul(N[j + 1], [(ks[j + d + 1] - uu) / dd, -1 / dd]))
            M[j] = acc
        N = M
    out = []
    for k in range(oo + 1):
        f = F(1)
        for q in range(2, k + 1):
            f *= q
        out.append([(N[ii - pp + r][k] * f if k < len(N[ii - pp + r]) else F(0)) for r in range(pp + 1)])
    return out


def app_binom(env, n, k):
    from math import comb
    a, b = int(ev(n, env)), int(ev(k, env))
    if a < 0 or b < 0:
        raise Undet("binomial")
    return F(comb(a, b))


def app_ins_knots(env, args):
    ks, u = arrvals(env, args[0]), ev(args[1], env)
    return sorted(ks + [u])


def app_ins_points(env, args):
    d, p, arr, u, P, nu, nv = args
    d, p, nu, nv = [int(ev(x, env)) for x in (d, p, nu, nv)]
    ks, u = arrvals(env, arr), ev(u, env)
    if not 0 < u < 1:
        raise Undet("insertion at the end")
    k = span_of(ks, p, u)
    n = (nu, nv)[d]
    if len(ks) != n + p + 1 or k - p + 1 < 1 or k + p >= len(ks):
        raise Undet("insertion into an invalid object")
    out = {}
    for o in range((nv, nu)[d]):
        def old(i):
            v = evget(P, (F(i + o * nu if d == 0 else o + i * nu),), env)
            v = ev(v, env) if hasattr(v, "fv") else v
            x, y, z, w = v
            return [x * w, y * w, z * w, w]
        for i in range(n + 1):
            if i <= k - p:
                q = old(i)
            elif i > k:
                q = old(i - 1)
            else:
                if ks[i + p] == ks[i]:
                    raise Undet("0/0 in insertion")
                a = (u - ks[i]) / (ks[i + p] - ks[i])
                q = [a * s + (1 - a) * t for s, t in zip(old(i), old(i - 1))]
            if q[3] == 0:
                raise Undet("zero weight")
            out[(i, o) if d == 0 else (o, i)] = tuple(c / q[3] for c in q[:3]) + (q[3],)
    nu2, nv2 = (nu + 1, nv) if d == 0 else (nu, nv + 1)
    return [out[(i, j)] for j in range(nv2) for i in range(nu2)]


def concrete(env, args):
    return tuple(tuple(arrvals(env, x)) if isinstance(x, Arr) else ev(x, env) for x in args)


def hashed(*key):
    return random.Random(repr(key))


def app_krem(env, *args):
    """Any count a removal may report."""
    a = concrete(env, args)
    n = len(a[1]) if isinstance(a[1], tuple) else int(a[1])
    r = hashed(env.seed, "krem", a)
    return F(min(max(0, n - int(a[2]) - 1), r.choice([0, 1, 1, 1, 2])))


def app_krem_all(env, *args):
    a = concrete(env, args)
    r = hashed(env.seed, "krem_all", a)
    return F(min(max(0, int(a[1]) - int(a[2]) - 1), r.choice([0, 1, 1, 2])))


def app_elev_size(env, *args):
    a = concrete(env, args)
    r = hashed(env.seed, "elev_size", a)
    return a[2] + a[3] + 1 + r.choice([0, 1, 2])


def some(name, shape):
    """An array of unrelated values, a function of the arguments."""
    def f(env, args):
        a = concrete(env, args)
        memo = {}

        def at(ci, path):
            k = (ci, path)
            if k not in memo:
                r = hashed(env.seed, name, a, ci, path)
                memo[k] = F(r.randint(-900, 900), 100) if not path or path[0] != 3 else F(r.randint(1, 900), 100)
            return memo[k]
        return at
    return f


def app_eval(name):
    """A point or a derivative of some curve or surface; its size varies from valuation to valuation."""
    def f(env, *args):
        a = tuple(ev(x, env) for x in args)
        g = hashed(env.seed, name.split(".")[0] + "size")
        size = g.choice([F(1, 100), F(1), F(1), F(10), F(1000), F(10 ** 6)])
        flat = g.random() < 0.25
        r = hashed(env.seed, name, () if flat else a)
        return size * F(r.randint(-90, 90), 10)
    return f


APPS = {"krem": app_krem, "krem_all": app_krem_all, "elev_size": app_elev_size, "krem_knots": some("krem_knots", 1), "krem_points": some("krem_points", 4),
        "elev_knots": some("elev_knots", 1), "elev_points": some("elev_points", 4), "ins_knots": lambda env, a: app_ins_knots(env, a), "ins_points": lambda env, a: app_ins_points(env, a), "span": app_span, "basis": lambda env, a: app_basis(env, a), "ders": lambda env, a: app_ders(env, a), "binom": app_binom}
APPS.update({n: app_eval(n) for k in range(3) for n in ("point.%d" % k, "der.%d" % k)})
