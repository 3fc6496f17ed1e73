"""Evaluation of value-graph terms at a valuation of the input symbols (random interpretation of a residual term).

Only terms are evaluated, never statements: folds (loops without a closed form) have no value here."""
import hashlib
import math
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *

NAN = float("nan")
INFV = float("inf")


class Undet(Exception):
    """The term has no value in the domain (unknown, fold, limits)."""


class ZeroDiv(Undet):
    """The value depends on a quotient by zero."""


class Uninit(Exception):
    """The term's value depends on an object that was never given a value."""


class OutOfRange(Exception):
    """The term reads an element that does not exist."""


def hrand(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


class Env:
    def __init__(self, seed, syms=None, arrays=None, apps=None):
        self.seed = seed
        self.syms = dict(syms or {})      # name -> value
        self.arrays = dict(arrays or {})  # name -> nested lists / callable(idx, path)
        self.apps = dict(apps or {})      # name -> f(env, args...) -> value / callable
        self.vals = {}                    # Atom -> value (bound index symbols)
        self.memo = {}
        self.inexact = False
        self.fuel = 60000

    def bind(self, var, val):
        a = single(var)
        self.vals[a] = val
        self.memo = {}

    def sym(self, a):
        if a in self.vals:
            return self.vals[a]
        n = a.args[0]
        if n in self.syms:
            return self.syms[n]
        h = hrand(self.seed, n)
        if a.typ == "bool":
            v = bool(h & 1)
        elif a.typ == "int":
            v = Fraction(h % 5)
        else:
            v = Fraction((h >> 3) % 2001 - 1000, 100 + h % 7)
        self.syms[n] = v
        return v


def is_nan(x):
    return isinstance(x, float) and x != x


def tick(env):
    env.fuel -= 1
    if env.fuel < 0:
        raise Undet("fuel")


def fadd(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if not (isinstance(a, float) and isinstance(b, float)):
            return a if isinstance(a, float) else b
        return a + b
    return a + b


def fmul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        x = a if isinstance(a, float) else float((a > 0) - (a < 0))
        y = b if isinstance(b, float) else float((b > 0) - (b < 0))
        return x * y
    return a * b


def finv(a):
    if isinstance(a, float):
        return NAN if a != a else Fraction(0)
    if a == 0:
        raise ZeroDiv("division by zero")
    return 1 / a


def ev(x, env):
    """Value of a Poly / B / Value."""
    k = id(x)
    r = env.memo.get(k)
    if r is not None:
        if r[2]:
            env.inexact = True
        return r[1]
    old = env.inexact
    env.inexact = False
    try:
        v = ev1(x, env)
        rough = env.inexact and not isinstance(x, B)        # a decided condition is exact
    except BaseException:
        env.inexact = True
        raise
    env.inexact = old or rough
    env.memo[k] = (x, v, rough)
    return v


def ev1(x, env):
    tick(env)
    if isinstance(x, Poly):
        s = Fraction(0)
        for m, c in x.terms:
            t = c
            for a, e in m:
                v = evatom(a, env)
                if e < 0:
                    v = finv(v)
                    e = -e
                for _ in range(e):
                    t = fmul(t, v)
            s = fadd(s, t)
        return s
    if isinstance(x, B):
        return evb(x, env)
    if isinstance(x, Vec):
        return tuple(ev(c, env) for c in x.c)
    if isinstance(x, Struct):
        return {n: ev(v, env) for n, v in x.args[1]}
    if isinstance(x, Str):
        return evstr(x, env)
    if isinstance(x, Unknown):
        if x.args and x.args[0] == "uninit":
            raise Uninit("uninit")
        raise Undet(str(x.args[0]) if x.args else "unknown")
    raise Undet(type(x).__name__)


def evstr(x, env):
    if x.args[0] == "lit":
        return x.args[1]
    if x.args[0] == "ite":
        return evstr(x.args[2] if evb(x.args[1], env) else x.args[3], env)
    raise Undet("string")


def cmp(p, env, op):
    env.inexact = False
    v = ev(p, env)
    if is_nan(v):
        return False
    if env.inexact and not isinstance(v, float) and abs(v) < Fraction(1, 10 ** 9) and cval(p) is None and not isint(p):
        raise Undet("comparison too close to call")
    if op == "lt":
        return v < 0
    if op == "le":
        return v <= 0
    return v == 0


def evb(x, env):
    k = x.kind
    if k == "true":
        return True
    if k == "false":
        return False
    if k == "not":
        return not ev(x.args[0], env)
    if k in ("and", "or"):
        stop = k == "or"
        und = None
        for y in x.args:
            try:
                if ev(y, env) is stop:
                    return stop
            except (Undet, Uninit, OutOfRange) as ex:
                und = ex
        if und is not None:
            raise und
        return not stop
    if k in ("lt", "le", "eq"):
        return cmp(x.args[0], env, k)
    if k == "batom":
        return evatom(x.args[0], env)
    raise Undet("bool " + k)


def bounds(idx, dims, env):
    for i, d in zip(idx, dims):
        if isinstance(i, float) or i.denominator != 1:
            raise Undet("index")
        n = ev(d, env)
        if i < 0 or i >= n:
            raise OutOfRange("%s of %s" % (i, n))


def lookup(v, path):
    for h in path or ():
        if isinstance(h, tuple):
            for j in h[1]:
                c = cval(j)
                if c is None:
                    raise Undet("nested index")
                v = v[int(c)]
        elif isinstance(h, str) and h.startswith("dim"):
            return Fraction(len(v))
        else:
            v = v[h]
    return v


def evsel(a, env):
    arr, idx, path = a.args
    ci = tuple(ev(i, env) for i in idx)
    if not isinstance(arr, Arr):
        raise Undet("selection")
    if isinstance(arr, (ASym, AApp)):
        bounds(ci, arr.dims, env)
        if isinstance(arr, ASym):
            src = env.arrays.get(arr.args[0])
        else:
            key = ("app", id(arr))
            src = env.memo.get(key)
            if src is None:
                f = env.apps.get(arr.args[0])
                if f is None:
                    raise Undet("application " + arr.args[0])
                src = (arr, f(env, arr.args[1]))
                env.memo[key] = src
            src = src[1]
        if src is None:
            h = hrand(env.seed, repr(arr.args[0]), ci, repr(path))
            if a.typ == "bool":
                return bool(h & 1)
            return Fraction(h % 5) if a.typ == "int" else Fraction((h >> 3) % 2001 - 1000, 100 + h % 7)
        if callable(src):
            return src(ci, path)
        v = src
        try:
            for i in ci:
                v = v[int(i)]
            return lookup(v, path)
        except IndexError:
            raise Undet("sample of another size")
    if isinstance(arr, AUnk):
        raise Undet("array " + str(arr.args[0]))
    if isinstance(arr, AFold):
        raise Undet("fold")
    if isinstance(arr, ANest):
        raise Undet("nested")
    if getattr(arr, "opaque", False):
        raise Undet(type(arr).__name__)
    return ev(component(evget(arr, ci, env), path or ()), env)


def evdims(arr, env):
    return [ev(d, env) for d in arr.dims]


def evget(arr, ci, env):
    """Element of an array at concrete indices, as a value."""
    tick(env)
    for i in ci:
        if isinstance(i, float) or i.denominator != 1:
            raise Undet("index")
    if isinstance(arr, AIte):
        return evget(arr.args[1] if ev(arr.args[0], env) else arr.args[2], ci, env)
    if isinstance(arr, AStore):
        b, i, v = arr.args
        return v if tuple(ev(x, env) for x in i) == tuple(ci) else evget(b, ci, env)
    if isinstance(arr, AResize):
        b, n, dv = arr.args
        return evget(b, ci, env) if ci[0] < ev(b.dims[0], env) else dv
    if isinstance(arr, AInsert):
        b, p, n, v = arr.args
        p, n = ev(p, env), ev(n, env)
        return evget(b, ci, env) if ci[0] < p else v if ci[0] < p + n else evget(b, (ci[0] - n,), env)
    if isinstance(arr, AErase):
        b, p, n = arr.args
        return evget(b, ci if ci[0] < ev(p, env) else (ci[0] + ev(n, env),), env)
    if isinstance(arr, AConcat):
        b, p, o = arr.args
        p, n = ev(p, env), ev(o.dims[0], env)
        if ci[0] < p:
            return evget(b, ci, env)
        return evget(o, (ci[0] - p,), env) if ci[0] < p + n else evget(b, (ci[0] - n,), env)
    if isinstance(arr, ASlice):
        return evget(arr.args[0], (ci[0] + ev(arr.args[1], env),), env)
    if isinstance(arr, ARev):
        return evget(arr.args[0], (ev(arr.args[0].dims[0], env) - 1 - ci[0],), env)
    if isinstance(arr, ALoop):
        return evloop(arr, ci, env)
    if isinstance(arr, AList):
        if not 0 <= ci[0] < len(arr.args[0]):
            raise OutOfRange("list")
        return arr.args[0][int(ci[0])]
    if type(arr).__name__ == "AView":
        V, nu, nv = arr.args
        return evget(V, (ci[0] + ci[1] * ev(nu, env),), env)
    return arr.get(tuple(const(i) for i in ci), None)


def evloop(arr, ci, env):
    key = ("loop", id(arr))
    r = env.memo.get(key)
    if r is None:
        r = (arr, loopmap(arr, env))
        env.memo[key] = r
    m = r[1]
    if isinstance(m, Undet):
        raise m
    w = m.get(tuple(ci))
    if w is None:
        return evget(arr.base, ci, env)
    return w[1]


def loopmap(arr, env):
    """index -> (time, value) of the last write."""
    out = {}
    cnt = [0]

    def fam(pos, w, k, m, tkey):
        if k == len(w.vars):
            cnt[0] += 1
            if cnt[0] > 1500:
                raise Undet("too many writes")
            if not ev(subst(w.guard, m), env):
                return
            ci = tuple(ev(subst(i, m), env) for i in w.idx)
            key = (tkey[:1], pos, tkey[1:])
            if ci not in out or out[ci][0] <= key:
                out[ci] = (key, subst(w.val, m))
            return
        v, lo, hi = w.vars[k]
        a, b = ev(subst(lo, m), env), ev(subst(hi, m), env)
        if isinstance(a, float) or isinstance(b, float):
            raise Undet("range")
        i = math.ceil(a)
        while i <= b:
            m2 = dict(m)
            m2[single(v)] = const(i)
            fam(pos, w, k + 1, m2, tkey + (i,))
            i += 1
    try:
        for pos, w in enumerate(arr.writes):
            fam(pos, w, 0, {}, ())
    except (Uninit, OutOfRange) as ex:
        return Undet("write: %s" % ex)
    except Undet as ex:
        return ex
    return out


def evatom(a, env):
    k = a.kind
    if k == "sym":
        return env.sym(a)
    key = id(a)
    r = env.memo.get(key)
    if r is not None:
        if r[2]:
            env.inexact = True
        return r[1]
    old = env.inexact
    env.inexact = False
    try:
        v = evatom1(a, env)
    except BaseException:
        env.inexact = True
        raise
    rough = env.inexact
    env.inexact = old or rough
    env.memo[key] = (a, v, rough)
    return v


def evatom1(a, env):
    tick(env)
    k = a.kind
    if k == "unk":
        if str(a.args[0]).startswith("uninit"):
            raise Uninit(a.args[0])
        raise (ZeroDiv if a.args[0] == "division by zero" else Undet)(a.args[0])
    if k == "sel":
        return evsel(a, env)
    if k == "ite":
        return ev(a.args[1] if ev(a.args[0], env) else a.args[2], env)
    if k == "inv":
        return finv(ev(a.args[0], env))
    if k == "idiv":
        x, y = ev(a.args[0], env), ev(a.args[1], env)
        if y == 0:
            raise ZeroDiv("division by zero")
        q = abs(x) // abs(y)
        return Fraction(q if (x >= 0) == (y > 0) else -q)
    if k == "imod":
        x, y = ev(a.args[0], env), ev(a.args[1], env)
        if y == 0:
            raise ZeroDiv("division by zero")
        q = abs(x) // abs(y)
        return x - y * Fraction(q if (x >= 0) == (y > 0) else -q)
    if k in ("min", "max"):
        vs = [ev(x, env) for x in a.args]
        if any(is_nan(v) for v in vs):
            raise Undet("min/max of NaN")
        return min(vs) if k == "min" else max(vs)
    if k == "max0":
        return max(Fraction(0), ev(a.args[0], env))
    if k in BINDERS:
        return evbind(a, env)
    if k == "app":
        return evapp(a, env)
    raise Undet("atom " + k)


def evbind(a, env):
    hi, body, d = a.args
    k = a.kind
    h = ev(hi, env)
    if isinstance(h, float):
        raise Undet("bound")
    n = math.floor(h) + (1 if k in ("sum", "prod", "minover", "maxover") else 0)
    if n > 400:
        raise Undet("range")
    acc = {"sum": Fraction(0), "prod": Fraction(1), "minover": None, "maxover": None}.get(k)
    for i in range(max(0, n)):
        b = open_(d, body, const(i))
        v = ev(b, env)
        if k == "sum":
            acc = fadd(acc, v)
        elif k == "prod":
            acc = fmul(acc, v)
        elif k == "first":
            if v:
                return Fraction(i)
        elif k == "exists":
            if v:
                return True
        else:
            if is_nan(v):
                raise Undet("NaN")
            acc = v if acc is None else (min(acc, v) if k == "minover" else max(acc, v))
    if k == "exists":
        return False
    if k == "first":
        return max(Fraction(0), h)
    if acc is None:
        return INFV if k == "minover" else -INFV
    return acc


def fsqrt(v):
    if isinstance(v, float):
        return v
    if v < 0:
        return NAN
    from math import isqrt
    n, d = isqrt(v.numerator), isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    S = 10 ** 40
    return Fraction(isqrt(v.numerator * S * S // v.denominator), S)


def evapp(a, env):
    n = a.args[0]
    args = a.args[1:]
    f = env.apps.get(n)
    if f is not None:
        return f(env, *args)
    if n == "decision":
        return evb(args[0], env)
    if n == "nan":
        return NAN
    if n == "inf":
        return INFV
    if n == "infinity":
        raise Undet("infinity")
    vs = [ev(x, env) if hasattr(x, "fv") else x for x in args]
    if n == "isnan":
        return is_nan(vs[0])
    if n == "isfinite":
        return not isinstance(vs[0], float)
    if n == "abs":
        return abs(vs[0])
    if any(isinstance(v, float) for v in vs):
        raise Undet("special value in " + n)
    if n == "trunc":
        v = vs[0]
        return Fraction(abs(v) // 1) * (1 if v >= 0 else -1)
    if n == "sqrt":
        r = fsqrt(vs[0])
        if not isinstance(r, float) and r * r != vs[0]:
            env.inexact = True
        return r
    if n in ("floor", "ceil"):
        return Fraction(math.floor(vs[0]) if n == "floor" else math.ceil(vs[0]))
    if n in ("acos", "asin", "atan", "cos", "sin", "tan", "exp", "log"):
        try:
            r = getattr(math, n)(float(vs[0]))
        except ValueError:
            raise Undet(n)
        env.inexact = True
        return Fraction(r)
    raise Undet("application " + str(n))
