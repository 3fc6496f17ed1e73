"""Simplification of terms and values under facts."""
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *

_memo = {}


def simp(x, facts):
    if not hasattr(x, "fv"):
        return x
    if len(_memo) > 200000:
        _memo.clear()
    return _s(x, facts, 0)


def has_gate(x):
    return True


def _s(x, facts, lvl):
    if isinstance(x, tuple):
        return tuple(_s(y, facts, lvl) for y in x)
    if not hasattr(x, "fv"):
        return x
    key = (id(x), id(facts))
    r = _memo.get(key)
    if r is not None:
        return r[2]
    v = _s1(x, facts, lvl)
    _memo[key] = (x, facts, v)
    return v


def _s1(x, facts, lvl):
    if isinstance(x, Poly):
        out = ZERO
        for m, c in x.terms:
            t = const(c)
            for a, e in m:
                s = _atom(a, facts, lvl)
                t = mul(t, power(s, e) if e > 0 else power(inv(s), -e))
            out = add(out, t)
        return out
    if isinstance(x, B):
        k = x.kind
        if k in ("true", "false"):
            return x
        d = facts.decide(x)
        if d is True:
            return TRUE
        if d is False:
            return FALSE
        if k == "batom":
            return _atom(x.args[0], facts, lvl)
        if k == "not":
            return bnot(_s(x.args[0], facts, lvl))
        if k == "and":
            out = []
            f = facts
            for y in x.args:
                z = _s(y, f, lvl)
                out.append(z)
            return band(*out)
        if k == "or":
            return bor(*[_s(y, facts, lvl) for y in x.args])
        return {"lt": lt0, "le": le0, "eq": eq0}[k](_s(x.args[0], facts, lvl))
    if isinstance(x, Vec):
        return vec([_s(c, facts, lvl) for c in x.c], x.rows, x.cols)
    if isinstance(x, Struct):
        return mk(Struct, x.cls, tuple((n, _s(v, facts, lvl)) for n, v in x.args[1]))
    if isinstance(x, AIte):
        c = _s(x.args[0], facts, lvl)
        if c is TRUE:
            return _s(x.args[1], facts, lvl)
        if c is FALSE:
            return _s(x.args[2], facts, lvl)
        return mk(AIte, c, _s(x.args[1], facts, lvl), _s(x.args[2], facts, lvl))
    if isinstance(x, (ALam, Write, ALoop, ASym, ANest)):
        return x
    if isinstance(x, (Arr,)):
        return x.map_(lambda y: _s(y, facts, lvl))
    return x


def _atom(a, facts, lvl):
    k = a.kind
    if k in ("sym", "bv", "unk") or k == "app" and a.args[0] == "decision":
        return batom(a) if a.typ == "bool" else pa(a)
    if k == "ite":
        c = _s(a.args[0], facts, lvl)
        if c is TRUE:
            return _s(a.args[1], facts, lvl)
        if c is FALSE:
            return _s(a.args[2], facts, lvl)
        return ite(c, _s(a.args[1], facts, lvl), _s(a.args[2], facts, lvl))
    if k == "max0":
        p = _s(a.args[0], facts, lvl)
        d = facts.decide(le(ZERO, p))
        return p if d is True else ZERO if d is False else mx0(p)
    if k in ("min", "max"):
        xs = [_s(y, facts, lvl) for y in a.args]
        keep = []
        for i, y in enumerate(xs):
            dom = False
            for j, z in enumerate(xs):
                if i == j or z in keep and False:
                    continue
                le_ = le(z, y) if k == "min" else le(y, z)
                if facts.prove(le_) and (j > i or j in [q for q, _ in keep]):
                    dom = True
                    break
            if not dom:
                keep.append((i, y))
        return minmax(k, [y for _, y in keep])
    if k == "idiv":
        return facts.idiv(_s(a.args[0], facts, lvl), _s(a.args[1], facts, lvl))
    if k == "imod":
        return facts.imod(_s(a.args[0], facts, lvl), _s(a.args[1], facts, lvl))
    if k in BINDERS:
        hi, body, d = a.args
        if a.depth > d or body.depth > d:
            return batom(a) if a.typ == "bool" else pa(a)     # inside another binder
        v = fresh("b")
        nh = _s(hi, facts, lvl)
        nb = open_(d, body, v)
        up = lt(v, nh) if k in ("exists", "first") else le(v, nh)
        nb = _s(nb, facts.extend([le(ZERO, v), up]), lvl + 1)
        return {"sum": lambda: bsum(v, ZERO, nh, nb), "exists": lambda: bexists(v, ZERO, nh, nb), "prod": lambda: bprod(v, ZERO, nh, nb),
                "first": lambda: first(v, ZERO, nh, nb), "minover": lambda: over("minover", v, ZERO, nh, nb),
                "maxover": lambda: over("maxover", v, ZERO, nh, nb)}[k]()
    if k == "sel":
        arr, idx, path = a.args
        na, ni = _s(arr, facts, lvl), _s(idx, facts, lvl)
        if na is arr and ni is idx:
            return batom(a) if a.typ == "bool" else pa(a)
        return component(na.get(ni, facts), path or ())
    args = tuple(_s(y, facts, lvl) for y in a.args)
    if all(x is y for x, y in zip(args, a.args)):
        return batom(a) if a.typ == "bool" else pa(a)
    return T._rebuild(a, args, None)


def split_atom(x, depth=0):
    """An undecided gate condition (without bound variables) of a simplified term; the simplest one first."""
    seen = set()
    found = {}

    def conds(c):
        if c.kind in ("true", "false"):
            return
        if c.kind in ("and", "or"):
            for y in c.args:
                conds(y)
            return
        if c.kind == "not":
            return conds(c.args[0])
        n = len(found)
        if c.kind == "batom":
            go_atom(c.args[0])
        else:
            go(c.args[0])
        if closed(c) and len(found) == n:
            found[c.id] = c

    def go(y):
        if len(found) > 60 or id(y) in seen:
            return
        seen.add(id(y))
        if isinstance(y, Poly):
            for m, _ in y.terms:
                for a, e in m:
                    go_atom(a)
        elif isinstance(y, B):
            conds(y)

    def go_atom(a):
        if id(a) in seen:
            return
        seen.add(id(a))
        if a.kind == "ite":
            conds(a.args[0])
            for y in a.args[1:]:
                go(y)
        elif a.kind == "max0":
            go(a.args[0])
            if closed(a.args[0]):
                c = le(ZERO, a.args[0])
                found[c.id] = c
        elif a.kind in ("min", "max"):
            for y in a.args:
                go(y)
            if all(closed(y) for y in a.args[:2]):
                c = le(a.args[0], a.args[1])
                found[c.id] = c
        elif a.kind in ("inv", "idiv", "imod", "app"):
            for y in a.args if a.args[0] != "decision" else ():
                if isinstance(y, (Poly, B)):
                    go(y)
        elif a.kind == "sel":
            for y in a.args[1]:
                go(y)
        elif a.kind in BINDERS:
            go(a.args[1])
            go(a.args[0])
    if isinstance(x, B) and x.kind not in ("and", "or", "not"):
        if x.kind not in ("true", "false"):
            (go_atom if x.kind == "batom" else go)(x.args[0])
    else:
        go(x)
    cs = [c for c in found.values() if c not in (TRUE, FALSE)]
    if not cs:
        return None
    return min(cs, key=rank)


_free = {}


def freebv(x):
    """Depths of the bound variables that occur free in x."""
    if isinstance(x, tuple):
        out = frozenset()
        for y in x:
            out |= freebv(y)
        return out
    if isinstance(x, Poly):
        if not x.depth:
            return frozenset()
        r = _free.get(("p", x.id))
        if r is None:
            r = frozenset()
            for m, _ in x.terms:
                for a, e in m:
                    r |= freebv(a)
            _free[("p", x.id)] = r
        return r
    if isinstance(x, B):
        return freebv(x.args) if x.depth else frozenset()
    if isinstance(x, Atom):
        if not x.depth:
            return frozenset()
        if x.kind == "bv":
            return frozenset([x.args[0]])
        r = _free.get(("a", x.id))
        if r is None:
            r = freebv(x.args)
            if x.kind in BINDERS:
                r -= {x.args[-1]}
            _free[("a", x.id)] = r
        return r
    if isinstance(x, Value):
        return freebv(x.args) if getattr(x, "depth", 0) else frozenset()
    return frozenset()


def closed(c):
    return not c.depth or not freebv(c)


def rank(c):
    if c.kind == "batom":
        return (0, 0, 1, c.id)
    p = c.args[0]
    deg = max([sum(abs(e) for _, e in m) for m, _ in p.terms] or [0])
    plain = all(a.kind == "sym" for m, _ in p.terms for a, _ in m)
    return (0 if plain else 1, deg, len(p.terms), c.id)


def cases(c):
    """Conditions that together cover everything, c decided in each."""
    x = c
    if x.kind == "eq":
        return [c, lt0(x.args[0]), lt0(neg(x.args[0]))]
    return [c, bnot(c)]


def tidy(x, facts, depth=0):
    """Gates decided by the facts are removed everywhere, also inside writes of loops and below other gates."""
    if isinstance(x, tuple):
        return tuple(tidy(y, facts, depth) for y in x)
    if not hasattr(x, "fv") or depth > 12:
        return x
    key = (x.id, id(facts), "tidy") if hasattr(x, "id") else None
    r = _memo.get(key)
    if r is None or r[0] is not x or r[1] is not facts:
        r = _memo[key] = (x, facts, _tidy(x, facts, depth))
    return r[2]


def _branch(c, a, b, facts, depth, make):
    d = facts.decide(c)
    if d is not None:
        return tidy(a if d else b, facts, depth + 1)
    x, y = tidy(a, facts.extend([c]), depth + 1), tidy(b, facts.extend([bnot(c)]), depth + 1)
    return x if x is y else y if same_at(c, x, y) else make(tidy(c, facts, depth + 1), x, y)


def same_at(c, x, y):
    """c = (s == K) and x at s = K is y at s = K: then the gate always yields y."""
    if c.kind != "eq" or not hasattr(x, "fv") or not hasattr(y, "fv"):
        return False
    p = c.args[0]
    for m, k in p.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym" and k in (1, -1) and (isint(p) or True):
            a = m[0][0]
            if a not in x.fv and a not in y.fv:
                continue
            K = scale(sub(p, scale(pa(a), k)), -k)
            if a in K.fv:
                continue
            return T.subst(x, {a: K}) is T.subst(y, {a: K})
    return False


def _tidy(x, facts, depth):
    if isinstance(x, Poly):
        if not any(a.kind not in ("sym", "bv") for m, _ in x.terms for a, _e in m):
            return x
        out = ZERO
        for m, c in x.terms:
            t = const(c)
            for a, e in m:
                s = _tatom(a, facts, depth)
                t = mul(t, power(s, e) if e > 0 else power(inv(s), -e))
            out = add(out, t)
        return out
    if isinstance(x, B):
        if x.kind in ("true", "false"):
            return x
        d = facts.decide(x)
        if d is not None:
            return TRUE if d else FALSE
        if x.kind == "batom":
            return _tatom(x.args[0], facts, depth)
        if x.kind == "not":
            return bnot(tidy(x.args[0], facts, depth + 1))
        if x.kind in ("and", "or"):
            return (band if x.kind == "and" else bor)(*[tidy(y, facts, depth + 1) for y in x.args])
        return {"lt": lt0, "le": le0, "eq": eq0}[x.kind](tidy(x.args[0], facts, depth + 1))
    if isinstance(x, AIte):
        return _branch(x.args[0], x.args[1], x.args[2], facts, depth, lambda c, a, b: mk(AIte, c, a, b))
    if isinstance(x, ALoop):
        ws = []
        for w in x.writes:
            f, vs = facts, []
            for v, lo, hi in w.vars:
                lo, hi = tidy(lo, f, depth + 1), tidy(hi, f, depth + 1)
                vs.append((v, lo, hi))
                f = f.extend([le(lo, v), le(v, hi)])
            g = tidy(w.guard, f, depth + 1)
            f = f.extend([g])
            ws.append(mk(Write, tuple(vs), g, tidy(w.idx, f, depth + 1), tidy(w.val, f, depth + 1)))
        return loop_arr(tidy(x.base, facts, depth + 1), tuple(ws))
    if isinstance(x, (ALam, ASym, ANest, Write)) or getattr(x, "bound", lambda: ())():
        return x
    if isinstance(x, (Vec, Struct, Arr)):
        return x.map_(lambda y: tidy(y, facts, depth + 1))
    return x


def _tatom(a, facts, depth):
    k = a.kind
    same = batom(a) if a.typ == "bool" else pa(a)
    if k in ("sym", "bv", "unk") or k in BINDERS or a.depth or k == "app" and a.args[0] == "decision":
        return same
    if k == "ite":
        return _branch(a.args[0], a.args[1], a.args[2], facts, depth, ite)
    if k == "max0":
        p = tidy(a.args[0], facts, depth + 1)
        d = facts.decide(le(ZERO, p))
        return p if d is True else ZERO if d is False else mx0(p)
    args = tuple(tidy(y, facts, depth + 1) for y in a.args)
    if all(x is y for x, y in zip(args, a.args)):
        return same
    if k == "sel":
        return component(args[0].get(args[1], facts), args[2] or ())
    return T._rebuild(a, args, None)
