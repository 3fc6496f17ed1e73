"""Entailment in the polyhedral abstract domain: facts are (products of) linear inequalities over monomials; a goal is
entailed if some non-negative combination of facts contradicts its negation (Farkas), found by an exact simplex."""
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import T_divpoly


def simplex_feasible(rows, b):
    """Is there x >= 0 with rows * x = b?  Dense phase-1 simplex over rationals, Bland's rule."""
    m = len(rows)
    if m == 0:
        return True
    n = len(rows[0])
    tab = []
    for i in range(m):
        r, c = list(rows[i]), b[i]
        if c < 0:
            r = [-v for v in r]
            c = -c
        tab.append(r + [c])
    # artificial basis; objective = sum of artificials
    basis = [-1 - i for i in range(m)]
    obj = [sum(tab[i][j] for i in range(m)) for j in range(n + 1)]
    it = 0
    while True:
        it += 1
        if obj[n] == 0:
            return True
        if it > 400:
            return False
        # entering: largest coefficient first, Bland after a while
        col = -1
        if it < 60:
            best = 0
            for j in range(n):
                if obj[j] > best:
                    best, col = obj[j], j
        else:
            for j in range(n):
                if obj[j] > 0:
                    col = j
                    break
        if col < 0:
            return obj[n] == 0
        row, ratio = -1, None
        for i in range(m):
            a = tab[i][col]
            if a > 0:
                q = tab[i][n] / a
                if ratio is None or q < ratio or (q == ratio and basis[i] < basis[row]):
                    ratio, row = q, i
        if row < 0:
            return False
        p = tab[row][col]
        tr = [v / p for v in tab[row]]
        tab[row] = tr
        for i in range(m):
            if i != row and tab[i][col] != 0:
                f = tab[i][col]
                tab[i] = [v - f * w if w else v for v, w in zip(tab[i], tr)]
        if obj[col] != 0:
            f = obj[col]
            obj = [v - f * w if w else v for v, w in zip(obj, tr)]
        basis[row] = col


def literals(b):
    """Conjuncts of b as (poly, strict) with poly >= 0 (or > 0); non-arithmetic conjuncts are skipped."""
    out = []
    st = [b]
    while st:
        x = st.pop()
        k = x.kind
        if k == "and":
            st.extend(x.args)
        elif k == "le":
            out.append((neg(x.args[0]), False))
        elif k == "lt":
            out.append((neg(x.args[0]), True))
        elif k == "eq":
            out.append((x.args[0], False))
            out.append((neg(x.args[0]), False))
        elif k == "not":
            y = x.args[0]
            if y.kind == "lt":
                out.append((y.args[0], False))
            elif y.kind == "le":
                out.append((y.args[0], True))
    return out


def axioms(a):
    """Facts that hold for an atom by its meaning."""
    p = pa(a)
    k = a.kind
    out = []
    if k == "max0":
        out += [p, sub(p, a.args[0])]
    elif k == "min":
        out += [sub(x, p) for x in a.args]
    elif k == "max":
        out += [sub(p, x) for x in a.args]
    elif k == "first":
        out += [p]
        out += [sub(mx0(a.args[0]), p)]
    elif k == "idiv":
        x, y = a.args
        cy = cval(y)
        if cy is not None and cy > 0:
            # |x - y*q| < y, sign known only when x >= 0; the context adds the tighter form
            out += [sub(add(sub(x, mul(y, p)), y), ONE), sub(add(sub(mul(y, p), x), y), ONE)]
    elif k == "app" and a.args[0] == "abs":
        out += [p, sub(p, a.args[1]), add(p, a.args[1])]
    elif k == "app" and a.args[0] in ("sqrt", "norm"):
        out += [p]
    elif k == "app" and a.args[0] == "krem" and len(a.args) == 7:
        # removal: the end knots stay, so at least degree+1 points remain
        out += [p, sub(sub(sub(a.args[2].dims[0], a.args[3]), ONE), p)]
    elif k == "app" and a.args[0] == "krem_all" and len(a.args) == 7:
        out += [p, sub(sub(sub(a.args[2], a.args[3]), ONE), p)]
    elif k == "app" and a.args[0] == "elev_size" and len(a.args) == 5:
        out += [sub(p, add(add(a.args[3], a.args[4]), ONE))]
    elif k == "sel" and isinstance(a.args[2], tuple) and isinstance(a.args[2][-1], str) and str(a.args[2][-1]).startswith("dim"):
        out += [p]
    return out


WITNESS = {"r"}     # names of the symbols that stand for "some index" in the demands


class Facts:
    """A conjunction of facts with entailment."""
    def __init__(self, facts=(), parent=None, extra_axioms=None):
        self.facts = tuple(f for f in facts if f is not TRUE)
        self.ids = {}
        self.extra = extra_axioms
        for f in self.facts:
            self.ids[f.id] = f
            if f.kind == "and":
                for g in f.args:
                    self.ids[g.id] = g
        self.false = any(f is FALSE for f in self.facts)
        self._lits = None
        self.cache = {}
        self.idcache = {}

    _ext = {}

    def extend(self, more):
        more = tuple({f.id: f for f in more if f is not TRUE and f.id not in self.ids}.values())
        if not more:
            return self
        key = (self.facts, more, self.extra)
        r = Facts._ext.get(key)
        if r is None:
            r = Facts(self.facts + more, extra_axioms=self.extra)
            if len(Facts._ext) > 20000:
                Facts._ext.clear()
            Facts._ext[key] = r
        return r

    def lits(self):
        if self._lits is None:
            l = []
            for f in self.facts:
                l += literals(f)
            for f in self.facts:
                # a whole number other than zero is at least 1 or at most -1
                if f.kind == "not" and f.args[0].kind == "eq" and len(f.args[0].args[0].terms) <= 3 and isint(f.args[0].args[0]):
                    p = f.args[0].args[0]
                    for q in (p, neg(p)):
                        g = (sub(neg(q), ONE), False)
                        if infeasible(l + [g], [g[0]], self):
                            l = l + [(sub(q, ONE), False)]
                            break
            self._lits = l
        return self._lits

    def decide(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        r = self.cache.get(b.id, 0)
        if r != 0:
            return r
        r = None
        if self.prove(b):
            r = True
        elif self.prove(bnot(b)):
            r = False
        self.cache[b.id] = r
        return r

    def prove(self, b, depth=0):
        if b is TRUE or self.false:
            return True
        if b is FALSE:
            return self.infeasible([])
        if b.id in self.ids:
            return True
        k = b.kind
        if k == "and":
            return all(self.prove(x, depth) for x in b.args)
        if k == "or":
            if any(self.prove(x, depth) for x in b.args):
                return True
            if len(b.args) <= 3:
                last = b.args[-1]
                return self.extend([bnot(x) for x in b.args[:-1]]).prove(last, depth + 1) if depth < 3 else False
            return False
        if k == "not":
            x = b.args[0]
            if x.kind == "eq":
                p = x.args[0]
                if any(a.kind == "ite" for m, _ in p.terms for a, _e in m):
                    from .simp import tidy
                    q = bnot(eq(tidy(p, self), ZERO))
                    if q is not b:
                        return self.prove(q, depth)
                return self.nonneg(sub(p, ONE) if isint(p) else p, not isint(p)) or \
                    self.nonneg(sub(neg(p), ONE) if isint(p) else neg(p), not isint(p))
            if x.kind == "lt":
                return self.nonneg(x.args[0])
            if x.kind == "le":
                return self.nonneg(x.args[0], True)
            if x.kind == "batom" and x.args[0].kind == "exists" and depth < 2 and x.depth <= x.args[0].args[2]:
                hi, body, d = x.args[0].args
                v = T.fresh("x")
                nb = T.open_(d, body, v)
                return self.extend([le(ZERO, v), lt(v, hi)]).prove(bnot(nb), depth + 1)
            return False
        if k == "le":
            return self.nonneg(neg(b.args[0]))
        if k == "lt":
            return self.nonneg(neg(b.args[0]), True)
        if k == "eq":
            return self.nonneg(b.args[0]) and self.nonneg(neg(b.args[0]))
        if k == "batom" and b.args[0].kind == "exists" and b.depth <= b.args[0].args[2] and depth < 2:
            # a witness among the whole numbers the facts speak about
            hi, body, d = b.args[0].args
            for w in self.witnesses():
                if self.prove(band(le(ZERO, w), lt(w, hi))) and self.prove(T.open_(d, body, w), depth + 1):
                    return True
        return False

    def witnesses(self):
        w = self.cache.get("witnesses")
        if w is None:
            w = [ZERO]
            for f in self.facts:
                for a in f.fv:
                    if getattr(a, "kind", None) == "sym" and a.typ == "int" and str(a.args[0]) in WITNESS:
                        w += [q for q in (pa(a), add(pa(a), ONE)) if q not in w]
            self.cache["witnesses"] = w
        return w

    def nonneg(self, p, strict=False, depth=0):
        """Do the facts entail p >= 0 (p > 0)?"""
        c = cval(p)
        if c is not None and (c > 0 or (c == 0 and not strict)):
            return True
        # case split on gated values of the goal
        if depth < 4:
            for m, _ in p.terms:
                for a, e in m:
                    if a.kind == "ite":
                        cnd = a.args[0]
                        d = self.decide(cnd)
                        m1, m2 = {a: a.args[1]}, {a: a.args[2]}
                        pt, pf = _repl(p, a, a.args[1]), _repl(p, a, a.args[2])
                        if d is True:
                            return self.nonneg(pt, strict, depth)
                        if d is False:
                            return self.nonneg(pf, strict, depth)
                        return self.extend([cnd]).nonneg(pt, strict, depth + 1) and \
                            self.extend([bnot(cnd)]).nonneg(pf, strict, depth + 1)
                    if a.kind == "max0":
                        q = a.args[0]
                        d = self.decide(le(ZERO, q)) if q is not p else None
                        if d is True:
                            return self.nonneg(_repl(p, a, q), strict, depth)
                        if d is False:
                            return self.nonneg(_repl(p, a, ZERO), strict, depth)
        key = ("nn", p.id, strict)
        r = self.cache.get(key)
        if r is None:
            goal = neg(p)   # negation: p < 0  <=>  -p > 0 ; ints: -p - 1 >= 0 ; strict goal: -p >= 0
            if strict:
                g = (goal, False)
            elif isint(p):
                g = (sub(goal, ONE), False)
            else:
                g = (goal, True)
            r = self.infeasible([g])
            if not r and depth < 4 and len(p.terms) <= 12 and any(len(m) > 1 or m and (m[0][1] != 1 or m[0][0].kind == "inv") for m, _ in p.terms):
                self.cache[key] = False
                r = self.by_signs(p, strict, depth)
            self.cache[key] = r
        return r

    def by_signs(self, p, strict, depth):
        """Every term of p is nonnegative by the signs of its factors."""
        some_ = False
        for m, c in p.terms:
            s = 2 if c > 0 else -2      # 2: positive, 1: nonnegative, -1, -2: the same with the other sign
            for a, e in m:
                x = self.sign(a, depth)
                if e % 2 == 0:
                    x = 2 if abs(x) == 2 else 1
                elif not x:
                    return False
                s = (1 if s * x > 0 else -1) * (2 if abs(s) == abs(x) == 2 else 1)
            if s < 0:
                return False
            some_ = some_ or s == 2
        return some_ or not strict

    def sign(self, a, depth):
        q = a.args[0] if a.kind == "inv" else pa(a)
        for y, k in ((q, 1), (neg(q), -1)):
            if self.nonneg(y, True, depth + 1):
                return 2 * k
            if a.kind != "inv" and self.nonneg(y, False, depth + 1):
                return k
        return 0

    def infeasible(self, extra):
        """Are facts + extra contradictory over the rationals?"""
        lits = list(self.lits()) + list(extra)
        return infeasible(lits, [l for l, _ in extra], self)

    # ---- integer division under the facts
    def idiv(self, a, b):
        key = ("idiv", a.id, b.id)
        r = self.idcache.get(key)
        if r is None:
            r = self._idiv(a, b)
            self.idcache[key] = r
        return r

    def _idiv(self, a, b):
        if cval(a) is not None and cval(b) is not None:
            return T.idiv(a, b)
        k = self.fdiv(a, b)
        if k is not None and (not sub(a, mul(k, b)).terms or self.prove(le(ZERO, k))):
            return k
        return T.idiv(a, b)

    def fdiv(self, a, b):
        """Floor of a / b (b > 0) where it can be shown, else None."""
        key = ("fdiv", a.id, b.id)
        r = self.idcache.get(key, 0)
        if r == 0:
            r = None
            for k, r0 in _splits(a, b):
                if self.prove(band(le(ZERO, r0), lt(r0, b))):
                    r = k
                    break
            self.idcache[key] = r
        return r

    def imod(self, a, b):
        return sub(a, mul(b, self.idiv(a, b)))


def _splits(a, b):
    k, r = T_divpoly(a, b)
    yield k, r
    # r may still contain +-b
    yield add(k, ONE), sub(r, b)
    yield sub(k, ONE), add(r, b)


def _repl(p, a, v):
    out = ZERO
    for m, c in p.terms:
        t = const(c)
        for x, e in m:
            if x is a:
                t = mul(t, power(v, e) if e > 0 else power(inv(v), -e))
            else:
                t = mul(t, T._mkpoly({((x, e),): Fraction(1)}))
        out = add(out, t)
    return out


_inf_cache = {}


def infeasible(lits, goals, facts=None):
    key = (frozenset((p.id, s) for p, s in lits), tuple(g.id for g in goals), facts.extra if facts is not None else None)
    r = _inf_cache.get(key)
    if r is None:
        r = _infeasible(lits, goals, facts)
        if len(_inf_cache) > 200000:
            _inf_cache.clear()
        _inf_cache[key] = r
    return r


def _infeasible(lits, goals, facts):
    # axioms of the atoms involved
    seen = set()
    allp = [p for p, _ in lits]
    work = list(allp)
    ax = []
    while work:
        p = work.pop()
        for m, _ in p.terms:
            for a, e in m:
                if a.id in seen:
                    continue
                seen.add(a.id)
                for q in axioms(a):
                    ax.append((q, False))
                    work.append(q)
                if a.kind == "idiv":
                    x, y = a.args
                    q = pa(a)
                    # non-negative dividend, positive divisor
                    if facts is not None and a.id not in _busy:
                        _busy.add(a.id)
                        try:
                            if facts.prove(band(le(ZERO, x), le(ONE, y))):
                                ax += [(sub(x, mul(y, q)), False), (sub(sub(add(x, ZERO), mul(y, q)), ZERO), False),
                                       (sub(add(mul(y, q), sub(y, ONE)), x), False), (q, False)]
                                work += [x, y]
                        finally:
                            _busy.discard(a.id)
                if facts is not None and facts.extra:
                    for q in facts.extra(a, facts):
                        ax.append((q, False))
                        work.append(q)
    lits = [(p, s) for p, s in lits] + ax
    # trivially contradictory
    for p, s in lits:
        c = cval(p)
        if c is not None and (c < 0 or (s and c == 0)):
            return True
    lits = [(p, s) for p, s in lits if cval(p) is None]
    # relevance: monomials connected to the goals
    if goals:
        rel = set()
        for g in goals:
            rel |= {m for m, _ in g.terms if m}
        # products for non-linear monomials
        lits2 = relevant(lits, rel)
    else:
        lits2 = lits
    if _farkas(lits2):
        return True
    nl = {m for p, _ in lits2 for m, _ in p.terms if sum(e for _, e in m) > 1 and all(e > 0 for _, e in m)}
    if not nl:
        return False
    # product saturation: a*b >= 0 for facts a, b >= 0 that produce the wanted non-linear monomials
    prods = []
    base = [p for p, s in lits if len(p.terms) <= 4 and all(sum(e for _, e in m) <= 1 for m, _ in p.terms)]
    lin = [(p, s) for p, s in lits if all(sum(e for _, e in m) <= 1 for m, _ in p.terms)]
    # sign facts of the atoms that occur in the wanted products (implied, not stated)
    units = []
    for a in {a for m in nl for a, _ in m}:
        p = pa(a)
        if a.typ == "int" and _farkas(relevant(lin + [(neg(p), False)], {((a, 1),)})):
            units.append(sub(p, ONE))
            units.append(p)
        elif _farkas(relevant(lin + [((sub(neg(p), ONE), False) if a.typ == "int" else (neg(p), True))], {((a, 1),)})):
            units.append(p)
    seenp = set()
    rest = []
    new = set()
    rel1 = {((a, 1),) for m in nl for a, _ in m}
    base = [p for p in base if any(m in rel1 for m, _ in p.terms)]
    cand = units + [p for p in base[:40] if p not in units]
    for i in range(len(cand)):
        for j in range(i, len(cand)):
            q = mul(cand[i], cand[j])
            if q.id in seenp:
                continue
            seenp.add(q.id)
            ms = {m for m, _ in q.terms if sum(e for _, e in m) > 1}
            if ms and len(ms & nl) >= 1 and len(ms - nl) <= 1:
                prods.append((q, False))
                new |= ms - nl
            elif ms and not (ms & nl) and len(ms) == 1:
                rest.append((q, ms))
    # products of a linear fact with a bilinear one are not needed so far
    if not prods:
        return False
    lits3 = lits + prods[:120]
    if goals:
        rel = set()
        for g in goals:
            rel |= {m for m, _ in g.terms if m}
        lits3 = relevant(lits3, rel)
    if _farkas(lits3):
        return True
    # signs of the products that came in on the way
    atoms = {a for m in new for a, _ in m} - {a for m in nl for a, _ in m}
    if not new or len(atoms) > 4:
        return False
    more = [(q, False) for q, ms in rest if ms <= new]
    us = [p for p in units if len(p.terms) == 1]
    for a in atoms:
        p = pa(a)
        lo = ONE if a.typ == "int" and _farkas(relevant(lin + [(neg(p), False)], {((a, 1),)})) else ZERO if \
            _farkas(relevant(lin + [((sub(neg(p), ONE), False) if a.typ == "int" else (neg(p), True))], {((a, 1),)})) else None
        if lo is not None:
            for u in us:
                for b in ([p] if lo is ZERO else [sub(p, ONE), p]):
                    q = mul(u, b)
                    if {m for m, _ in q.terms if sum(e for _, e in m) > 1} <= new | nl:
                        more.append((q, False))
    if not more:
        return False
    lits4 = lits + (prods + more)[:160]
    if goals:
        lits4 = relevant(lits4, rel)
    return _farkas(lits4)


_busy = set()


def relevant(lits, rel):
    rel = set(rel)
    chosen = [False] * len(lits)
    monos = [{m for m, _ in p.terms if m} for p, _ in lits]
    ch = True
    while ch:
        ch = False
        for i, ms in enumerate(monos):
            if not chosen[i] and ms & rel:
                chosen[i] = True
                if not ms <= rel:
                    rel |= ms
                ch = True
    return [l for i, l in enumerate(lits) if chosen[i]]


def _farkas(lits):
    """Is there a non-negative combination of the literals that is a negative constant (or 0 with a strict one)?"""
    uniq = {}
    for p, s in lits:
        k = p.id
        if k not in uniq or (s and not uniq[k][1]):
            uniq[k] = (p, s)
    lits = list(uniq.values())
    if not lits or len(lits) > 160:
        lits = lits[:160]
        if not lits:
            return False
    # drop literals with a monomial that occurs with one sign only
    changed = True
    while changed:
        changed = False
        pos, ng = {}, {}
        for p, _ in lits:
            for m, c in p.terms:
                if m:
                    (pos if c > 0 else ng)[m] = True
        nl = []
        for p, s in lits:
            if all((not m) or (m in pos and m in ng) for m, _ in p.terms):
                nl.append((p, s))
            else:
                changed = True
        lits = nl
    if not lits:
        return False
    monos = {}
    for p, _ in lits:
        for m, _c in p.terms:
            if m and m not in monos:
                monos[m] = len(monos)
    nrow = len(monos)
    rows = [[Fraction(0)] * len(lits) for _ in range(nrow)]
    crow = [Fraction(0)] * len(lits)
    srow = [Fraction(0)] * len(lits)
    for j, (p, s) in enumerate(lits):
        for m, c in p.terms:
            if m:
                rows[monos[m]][j] = c
            else:
                crow[j] = c
        if s:
            srow[j] = Fraction(1)
    # sum l_j p_j = -1 (constant), i.e. contradiction
    if simplex_feasible(rows + [crow], [Fraction(0)] * nrow + [Fraction(-1)]):
        return True
    if any(srow):
        # constant combination 0 with strict weight 1 (slack: constant <= 0)
        r = [x + [Fraction(0)] for x in rows]
        return simplex_feasible(r + [crow + [Fraction(1)], srow + [Fraction(0)]],
                                [Fraction(0)] * nrow + [Fraction(0), Fraction(1)])
    return False
