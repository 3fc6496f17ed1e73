"""Comparison of what the analysis derived for a function with what the property demands of it.

A demand is a term over the same symbols.  It is met when the difference normalises to zero under the facts that hold
there (status "proved").  A difference that does not vanish is evaluated at valuations of the input symbols that satisfy
the facts: one valuation at which the two terms differ shows that the function can return something else (status
"refuted").  Terms that agree at every valuation but could not be normalised are "agrees", everything the domain cannot
express is "open"; neither raises an alarm."""
import os
import signal
import time
import traceback
from .terms import *
from . import terms as T
from .values import *
from .evalt import Env, ev, evb, evget, Undet, ZeroDiv, Uninit, OutOfRange, is_nan, hrand
from .frontend import AnalysisBroken
from .simp import simp, split_atom, cases

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class SArr:
    """Demanded array: dimensions and element demand at an index."""
    def __init__(self, dims, fn):
        self.dims, self.fn = tuple(dims), fn


class Skip(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


class Ctx_:
    """One run of one property's check."""
    def __init__(self, prog, tier="quick"):
        self.prog = prog
        self.tier = tier
        self.items = []
        self.group = ""
        self.nobl = 0
        self.funcs = {}
        self.tier = tier
        self.nsamples = 400 if tier == "quick" else 4000
        self.sampletime = 6 if tier == "quick" else 40
        if prog is not None:
            self.setprog(prog)

    def setprog(self, prog):
        from .inputs import note_literals
        self.prog = prog
        note_literals(prog)

    pick = None     # only demands of this kind
    pending = ()    # calls whose accesses are still to be checked
    soft = False    # demands on the shape of a loop: another shape is no violation

    def add(self, status, rule, where, detail="", witness=None):
        if self.soft and status == "refuted":
            status, detail, witness = "open", "the loop has another shape (%s)" % detail, None
        self.items.append({"group": self.group, "status": status, "rule": rule, "where": where, "detail": detail, "witness": witness})

    def saw(self, fn):
        self.funcs[fn["key"]] = fn["l"]

    def run_group(self, name, f, limit):
        self.group = name
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        t0 = time.time()
        try:
            f(self)
        except Timeout:
            self.add("open", "time limit of the group", name, "%.0f s" % limit)
        except (AnalysisBroken, AssertionError):
            raise
        except (TooBig, RecursionError) as ex:
            self.add("open", "terms too large", name, type(ex).__name__)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return time.time() - t0


def where(fn):
    return "%s %s" % (fn["l"], fn["key"])


# ---- proving --------------------------------------------------------------------------------------------------

def eq_subst(c):
    """{symbol: term} for an equation between symbols that can be solved for one of them."""
    if c.kind != "eq":
        return None
    p = c.args[0]
    best = None
    for m, k in p.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym":
            a = m[0][0]
            rest = sub(p, scale(pa(a), k))
            if a in rest.fv or (a.typ == "int" and abs(k) != 1):
                continue
            if best is None or a.id > best[0].id:
                best = (a, scale(rest, -1 / k))
    return {best[0]: best[1]} if best else None


def zero_under(d, facts):
    """Is d zero?  A common factor is dropped first."""
    if is_zero(d):
        return True
    common = None
    for m, _ in d.terms:
        xs = {a for a, e in m if e > 0}
        common = xs if common is None else common & xs
    for a in common or ():
        if all(dict(m)[a] == 1 for m, _ in d.terms):
            q = ZERO
            for m, k in d.terms:
                t = const(k)
                for b, e in m:
                    if b is not a:
                        t = mul(t, power(pa(b), e) if e > 0 else power(inv(pa(b)), -e))
                q = add(q, t)
            if facts.prove(eq(q, ZERO)):
                return True
    return facts.prove(eq(d, ZERO))


def merge_reads(p, facts):
    """Reads of the same array at indices that are equal under the facts become one read."""
    reads = {}
    for m, _ in p.terms:
        for a, e in m:
            if a.kind == "sel" and closed_(a):
                reads.setdefault((a.args[0], a.args[2]), {})[a] = 1
    done = {}
    for xs in reads.values():
        xs = sorted(xs, key=lambda a: a.id)
        if len(xs) > 12:
            continue
        for i, a in enumerate(xs):
            for b in xs[:i]:
                if b not in done and len(a.args[1]) == len(b.args[1]) and all(zero_under(sub(x, y), facts) for x, y in zip(a.args[1], b.args[1])):
                    done[a] = pa(b)
                    break
    if not done:
        return p
    out = ZERO
    for m, k in p.terms:
        t = const(k)
        for a, e in m:
            b = done.get(a, pa(a))
            t = mul(t, power(b, e) if e > 0 else power(inv(b), -e))
        out = add(out, t)
    return out


def closed_(a):
    return not a.depth


def settle(th, facts, depth=7, budget=None, eqs=()):
    """Do the two terms th(facts) agree under the facts?  Splits on the conditions they are gated by."""
    budget = budget if budget is not None else [150]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    pr = th(facts)
    if pr is None:
        return False
    a, b = pr
    for m in eqs:
        a, b = subst(a, m), subst(b, m)
    if isinstance(b, Poly):
        if isinstance(a, Poly) and identical(a, b):
            return True
        p = simp(sub(a, b), facts)
        if is_zero(p):
            return True
        c = split_atom(p)
        if c is None:
            return is_zero(merge_reads(p, facts))
    else:
        a, b = simp(a, facts), simp(b, facts)
        if a is b or facts.extend([a]).prove(b) and facts.extend([bnot(a)]).prove(bnot(b)):
            return True
        c = split_atom(bor(a, b)) or split_atom(a) or split_atom(b)
    if depth <= 0 or c is None:
        return False
    for x in cases(c):
        f = facts.extend([x])
        if f.infeasible([]):
            continue
        m = eq_subst(x)
        if m is None and x.kind == "le" and isint(x.args[0]) and f.prove(le(ZERO, x.args[0])):
            m = eq_subst(eq(x.args[0], ZERO))
        if f is facts or not settle(th, f, depth - 1, budget, eqs + (m,) if m else eqs):
            return False
    return True


PRIMES = ((1 << 127) - 1, (1 << 89) - 1, (1 << 107) - 1)


def identical(a, b):
    """Are a and b the same rational function of their atoms?  The identity is decided in three prime fields at random places
    (64-bit residues; a wrong answer has probability below 2^-100); atoms count as independent variables."""
    if a is b:
        return True
    try:
        return all(residue(a, q, m) == residue(b, q, m) for q in PRIMES for m in ({},))
    except ZeroDivisionError:
        return False


def residue(p, q, memo):
    t = 0
    for m, c in p.terms:
        v = c.numerator % q * pow(c.denominator, -1, q) % q
        for a, e in m:
            x = memo.get(a)
            if x is None:
                if a.kind == "inv":
                    x = residue(a.args[0], q, memo)
                    if not x:
                        raise ZeroDivisionError
                    x = pow(x, -1, q)
                else:
                    x = hrand("field", q, a.id) % q or 1
                memo[a] = x
            v = v * (x if e == 1 else pow(x, e, q)) % q
        t += v
    return t % q


def beq(a, b, facts):
    return settle(lambda f: (a, b), facts)


def leaves(path, code, spec, facts, out):
    """Expands a comparison into scalar ones.  code, spec: facts -> value; out gets (path, thunk, facts) or (path, None, reason)."""
    s0 = spec(facts)
    if s0 is None:
        return
    c0 = code(facts)
    if isinstance(s0, (dict, Struct)):
        names = list(s0) if isinstance(s0, dict) else [n for n, _ in s0.args[1]]
        if not isinstance(c0, Struct):
            out.append((path, None, "value of an unknown form (%s)" % type(c0).__name__))
            return
        for n in names:
            if not c0.has(n):
                raise AnalysisBroken("%s: no member %s" % (path, n))

            def cg(f, n=n):
                v = code(f)
                return v.get(n) if isinstance(v, Struct) and v.has(n) else None

            def sg(f, n=n):
                v = spec(f)
                return v[n] if isinstance(v, dict) else v.get(n)
            leaves(path + "." + n, cg, sg, facts, out)
        return
    if isinstance(s0, (Arr, SArr)):
        if not isinstance(c0, Arr):
            out.append((path, None, "array of an unknown form (%s)" % type(c0).__name__))
            return
        if len(c0.dims) != len(s0.dims):
            out.append((path, None, "dimension mismatch"))
            return
        for k, (x, y) in enumerate(zip(c0.dims, s0.dims)):
            leaves(path + ".size" + (str(k) if len(c0.dims) > 1 else ""), lambda f, x=x: x, lambda f, y=y: y, facts, out)
        idx = tuple(fresh("i") for _ in s0.dims)
        f2 = facts.extend([band(le(ZERO, i), lt(i, d)) for i, d in zip(idx, s0.dims)])

        def cg(f):
            v = code(f)
            return v.get(idx, f) if isinstance(v, Arr) else None
        sg = (lambda f: s0.get(idx, f)) if isinstance(s0, Arr) else (lambda f: call_spec(s0.fn, idx, f))
        leaves(path + "[]", cg, sg, f2, out)
        return
    if isinstance(s0, (Vec, tuple, list)):
        n = len(s0.c if isinstance(s0, Vec) else s0)
        if not isinstance(c0, Vec):
            out.append((path, None, "vector of an unknown form (%s)" % type(c0).__name__))
            return
        if len(c0.c) != n:
            out.append((path, None, "vector length"))
            return
        for k in range(n):
            def cg(f, k=k):
                v = code(f)
                return v.c[k] if isinstance(v, Vec) else None

            def sg(f, k=k):
                v = spec(f)
                return (v.c if isinstance(v, Vec) else v)[k]
            leaves("%s.%s" % (path, "xyzw"[k] if k < 4 and n <= 4 else k), cg, sg, facts, out)
        return
    if isinstance(s0, (Poly, B)):
        if not isinstance(c0, (Poly, B)):
            out.append((path, None, "scalar of an unknown form (%s)" % type(c0).__name__))
            return

        def th(f):
            a, b = code(f), spec(f)
            if isinstance(a, B) and isinstance(b, Poly):
                a = ite(a, ONE, ZERO)
            if isinstance(a, Poly) and isinstance(b, B):
                a = ne(a, ZERO)
            if not isinstance(a, (Poly, B)):
                return None
            return a, b
        out.append((path, th, facts))
        return
    raise AssertionError("demand of type %s" % type(s0).__name__)


def call_spec(fn, idx, f):
    return fn(*idx)


# ---- refuting -------------------------------------------------------------------------------------------------

def differ(a, b, env):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) != bool(b)
    if isinstance(a, float) or isinstance(b, float):
        if is_nan(a) and is_nan(b):
            return False
        if isinstance(a, float) and isinstance(b, float) and not is_nan(a) and not is_nan(b):
            return a != b
        return True
    if a == b:
        return False
    if env.inexact:
        return abs(a - b) > 1e-7 * (1 + abs(a) + abs(b))
    return True


class Differs(Exception):
    pass


def evcmp(path, code, spec, env, st):
    """Compares concretely; raises Differs(path, got, want)."""
    if spec is None:
        return
    if isinstance(spec, Struct):
        spec = dict(spec.args[1])
    if isinstance(spec, dict):
        if not isinstance(code, Struct):
            st["undet"] += 1
            return
        for n, s in spec.items():
            evcmp(path + "." + n, code.get(n), s, env, st)
        return
    if isinstance(spec, Arr):
        a = spec
        spec = SArr(a.dims, lambda *i: a.get(i, None))
    if isinstance(spec, SArr):
        if not isinstance(code, Arr) or len(code.dims) != len(spec.dims):
            st["undet"] += 1
            return
        for k, (x, y) in enumerate(zip(code.dims, spec.dims)):
            evcmp(path + ".size" + (str(k) if len(code.dims) > 1 else ""), x, y, env, st)
        try:
            n = [int(ev(d, env)) for d in spec.dims]
        except (Undet, Uninit, OutOfRange):
            st["undet"] += 1
            return
        tot = 1
        for d in n:
            tot *= max(0, d)
        if tot > 150:
            st["undet"] += 1
            return

        def rec(pre):
            if len(pre) == len(n):
                idx = tuple(const(i) for i in pre)
                el = call_spec(spec.fn, idx, None)
                if el is not None:
                    try:
                        got = evget(code, tuple(Fraction_(i) for i in pre), env)
                    except (Undet, Uninit, OutOfRange):
                        st["undet"] += 1
                        return
                    evcmp("%s[%s]" % (path, ",".join(map(str, pre))), got, el, env, st)
                return
            for i in range(n[len(pre)]):
                rec(pre + (i,))
        rec(())
        return
    if isinstance(spec, (Vec, tuple, list)):
        sc = spec.c if isinstance(spec, Vec) else spec
        if not isinstance(code, Vec) or len(code.c) != len(sc):
            st["undet"] += 1
            return
        for k, (x, y) in enumerate(zip(code.c, sc)):
            evcmp("%s.%s" % (path, "xyzw"[k] if k < 4 and len(sc) <= 4 else k), x, y, env, st)
        return
    if isinstance(code, B) and isinstance(spec, Poly):
        code = ite(code, ONE, ZERO)
    if isinstance(code, Poly) and isinstance(spec, B):
        code = ne(code, ZERO)
    if not isinstance(code, (Poly, B)):
        st["undet"] += 1
        return
    env.inexact = False
    try:
        y = ev(spec, env)
    except (Undet, Uninit, OutOfRange):
        st["undet"] += 1
        return
    try:
        x = ev(code, env)
    except Uninit as ex:
        raise Differs(path, "a value that was never set", y)
    except (Undet, OutOfRange) as ex:
        st["undet"] += 1
        if isinstance(ex, (ZeroDiv, OutOfRange)):
            k = (path, "a quotient by zero" if isinstance(ex, ZeroDiv) else "what an element outside an array holds")
            st.setdefault("bad", {}).setdefault(k, []).append((env, y))
        return
    st["n"] += 1
    if differ(x, y, env):
        raise Differs(path, x, y)


def valuation(env):
    d = {}
    for k, v in sorted(env.syms.items(), key=lambda z: str(z[0])):
        if not str(k).startswith("phi_"):
            d[str(k)] = str(v)
    for k, v in env.arrays.items():
        if isinstance(v, list):
            d[str(k)] = [str(x) if not isinstance(x, tuple) else [str(z) for z in x] for x in v][:40]
    return d


def samples(ctx, X, name, facts, most=None):
    k = 0
    t0 = time.time()
    for env in X.samples(ctx.nsamples * 3, "%s/%s" % (SEED, name)):
        ok = True
        try:
            for f in facts.facts:
                if not evb(f, env):
                    ok = False
                    break
        except (Undet, Uninit, OutOfRange):
            ok = False
        if not ok:
            continue
        k += 1
        yield env
        if most and (k >= most or time.time() - t0 > 2):
            return
        if k >= ctx.nsamples or k >= 24 and time.time() - t0 > ctx.sampletime:
            return


def thrown(R):
    return bor(*[g for g, _, _ in R.throws])


def demand(ctx, rule, X, R, code, spec, facts=None, pre=TRUE, path="result", fn=None, nan=False, alts=(), kind=None):
    """Compares code with spec; pre: condition on the inputs under which the demand applies; alts: the same demand written otherwise."""
    if ctx.pick and kind != ctx.pick:
        return "left out"
    fn = fn or R.fn
    ctx.saw(fn)
    w = where(fn)
    if not R.ok:
        ctx.add("open", rule, w, R.error)
        return "open"
    th = thrown(R)
    base = facts if facts is not None else R.facts0
    f = base.extend([pre, bnot(th)])
    st = {"undet": 0, "n": 0}
    if compare(ctx, rule, X, R, code, spec, base, pre, th, path, w, st, 12):
        return "refuted"
    best = None
    for sp in tuple(alts) + (spec,):
        open_ = []
        out = []
        leaves(path, lambda f_: code, lambda f_: sp, f, out)
        nproved = 0
        for pth, thunk, ff in out:
            if thunk is None:
                open_.append((pth, ff))
                continue
            try:
                ok = settle(thunk, ff) if not nan else same(thunk, ff)
            except (TooBig, RecursionError):
                ok = False
            if ok:
                nproved += 1
            else:
                open_.append((pth, "not normalised"))
        if best is None or len(open_) < len(best[0]):
            best = open_, nproved, out
        if not open_:
            break
    open_, nproved, out = best
    ctx.nobl += len(out)
    if not open_:
        ctx.add("proved", rule, w, "%d component(s)" % nproved)
        return "proved"
    st = {"undet": 0, "n": 0, "ns": 0}
    if compare(ctx, rule, X, R, code, spec, base, pre, th, path, w, st, None):
        return "refuted"
    ns = st["ns"]
    status = "agrees" if st["n"] and not st["undet"] else "open"
    ctx.add(status, rule, w, "%d proved; %s; %d valuations, %d comparisons, %d undetermined" %
            (nproved, "; ".join("%s: %s" % x for x in open_[:4]), ns, st["n"], st["undet"]))
    return status


def compare(ctx, rule, X, R, code, spec, base, pre, th, path, w, st, most):
    """Looks for a valuation at which the two terms differ."""
    for env in samples(ctx, X, R.fn["key"] + rule, base, most):
        try:
            if not evb(pre, env) or evb(th, env):
                continue
        except (Undet, Uninit, OutOfRange):
            continue
        st["ns"] = st.get("ns", 0) + 1
        try:
            evcmp(path, code, spec, env, st)
        except Differs as ex:
            p_, got, want = ex.args
            ctx.add("refuted", rule, w, "%s is %s, must be %s" % (p_, num(got), num(want)), valuation(env))
            return True
        except RecursionError:
            st["undet"] += 1
    if most is None:
        # a component no valuation gives a value
        for (p_, what), l in sorted(st.get("bad", {}).items(), key=lambda z: z[0]):
            if len(l) == st["ns"] and len(l) >= 20:
                ctx.add("refuted", rule, w, "%s is %s for every input, must be %s" % (p_, what, num(l[0][1])), valuation(l[0][0]))
                return True
    return False


def num(x):
    try:
        if hasattr(x, "numerator") and not isinstance(x, bool):
            return str(x) if x.denominator < 10 ** 6 else "%.12g" % float(x)
    except Exception:
        pass
    return str(x)


def same(th, facts):
    """Identity of the terms, for inputs that may be NaN: nothing is concluded from the order of the reals."""
    pr = th(facts)
    return pr is not None and pr[0] is pr[1]


def demand_throw(ctx, rule, X, R, spec, pre=TRUE, nan=False, alts=()):
    """The function throws exactly if spec holds (alts: other ways to write the same condition)."""
    if ctx.pick:
        return
    ctx.saw(R.fn)
    w = where(R.fn)
    if not R.ok:
        ctx.add("open", rule, w, R.error)
        return
    th = thrown(R)
    f = R.facts0.extend([pre])
    ctx.nobl += 1
    if not th.taint:
        try:
            if any(th is y or (not nan and beq(th, y, f)) for y in (spec,) + tuple(alts)):
                ctx.add("proved", rule, w)
                return
        except (TooBig, RecursionError):
            pass
    st = {"undet": 0, "n": 0}
    for env in samples(ctx, X, R.fn["key"] + rule, R.facts0):
        try:
            if not evb(pre, env):
                continue
            y = evb(spec, env)
            x = evb(th, env)
        except (Undet, Uninit, OutOfRange):
            st["undet"] += 1
            continue
        st["n"] += 1
        if bool(x) != bool(y):
            lines = sorted({i[0] for _, i, _ in R.throws if i})
            ctx.add("refuted", rule, w, "%s for an input it must %s%s" % ("throws" if x else "does not throw", "reject" if y else "accept",
                                                                         " (throw sites: %s)" % ", ".join(map(str, lines)) if lines else ""), valuation(env))
            return
    ctx.add("agrees" if st["n"] and not st["undet"] else "open", rule, w, "%(n)d valuations, %(undet)d undetermined" % st)


def demand_true(ctx, rule, X, R, cond, facts=None, pre=TRUE, fn=None, what=None):
    """cond holds for every input."""
    return demand(ctx, rule, X, R, cond, TRUE, facts, pre, path=what or "condition", fn=fn)


def prove_cases(f, c, depth=4):
    """Proof by cases on the gates inside the facts."""
    for x in f.facts:
        if x.kind not in ("le", "lt", "eq"):
            continue
        for m, _ in x.args[0].terms:
            for a, e in m:
                if a.kind == "ite" and not a.depth:
                    if depth <= 0:
                        return False
                    cnd = a.args[0]
                    for g, v in ((cnd, a.args[1]), (bnot(cnd), a.args[2])):
                        m_ = {"le": le0, "lt": lt0, "eq": eq0}
                        fs = [m_[y.kind](swap_atom(y.args[0], a, v)) if y.kind in m_ and a in atoms_of(y.args[0]) else y for y in f.facts]
                        f2 = type(f)(tuple(z for z in fs if z is not TRUE) + (g,), extra_axioms=f.extra)
                        if f2.infeasible([]):
                            continue
                        if not (f2.prove(c) or prove_cases(f2, c, depth - 1)):
                            return False
                    return True
    return False


def atoms_of(p):
    return {a for m, _ in p.terms for a, _e in m}


def swap_atom(p, a, v):
    out = ZERO
    for m, k in p.terms:
        t = const(k)
        for b, e in m:
            q = v if b is a else pa(b)
            t = mul(t, power(q, e) if e > 0 else power(inv(q), -e))
        out = add(out, t)
    return out


def demand_bounds(ctx, rule, X, R):
    """Every element access of the analysed call stays inside its array."""
    if ctx.pick == "bounds":
        if not any(r is R for _, _, r in ctx.pending):
            return
        ctx.pending = [z for z in ctx.pending if z[2] is not R]
    if ctx.pick in (None, "bounds"):
        bounds_alone(ctx, rule, X, R)


def bounds_alone(ctx, rule, X, R):
    old, ctx.soft = ctx.soft, False
    try:
        bounds_of(ctx, rule, X, R)
    finally:
        ctx.soft = old


def bounds_of(ctx, rule, X, R):
    ctx.saw(R.fn)
    w = where(R.fn)
    if not R.ok:
        ctx.add("open", rule, w, R.error)
        return
    bad, nok, nopen = [], 0, []
    seen = set()
    for o in R.obls:
        _, line, idx, dims, fx, g = o
        key = (line, tuple(i.id for i in idx), tuple(d.id for d in dims), g.id)
        if key in seen:
            continue
        seen.add(key)
        ctx.nobl += 1
        c = band(*[band(le(ZERO, i), lt(i, d)) for i, d in zip(idx, dims)])
        f = fx.extend([g])
        try:
            if f.prove(c) or prove_cases(f, c):
                nok += 1
                continue
        except (TooBig, RecursionError):
            pass
        r = refute_bound(ctx, X, R, o, c)
        if r:
            ctx.add("refuted", rule, "%s in %s" % (line, R.fn["key"]), r[0], r[1])
            return
        nopen.append(line)
    if never_set(ctx, rule, X, R):
        return
    ctx.add("proved" if not nopen else "open", rule, w, "%d element accesses inside their arrays%s" %
            (nok, "; not shown: %s" % ", ".join(sorted(set(map(str, nopen)))[:8]) if nopen else ""))


def unset_leaf(v, env, path):
    """Where the value holds something that was never given a value."""
    if isinstance(v, (Poly, B)):
        if not v.taint:
            return None
        try:
            ev(v, env)
        except Uninit:
            return path
        except (Undet, OutOfRange):
            pass
        return None
    if isinstance(v, Vec):
        it = [("%s.%s" % (path, "xyzw"[i] if i < 4 else i), x) for i, x in enumerate(v.c)]
    elif isinstance(v, Struct):
        it = [("%s.%s" % (path, n), x) for n, x in v.args[1]]
    elif isinstance(v, AList):
        it = [("%s[%d]" % (path, i), x) for i, x in enumerate(v.args[0])]
    else:
        return None
    for p, x in it:
        r = unset_leaf(x, env, p) if getattr(x, "taint", True) else None
        if r:
            return r
    return None


def never_set(ctx, rule, X, R):
    """The result depends on a variable that was never given a value."""
    v = R.ret
    if v is None or not getattr(v, "taint", False):
        return False
    th = thrown(R)
    for env in samples(ctx, X, R.fn["key"] + rule + "set", R.facts0, 12):
        try:
            if evb(th, env):
                continue
        except (Undet, Uninit, OutOfRange):
            continue
        p = unset_leaf(v, env, "result")
        if p:
            ctx.add("refuted", rule, where(R.fn), "%s is a value that was never set" % p, valuation(env))
            return True
    return False


def refute_bound(ctx, X, R, o, c):
    """A valuation of the inputs and the loop counters at which the access happens and misses the array."""
    _, line, idx, dims, fx, g = o
    syms = set()
    for x in [c, g] + list(fx.facts):
        for a in x.fv:
            if not isinstance(a, Value) and a.kind == "sym":
                syms.add(a)
            elif isinstance(a, ASym) and str(a.args[0]).startswith("phi_"):
                return None
    if any(str(a.args[0]).startswith("phi_") for a in syms):
        return None
    known = None
    for env in samples(ctx, X, R.fn["key"] + str(line), R.facts0):
        loc = [a for a in syms if a.args[0] not in env.syms]
        if len(loc) > 3:
            return None
        loops = {}
        for r in FOLDS.values():
            if single(r["t"]) in loc:
                loops[single(r["t"])] = r
        if any(a not in loops for a in loc):
            return None
        order = sorted(loc, key=lambda a: a.id)

        def rec(k, vals):
            if k == len(order):
                return test(vals)
            a = order[k]
            for i in range(0, 9):
                vals[a] = i
                env.vals[a] = Fraction_(i)
                env.memo = {}
                env.fuel = 60000
                r = loops[a]
                # the loop still runs at this iteration
                try:
                    m = {}
                    if r["c"].taint and False:
                        return None
                    if not evb(r["c"], env):
                        return None
                except (Undet, Uninit, OutOfRange):
                    pass
                res = rec(k + 1, vals)
                if res:
                    return res
                try:
                    if evb(r["E"], env):
                        return None
                except (Undet, Uninit, OutOfRange):
                    return None
            return None

        def test(vals):
            try:
                if not evb(g, env):
                    return None
                for f in fx.facts:
                    if not evb(f, env):
                        return None
                ci = [ev(i, env) for i in idx]
                cd = [ev(d, env) for d in dims]
            except (Undet, Uninit, OutOfRange):
                return None
            if all(0 <= i < d for i, d in zip(ci, cd)):
                return None
            v = valuation(env)
            v["iteration"] = {str(a.args[0]): i for a, i in vals.items()}
            return ("accesses element %s of an array of size %s" % (", ".join(map(str, ci)), ", ".join(map(str, cd))), v)
        r = rec(0, {})
        for a in order:
            env.vals.pop(a, None)
        if r:
            return r
    return None


from fractions import Fraction as Fraction_
