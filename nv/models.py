"""Transfer functions for the standard library and Eigen operations the code base (or a refactoring of it) can use."""
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *

VIEWS = {"head", "tail", "segment", "row", "col", "noalias", "array", "matrix", "block", "transpose", "topRows", "leftCols",
         "derived", "eval", "topLeftCorner"}
COMP = {"x": 0, "y": 1, "z": 2, "w": 3}


def first_in(q, lo, hi, cond, facts):
    """first() over a range of known size, decided element by element."""
    a, b = cval(lo), cval(hi)
    if a is not None and b is not None and b - a <= 64:
        for i in range(int(a), int(b)):
            c = subst(cond, {single(q): const(i)})
            d = facts.decide(c)
            if d is True:
                return const(i)
            if d is not False:
                break
        else:
            return hi
    return first(q, lo, hi, cond)


def std_call(self, e, c, st, fr):
    from .interp import GiveUp, clean, targs, mat_type, INTS, REALS, emap, sqrt_, abs_
    name = c["name"]
    qual = c.get("qual") or name
    cls = clean(c.get("cls") or "")
    args = [a for a in e["args"] if a["k"] != "defarg"]
    oper = e.get("oper")
    P = self.topoly

    def A(i):
        return self.ev(args[i], st, fr)

    # ---- member functions --------------------------------------------------------------------------------
    if "obj" in e:
        o = e["obj"]
        if e.get("arrow"):
            r = self.ev(o, st, fr)
            if isinstance(r, Iter):
                r = self.deref(r, st, e)
        elif self.is_lvalue(o):
            r = self.lv(o, st, fr)
        else:
            # rvalue or reference-returning call
            if o["k"] == "call":
                kind, v = self.call(o, st, fr)
                r = v if kind == "lv" else self.new(st, "tmp", v)
            else:
                r = self.new(st, "tmp", self.ev(o, st, fr))
        v = self.load(st, r)

        if isinstance(v, (Iter, RIter)) :
            return self.iter_member(e, name, v, r, args, st, fr)
        if isinstance(v, Span):
            ref, s0, n = v.args
            if name in ("size", "ssize"): return "rv", n
            if name == "empty": return "rv", eq(n, ZERO)
            if name == "operator[]" or name == "operator()":
                i = P(A(0))
                self.obl_idx(st, e, (i,), (n,))
                return "lv", self.refstep(ref, ("i", (add(s0, i),)), st)
            if name in ("begin", "data", "cbegin"): return "rv", mk(Iter, ref, s0)
            if name in ("end", "cend"): return "rv", mk(Iter, ref, add(s0, n))
            if name == "front":
                self.obl_idx(st, e, (ZERO,), (n,))
                return "lv", self.refstep(ref, ("i", (s0,)), st)
            if name == "back":
                self.obl_idx(st, e, (sub(n, ONE),), (n,))
                return "lv", self.refstep(ref, ("i", (sub(add(s0, n), ONE),)), st)
            if name in ("subspan", "first", "last"):
                a = [P(A(i)) for i in range(len(args))]
                if name == "first": return "rv", mk(Span, ref, s0, a[0])
                if name == "last": return "rv", mk(Span, ref, sub(add(s0, n), a[0]), a[0])
                return "rv", mk(Span, ref, add(s0, a[0]), a[1] if len(a) > 1 else sub(n, a[0]))
        if isinstance(v, MdSpan):
            ref, s0, ext = v.args
            if name in ("operator[]", "operator()"):
                i = tuple(P(A(k)) for k in range(len(args)))
                self.obl_idx(st, e, i, ext)
                lin = i[0]
                for k in range(1, len(i)):
                    lin = add(mul(lin, ext[k]), i[k])
                base = self.load(st, ref)
                self.bound(st, e, base, (add(s0, lin),))
                return "lv", self.refstep(ref, ("i", (add(s0, lin),)), st)
            if name == "extent":
                k = cval(P(A(0)))
                if k is not None:
                    return "rv", ext[int(k)]
        if cls.startswith("Eigen::") or (isinstance(v, Vec) and not cls.startswith("std::")):
            return self.eigen_member(e, c, name, oper, r, v, args, st, fr)
        if cls.startswith("std::vector<") or cls.startswith("std::array<") or cls.startswith("std::deque<") or cls.startswith("std::initializer_list<"):
            return self.vec_member(e, c, name, cls, r, v, args, st, fr)
        if cls.startswith("std::stack<") or cls.startswith("std::queue<"):
            if isinstance(v, Arr):
                n = v.dims[0]
                if name == "push" or name == "emplace":
                    x = A(0)
                    self.store_(st, r, mk(AInsert, v, n, ONE, x))
                    return "rv", unknown("void")
                if name == "empty": return "rv", eq(n, ZERO)
                if name == "size": return "rv", n
                if name == "pop":
                    self.obl_idx(st, e, (sub(n, ONE),), (n,))
                    self.store_(st, r, mk(AResize, v, sub(n, ONE), unknown("popped")) if not cls.startswith("std::queue<") else mk(AErase, v, ZERO, ONE))
                    return "rv", unknown("void")
                if name in ("top", "front", "back"):
                    i = ZERO if name == "front" else sub(n, ONE)
                    self.obl_idx(st, e, (i,), (n,))
                    return "lv", self.refstep(r, ("i", (i,)), st)
        if cls.startswith("std::tuple<") and name == "operator=":
            x = A(0)
            if isinstance(v, Struct) and isinstance(x, Struct):
                xs = [y for _, y in x.args[1]]
                if len(xs) == len(v.args[1]) and all(isinstance(y, Ref) for _, y in v.args[1]):
                    for (_, ref), y in zip(v.args[1], xs):
                        self.store_(st, ref, y)
                    return "lv", r
                self.store_(st, r, x)
                return "lv", r
        if cls.startswith("std::pair<") and name == "operator=":
            x = A(0)
            self.store_(st, r, x)
            return "lv", r
        if cls.startswith("std::optional<"):
            return self.clobber(e, st, fr, "optional")
        if cls.startswith("std::ranges::"):
            if "__reverse" in cls and len(args) >= 1:
                if self.is_lvalue(args[0]):
                    ar = self.lv(args[0], st, fr)
                    av = self.load(st, ar)
                    if isinstance(av, Arr):
                        self.store_(st, ar, reverse_of(av))
                        return "rv", mk(Iter, ar, av.dims[0])
            return self.clobber(e, st, fr, "ranges algorithm")
        if isinstance(v, Str):
            return self.str_member(e, c, name, r, v, args, st, fr)
        if isinstance(v, Closure) and name == "operator()":
            return self.call_closure(v, e["args"], st, fr)
        if "function<" in cls and name == "operator()":
            if isinstance(v, Closure):
                return self.call_closure(v, e["args"], st, fr)
        return self.clobber(e, st, fr, "member " + cls[:30] + "::" + name)

    # ---- free functions ----------------------------------------------------------------------------------
    if cls.startswith("Eigen::") and name in ("Zero", "Ones", "Constant", "Identity", "UnitX", "UnitY", "UnitZ", "UnitW", "Unit"):
        i = cls.index("Eigen::Matrix<") if "Eigen::Matrix<" in cls else cls.index("Eigen::Array<")
        m = mat_type(cls[i:cls.rindex(">")] if not cls.startswith("Eigen::Matrix<") else cls)
        vs = [P(A(k)) for k in range(len(args))]
        if m is None:
            return "rv", unknown("Eigen nullary")
        if m[0] > 0 and m[1] > 0:
            n = m[0] * m[1]
            if name == "Zero": return "rv", vec([ZERO] * n, m[0], m[1])
            if name == "Ones": return "rv", vec([ONE] * n, m[0], m[1])
            if name == "Constant": return "rv", vec([vs[-1]] * n, m[0], m[1])
            if name == "Identity": return "rv", vec([ONE if a == b else ZERO for a in range(m[0]) for b in range(m[1])], m[0], m[1])
            k = {"UnitX": 0, "UnitY": 1, "UnitZ": 2, "UnitW": 3}.get(name)
            if k is not None: return "rv", vec([ONE if a == k else ZERO for a in range(n)], m[0], m[1])
            return "rv", unknown("Eigen nullary")
        nd = 2 if m[0] < 0 and m[1] < 0 else 1
        x = {"Zero": ZERO, "Ones": ONE}.get(name)
        if name == "Constant":
            x = vs.pop()
        if x is not None and len(vs) >= nd:
            dims = tuple(vs[:nd]) if len(vs) == nd else (vs[0] if m[0] < 0 else vs[1],)
            return "rv", mk(AFill, dims, x, ("real",))
        return "rv", unknown("Eigen nullary")
    if oper and qual.startswith("Eigen::") and len(args) == 2:
        return "rv", self.binop(oper, A(0), A(1), e["t"], st)
    if cls.startswith("std::numeric_limits<"):
        t = targs(cls)[0]
        if clean(t) in INTS:
            bits = {"int": 31, "unsigned int": 32, "long": 63, "unsigned long": 64}.get(clean(t))
            if bits and name == "max": return "rv", const(2 ** bits - 1)
            if name == "min": return "rv", const(0 if "unsigned" in t else -2 ** (bits or 31))
        if name in ("quiet_NaN", "signaling_NaN"): return "rv", app("nan", ())
        if name == "infinity": return "rv", app("inf", ())
        big = Fraction(1.7976931348623157e308)
        if name == "max": return "rv", const(big)
        if name == "lowest": return "rv", const(-big)
        if name == "epsilon": return "rv", const(Fraction(2.0 ** -52))
        if name == "min": return "rv", const(Fraction(2.2250738585072014e-308))
        return "rv", unk("numeric_limits")
    base = qual.split("::")[-1] if not oper else name
    std = qual.startswith("std::") or "::" not in qual
    if std:
        if base in ("move", "forward", "as_const", "ref", "cref", "addressof") and len(args) == 1:
            if self.is_lvalue(args[0]):
                return "lv", self.lv(args[0], st, fr)
            return "rv", A(0)
        if base in ("abs", "fabs"):
            return "rv", emap(lambda x: abs_(P(x)), A(0))
        if base == "sqrt":
            return "rv", sqrt_(P(A(0)))
        if base in ("acos", "asin", "atan", "cos", "sin", "tan", "exp", "log", "floor", "ceil", "round", "atan2", "hypot", "fmod", "cbrt", "lround"):
            vs = [P(A(i)) for i in range(len(args))]
            return "rv", app(base, vs, "int" if base == "lround" else "real")
        if base == "pow":
            b, n = P(A(0)), P(A(1))
            k = cval(n)
            if k is not None and k.denominator == 1 and 0 <= k <= 6:
                return "rv", power(b, int(k))
            return "rv", app("pow", (b, n))
        if base == "isnan":
            x = P(A(0))
            return "rv", bnot(le(x, x)) if False else batom(T.atom("app", ("isnan", x), "bool"))
        if base == "isfinite":
            x = P(A(0))
            return "rv", batom(T.atom("app", ("isfinite", x), "bool"))
        if base in ("fmin", "fmax"):
            return "rv", minmax(base[1:], [P(A(0)), P(A(1))])
        if base in ("min", "max"):
            if len(args) == 1:
                v = A(0)
                if isinstance(v, AList):
                    return "rv", minmax(base, [P(x) for x in v.args[0]])
                return "rv", unk(base)
            if len(args) == 2:
                a, b = P(A(0)), P(A(1))
                return "rv", self.minmax_facts(base, a, b, st)
        if base == "minmax" and len(args) in (1, 2):
            v = A(0)
            xs = [P(x) for x in v.args[0]] if isinstance(v, AList) else [P(v), P(A(1))] if len(args) == 2 else None
            if xs:
                return "rv", mk(Struct, "std::pair", (("first", minmax("min", xs)), ("second", minmax("max", xs))))
        if base == "clamp" and len(args) == 3:
            x, lo, hi = P(A(0)), P(A(1)), P(A(2))
            return "rv", ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))
        if base in ("make_pair", "make_tuple", "tie", "forward_as_tuple"):
            if base == "tie":
                rs = [self.lv(a, st, fr) for a in args]
                return "rv", mk(Struct, "std::tuple<&>", tuple(("get%d" % i, x) for i, x in enumerate(rs)))
            vs = [A(i) for i in range(len(args))]
            names = ("first", "second") if base == "make_pair" else tuple("get%d" % i for i in range(len(vs)))
            return "rv", mk(Struct, clean(c.get("rtype") or "std::pair"), tuple(zip(names, vs)))
        if base == "get" and len(args) == 1 and c.get("targs"):
            try:
                k = int(c["targs"][0])
            except Exception:
                k = None
            if k is not None and self.is_lvalue(args[0]):
                r = self.lv(args[0], st, fr)
                v = self.load(st, r)
                if isinstance(v, Struct) and k < len(v.args[1]):
                    return "lv", self.refstep(r, ("f", v.args[1][k][0]), st)
        if base == "swap" and len(args) == 2:
            a, b = self.lv(args[0], st, fr), self.lv(args[1], st, fr)
            va, vb = self.load(st, a), self.load(st, b)
            self.store_(st, a, vb)
            self.store_(st, b, va)
            return "rv", unknown("void")
        if base == "exchange" and len(args) == 2:
            a = self.lv(args[0], st, fr)
            old = self.load(st, a)
            self.store_(st, a, A(1))
            return "rv", old
        if base == "distance" and len(args) == 2:
            return "rv", self.iterop("-", A(1), A(0), st)
        if base in ("next", "prev", "advance") and args:
            if base == "advance":
                r = self.lv(args[0], st, fr)
                self.store_(st, r, self.iterop("+", self.load(st, r), A(1), st))
                return "rv", unknown("void")
            n = P(A(1)) if len(args) > 1 else ONE
            it = A(0)
            if isinstance(it, Iter):
                return "rv", self.iterop("+" if base == "next" else "-", it, n, st)
        if base in ("begin", "cbegin", "end", "cend", "size", "ssize", "data", "empty") and len(args) == 1 and self.is_lvalue(args[0]):
            r = self.lv(args[0], st, fr)
            v = self.load(st, r)
            if isinstance(v, Arr):
                if base in ("size", "ssize"): return "rv", v.dims[0]
                if base == "empty": return "rv", eq(v.dims[0], ZERO)
                return "rv", mk(Iter, r, v.dims[0] if base in ("end", "cend") else ZERO)
        if base in ("upper_bound", "lower_bound") and len(args) == 3:
            a, b, x = A(0), A(1), P(A(2))
            if isinstance(a, Iter) and isinstance(b, Iter) and a.args[0] is b.args[0]:
                arr = self.load(st, a.args[0])
                if isinstance(arr, Arr) and arr.shape[0] in ("real", "int"):
                    self.obls_range(st, e, arr, a.args[1], b.args[1])
                    q = fresh("q")
                    el = P(arr.get((q,), st.facts.extend([le(a.args[1], q), lt(q, b.args[1])])))
                    cond = lt(x, el) if base == "upper_bound" else le(x, el)
                    return "rv", mk(Iter, a.args[0], first_in(q, a.args[1], b.args[1], cond, st.facts))
            return "rv", unknown(base)
        if base in ("fill", "fill_n") and len(args) == 3:
            a, b = A(0), A(1)
            r3 = A(2)
            if isinstance(a, Iter):
                hi = b.args[1] if isinstance(b, Iter) else add(a.args[1], P(b))
                arr = self.load(st, a.args[0])
                if isinstance(arr, Arr):
                    self.obls_range(st, e, arr, a.args[1], hi)
                    q = fresh("w")
                    self.store_(st, a.args[0], mk(ALoop, arr, (mk(Write, ((q, a.args[1], sub(hi, ONE)),), TRUE, (q,), r3),)))
                    return "rv", unknown("void")
        if base in ("copy", "copy_n", "copy_backward", "move_backward") and len(args) == 3:
            a, b, d = A(0), A(1), A(2)
            if isinstance(a, Iter) and isinstance(d, Iter):
                hi = b.args[1] if isinstance(b, Iter) else add(a.args[1], P(b))
                src = self.load(st, a.args[0])
                dst = self.load(st, d.args[0])
                if isinstance(src, Arr) and isinstance(dst, Arr):
                    n = sub(hi, a.args[1])
                    d0 = d.args[1] if "backward" not in base else sub(d.args[1], n)
                    self.obls_range(st, e, src, a.args[1], hi)
                    self.obls_range(st, e, dst, d0, add(d0, n))
                    q = fresh("w")
                    fx = st.facts.extend([le(ZERO, q), lt(q, n)])
                    self.store_(st, d.args[0], mk(ALoop, dst, (mk(Write, ((q, ZERO, sub(n, ONE)),), TRUE, (add(d0, q),),
                                                                  src.get((add(a.args[1], q),), fx)),)))
                    return "rv", mk(Iter, d.args[0], add(d0, n))
        if base == "reverse" and len(args) == 2:
            a, b = A(0), A(1)
            if isinstance(a, Iter) and isinstance(b, Iter) and a.args[0] is b.args[0]:
                arr = self.load(st, a.args[0])
                if isinstance(arr, Arr):
                    lo, hi = a.args[1], b.args[1]
                    if lo is ZERO and st.facts.decide(eq(hi, arr.dims[0])) is True:
                        self.store_(st, a.args[0], reverse_of(arr))
                    else:
                        q = fresh("w")
                        self.store_(st, a.args[0], mk(ALoop, arr, (mk(Write, ((q, lo, sub(hi, ONE)),), TRUE, (q,),
                                                       arr.get((sub(sub(add(lo, hi), ONE), q),), st.facts)),)))
                    return "rv", unknown("void")
        if base in ("sort", "stable_sort") and len(args) in (2, 3):
            a, b = A(0), A(1)
            f = A(2) if len(args) == 3 else None
            if isinstance(a, Iter) and isinstance(b, Iter) and a.args[0] is b.args[0] and cval(a.args[1]) is not None and cval(b.args[1]) is not None \
                    and 0 <= cval(b.args[1]) - cval(a.args[1]) <= 4 and (f is None or isinstance(f, Closure)):
                lo, hi = int(cval(a.args[1])), int(cval(b.args[1]))
                arr = self.load(st, a.args[0])
                if isinstance(arr, Arr):
                    self.obls_range(st, e, arr, a.args[1], b.args[1])
                    els = [arr.get((const(i),), st.facts) for i in range(lo, hi)]
                    ok = True
                    for i in range(1, len(els)):
                        for j in range(i, 0, -1):
                            x, y = els[j - 1], els[j]
                            if f is not None:
                                rx, ry = self.new(st, "x", y), self.new(st, "y", x)
                                kind, c = self.invoke_refs(f, [rx, ry], st, fr)
                                c = self.load(st, c) if kind == "lv" else c
                                c = self.tobool(c) if isinstance(c, (B, Poly)) else None
                            else:
                                c = lt(y, x) if isinstance(x, Poly) and isinstance(y, Poly) else None
                            if c is None:
                                ok = False
                                break
                            els[j - 1], els[j] = vite(c, y, x), vite(c, x, y)
                        if not ok:
                            break
                    if ok:
                        for i, v in zip(range(lo, hi), els):
                            arr = mk(AStore, arr, (const(i),), v)
                        self.store_(st, a.args[0], arr)
                        return "rv", unknown("void")
        if base == "iota" and len(args) == 3:
            a, b, x = A(0), A(1), P(A(2))
            if isinstance(a, Iter) and isinstance(b, Iter):
                arr = self.load(st, a.args[0])
                if isinstance(arr, Arr):
                    q = fresh("w")
                    self.store_(st, a.args[0], mk(ALoop, arr, (mk(Write, ((q, a.args[1], sub(b.args[1], ONE)),), TRUE, (q,),
                                                   add(x, sub(q, a.args[1]))),)))
                    return "rv", unknown("void")
        if base in ("accumulate", "reduce") and len(args) in (3, 4):
            a, b, x = A(0), A(1), A(2)
            if len(args) == 3 and isinstance(a, Iter) and isinstance(b, Iter):
                arr = self.load(st, a.args[0])
                if isinstance(arr, Arr):
                    q = fresh("q")
                    el = arr.get((q,), st.facts.extend([le(a.args[1], q), lt(q, b.args[1])]))
                    if isinstance(el, Poly):
                        return "rv", add(P(x), bsum(q, a.args[1], sub(b.args[1], ONE), el))
                    if isinstance(el, Vec) and isinstance(x, Vec):
                        return "rv", vec([add(u, bsum(q, a.args[1], sub(b.args[1], ONE), w)) for u, w in zip(x.c, el.c)], x.rows, x.cols)
            if len(args) == 4 and isinstance(a, Iter) and isinstance(b, Iter):
                f = A(3)
                if isinstance(f, Closure):
                    acc = self.new(st, "acc", x)
                    def bd(s2, i):
                        fn = self.closure_fn(f, None)
                        kind, v = self.invoke_refs(f, [acc, self.refstep(a.args[0], ("i", (i,)), s2)], s2, fr)
                        if kind == "lv": v = self.load(s2, v)
                        self.store_(s2, acc, v)
                    if self.synth_loop(st, fr, a.args[1], b.args[1], bd, e):
                        return "rv", self.load(st, acc)
        if base in ("min_element", "max_element") and len(args) == 2:
            return "rv", unknown(base)
        if base in ("any_of", "all_of", "none_of", "count_if", "find_if") and len(args) == 3:
            a, b, f = A(0), A(1), A(2)
            if isinstance(a, Iter) and isinstance(b, Iter) and isinstance(f, Closure) and a.args[0] is b.args[0]:
                q = fresh("q")
                s2 = st.fork(band(le(a.args[1], q), lt(q, b.args[1])))
                s2.guard = TRUE
                w = self.wlog
                self.wlog = {}
                try:
                    kind, v = self.invoke_refs(f, [self.refstep(a.args[0], ("i", (q,)), s2)], s2, fr)
                    written = [k for k in self.wlog if k[0] in st.store]
                finally:
                    if w is not None:
                        w.update(self.wlog)
                    self.wlog = w
                if kind == "lv": v = self.load(s2, v)
                pr = self.tobool(v)
                if not written:
                    if base == "find_if": return "rv", mk(Iter, a.args[0], first_in(q, a.args[1], b.args[1], pr, st.facts))
                    if base == "any_of": return "rv", bexists(q, a.args[1], b.args[1], pr)
                    if base == "none_of": return "rv", bnot(bexists(q, a.args[1], b.args[1], pr))
                    if base == "all_of": return "rv", bforall(q, a.args[1], b.args[1], pr)
                    return "rv", bsum(q, a.args[1], sub(b.args[1], ONE), ite(pr, ONE, ZERO))
        if base in ("for_each",) and len(args) == 3:
            a, b, f = A(0), A(1), A(2)
            if isinstance(a, Iter) and isinstance(b, Iter) and isinstance(f, Closure):
                def bd(s2, i):
                    self.invoke_refs(f, [self.refstep(a.args[0], ("i", (i,)), s2)], s2, fr)
                if self.synth_loop(st, fr, a.args[1], b.args[1], bd, e):
                    return "rv", unknown("void")
        if base == "transform" and len(args) == 4:
            a, b, d, f = A(0), A(1), A(2), A(3)
            if all(isinstance(x, Iter) for x in (a, b, d)) and isinstance(f, Closure):
                def bd(s2, i):
                    kind, v = self.invoke_refs(f, [self.refstep(a.args[0], ("i", (i,)), s2)], s2, fr)
                    if kind == "lv": v = self.load(s2, v)
                    self.store_(s2, self.refstep(d.args[0], ("i", (add(d.args[1], sub(i, a.args[1])),)), s2), v)
                if self.synth_loop(st, fr, a.args[1], b.args[1], bd, e):
                    return "rv", mk(Iter, d.args[0], add(d.args[1], sub(b.args[1], a.args[1])))
        if base == "is_sorted" and len(args) == 2:
            a, b = A(0), A(1)
            if isinstance(a, Iter) and isinstance(b, Iter) and a.args[0] is b.args[0]:
                arr = self.load(st, a.args[0])
                if isinstance(arr, Arr) and arr.shape[0] in ("real", "int"):
                    q = fresh("q")
                    x, y = P(arr.get((q,), st.facts)), P(arr.get((add(q, ONE),), st.facts))
                    return "rv", bnot(bexists(q, a.args[1], sub(b.args[1], ONE), lt(y, x)))
        if base == "midpoint" or base == "lerp":
            a, b = P(A(0)), P(A(1))
            t = P(A(2)) if base == "lerp" else const(Fraction(1, 2))
            return "rv", add(a, mul(t, sub(b, a)))
        if base in ("isspace", "isdigit", "tolower", "toupper"):
            return "rv", app(base, (P(A(0)),), "int")
        if oper in ("==", "!=", "<", ">", "<=", ">=", "+", "-") and len(args) == 2:
            a, b = A(0), A(1)
            if isinstance(a, Str) or isinstance(b, Str):
                if oper == "+":
                    return "rv", mk(Str, "cat", a, b) if isinstance(a, Str) and isinstance(b, Str) else mk(Str, "unk", next(T._fresh))
                return "rv", self.anyop(oper, a, b, e["t"], st)
            if isinstance(a, RIter) and isinstance(b, RIter) and a.args[0] is b.args[0]:
                x, y = a.args[1], b.args[1]
                return "rv", {"==": eq, "!=": ne, "<": gt, ">": lt, "<=": ge, ">=": le, "-": lambda p, q: sub(q, p)}[oper](x, y)
            if isinstance(a, (Iter, Poly, B, Vec, Arr)) and isinstance(b, (Iter, Poly, B, Vec, Arr)):
                if isinstance(a, Arr) and isinstance(b, Arr):
                    return "rv", unkb("array comparison")
                return "rv", self.binop(oper, a, b, e["t"], st)
            return "rv", unkb("comparison") if oper not in "+-" else unknown("operator")
        if base in ("to_string",):
            A(0)
            return "rv", mk(Str, "unk", next(T._fresh))
        if base in ("terminate", "abort", "exit", "unreachable", "__builtin_unreachable"):
            st.guard = FALSE
            st.facts = st.facts.extend([FALSE])
            return "rv", unknown("noreturn")
    return self.clobber(e, st, fr, "call of " + qual)


def reverse_of(a):
    return a.args[0] if isinstance(a, ARev) else mk(ARev, a)


def obl_idx(self, st, e, idx, dims):
    if not self.discover:
        self.obls.append(("bound", e.get("l"), tuple(idx), tuple(dims), st.facts, st.guard))


def minmax_facts(self, kind, a, b, st):
    d = st.facts.decide(le(a, b))
    if d is True:
        return a if kind == "min" else b
    if d is False:
        return b if kind == "min" else a
    return minmax(kind, [a, b])


def closure_fn(self, f, key):
    fn = self.fns.get(f.args[0]) or self.fns.get(key)
    if fn is None:
        for k, x in self.fns.items():
            if k.startswith(str(f.args[0]) + "("):
                return x
    return fn


def invoke_refs(self, f, refs, st, fr):
    """Calls a closure with already evaluated argument references (copied for by-value parameters)."""
    fn = self.closure_fn(f, None)
    if fn is None:
        return "rv", unknown("lambda")
    caps = dict(f.args[1])
    args = []
    for p, r in zip(fn["params"], refs):
        args.append(r if p.get("ref") else self.new(st, p["name"] or "arg", self.load(st, r)))
    return self.invoke_v(fn, caps.pop("this", None), args, st, fr, caps)


def synth_loop(self, st, fr, lo, hi, body, e):
    """Runs body(state, index) for index = lo..hi-1 through the loop solver."""
    idx = self.new(st, "idx", lo)
    self.vtypes[idx.root] = "int"
    spec = {"cond": lambda s: lt(self.load(s, idx), hi), "body": lambda s: (body(s, self.load(s, idx)), s)[1],
            "inc": lambda s: self.store_(s, idx, add(self.load(s, idx), ONE)), "l": e.get("l"), "key": id(e)}
    out = self.run_loop(spec, st, fr)
    if out is None:
        return False
    st.store, st.facts, st.guard = out.store, out.facts, out.guard
    return True


def iter_member(self, e, name, v, r, args, st, fr):
    P = self.topoly
    oper = e.get("oper")
    if isinstance(v, RIter):
        if name == "base":
            return "rv", mk(Iter, v.args[0], v.args[1])
        if oper == "*":
            arr = self.load(st, v.args[0])
            i = sub(v.args[1], ONE)
            self.bound(st, e, arr, (i,))
            return "lv", self.refstep(v.args[0], ("i", (i,)), st)
        if oper in ("++", "--"):
            nv = mk(RIter, v.args[0], add(v.args[1], ONE if oper == "--" else neg(ONE)))
            self.store_(st, r, nv)
            return ("rv", v) if args else ("lv", r)
        if oper in ("+", "-"):
            d = P(self.ev(args[0], st, fr))
            return "rv", mk(RIter, v.args[0], sub(v.args[1], d) if oper == "+" else add(v.args[1], d))
        return self.clobber(e, st, fr, "reverse iterator " + name)
    if oper == "*":
        return "lv", self.deref(v, st, e)
    if oper == "->":
        return "rv", self.deref(v, st, e)
    if oper in ("++", "--"):
        nv = mk(Iter, v.args[0], add(v.args[1], ONE if oper == "++" else neg(ONE)))
        self.store_(st, r, nv)
        return ("rv", v) if args else ("lv", r)
    if oper in ("+=", "-="):
        nv = self.iterop(oper[0], v, self.ev(args[0], st, fr), st)
        self.store_(st, r, nv)
        return "lv", r
    if oper == "[]":
        return "lv", self.deref(mk(Iter, v.args[0], add(v.args[1], P(self.ev(args[0], st, fr)))), st, e)
    if oper == "=":
        self.store_(st, r, self.ev(args[0], st, fr))
        return "lv", r
    if oper in ("+", "-", "==", "!=", "<", ">", "<=", ">="):
        return "rv", self.iterop(oper, v, self.ev(args[0], st, fr), st)
    return self.clobber(e, st, fr, "iterator " + name)


def vec_member(self, e, c, name, cls, r, v, args, st, fr):
    from .interp import targs
    P = self.topoly
    el = targs(cls)[0]

    def A(i):
        return self.ev(args[i], st, fr)

    def cv(x):
        return self.conv(x, el)
    if name == "operator=":
        x = A(0)
        if isinstance(x, AList) and False:
            pass
        self.store_(st, r, x)
        return "lv", r
    if not isinstance(v, Arr):
        vs = [A(i) for i in range(len(args))]
        if name in ("operator[]", "at", "front", "back"):
            return "lv", self.refstep(r, ("i", (P(vs[0]) if vs else ZERO,)), st)
        if name in ("begin", "cbegin", "data"):
            return "rv", mk(Iter, r, ZERO)
        return self.clobber(e, st, fr, "vector of unknown value")
    n = v.dims[0]
    if name in ("operator[]", "at"):
        i = P(A(0))
        if name == "at":
            pass
        v = self.load(st, r)
        self.bound(st, e, v, (i,))
        return "lv", self.refstep(r, ("i", (i,)), st)
    if name in ("size", "length"):
        return "rv", n
    if name == "empty":
        return "rv", eq(n, ZERO)
    if name in ("begin", "cbegin", "data"):
        return "rv", mk(Iter, r, ZERO)
    if name in ("end", "cend"):
        return "rv", mk(Iter, r, n)
    if name in ("rbegin", "crbegin"):
        return "rv", mk(RIter, r, n)
    if name in ("rend", "crend"):
        return "rv", mk(RIter, r, ZERO)
    if name == "front":
        self.bound(st, e, v, (ZERO,))
        return "lv", self.refstep(r, ("i", (ZERO,)), st)
    if name == "back":
        self.bound(st, e, v, (sub(n, ONE),))
        return "lv", self.refstep(r, ("i", (sub(n, ONE),)), st)
    if name in ("reserve", "shrink_to_fit"):
        for i in range(len(args)):
            A(i)
        return "rv", unknown("void")
    if name == "capacity":
        return "rv", unk("capacity", "int")
    if name == "clear":
        self.store_(st, r, mk(AFill, (ZERO,), self.default_elem(v.shape), v.shape))
        return "rv", unknown("void")
    if name in ("push_back", "emplace_back"):
        x = self.emplace_val(el, args, st, fr)
        v = self.load(st, r)
        n = v.dims[0]
        self.store_(st, r, push(v, cv(x)))
        return "lv", self.refstep(r, ("i", (n,)), st)
    if name == "pop_back":
        self.bound(st, e, v, (sub(n, ONE),))
        self.store_(st, r, mk(AResize, v, sub(n, ONE), self.default_elem(v.shape)))
        return "rv", unknown("void")
    if name == "resize":
        m = P(A(0))
        dv = cv(A(1)) if len(args) > 1 else self.default_elem(v.shape)
        if st.facts.decide(eq(n, ZERO)) is True:
            self.store_(st, r, mk(AFill, (m,), dv, v.shape))
        elif st.facts.decide(eq(n, m)) is True:
            self.store_(st, r, v)
        else:
            self.store_(st, r, mk(AResize, v, m, dv))
        return "rv", unknown("void")
    if name == "assign":
        vs = [A(i) for i in range(len(args))]
        if len(vs) == 2 and isinstance(vs[0], Iter) and isinstance(vs[1], Iter):
            b = self.load(st, vs[0].args[0])
            if isinstance(b, Arr):
                lo, hi = vs[0].args[1], vs[1].args[1]
                self.obls_range(st, e, b, lo, hi)
                self.store_(st, r, b if lo is ZERO and hi is b.dims[0] else mk(ASlice, b, lo, sub(hi, lo)))
                return "rv", unknown("void")
        if len(vs) == 2 and isinstance(vs[0], Poly):
            self.store_(st, r, mk(AFill, (vs[0],), cv(vs[1]), v.shape))
            return "rv", unknown("void")
        if len(vs) == 1 and isinstance(vs[0], AList):
            self.store_(st, r, vs[0])
            return "rv", unknown("void")
    if name == "fill" and len(args) == 1:
        self.store_(st, r, mk(AFill, v.dims, cv(A(0)), v.shape))
        return "rv", unknown("void")
    if name in ("insert", "emplace") and args:
        vs = [A(i) for i in range(len(args))]
        v = self.load(st, r)
        n = v.dims[0]
        if isinstance(vs[0], Iter) and vs[0].args[0] is r:
            p = vs[0].args[1]
            if not self.discover:
                self.obls.append(("bound", e.get("l"), (p,), (add(n, ONE),), st.facts, st.guard))
            if len(vs) == 2 and isinstance(vs[1], AList) and v.shape[0] != "arr":
                self.store_(st, r, mk(AConcat, v, p, vs[1]))
                return "rv", mk(Iter, r, p)
            if len(vs) == 2:
                self.store_(st, r, push(v, cv(vs[1])) if p is n else mk(AInsert, v, p, ONE, cv(vs[1])))
                return "rv", mk(Iter, r, p)
            if len(vs) == 3 and isinstance(vs[1], Iter) and isinstance(vs[2], Iter):
                src = self.load(st, vs[1].args[0])
                if isinstance(src, Arr):
                    lo, hi = vs[1].args[1], vs[2].args[1]
                    self.obls_range(st, e, src, lo, hi)
                    s2 = src if lo is ZERO and hi is src.dims[0] else mk(ASlice, src, lo, sub(hi, lo))
                    self.store_(st, r, mk(AConcat, v, p, s2))
                    return "rv", mk(Iter, r, p)
            if len(vs) == 3 and isinstance(vs[1], Poly):
                self.store_(st, r, mk(AInsert, v, p, vs[1], cv(vs[2])))
                return "rv", mk(Iter, r, p)
    if name == "erase":
        vs = [A(i) for i in range(len(args))]
        if isinstance(vs[0], Iter) and vs[0].args[0] is r:
            p = vs[0].args[1]
            if len(vs) == 1:
                self.bound(st, e, v, (p,))
                self.store_(st, r, mk(AErase, v, p, ONE))
                return "rv", mk(Iter, r, p)
            if isinstance(vs[1], Iter):
                self.obls_range(st, e, v, p, vs[1].args[1])
                self.store_(st, r, mk(AErase, v, p, sub(vs[1].args[1], p)))
                return "rv", mk(Iter, r, p)
    if name == "swap" and len(args) == 1:
        o = self.lv(args[0], st, fr)
        ov = self.load(st, o)
        self.store_(st, o, v)
        self.store_(st, r, ov)
        return "rv", unknown("void")
    return self.clobber(e, st, fr, "vector::" + name)


def push(v, x):
    n = v.dims[0]
    if isinstance(v, AList) and len(v.args[0]) < 8:
        return mk(AList, v.args[0] + (x,), v.shape)
    if cval(n) == 0 and isinstance(v, AFill):
        return mk(AList, (x,), v.shape)
    return mk(AInsert, v, n, ONE, x)


def emplace_val(self, el, args, st, fr):
    vs = [self.ev(a, st, fr) for a in args]
    if len(vs) == 1:
        return vs[0]
    rec = self.rec(el)
    if rec:
        # constructor with matching parameter count, else aggregate
        for k, fn in self.fns.items():
            if fn.get("ctor") and fn.get("cls") and self.norm_t(fn["cls"]) == self.norm_t(rec["name"]) and len(fn["params"]) == len(vs) and not fn.get("copy"):
                from .interp import Frame
                nodes = []
                return self.run_ctor_v(fn, vs, st, fr, el)
        return mk(Struct, rec["name"], tuple((f["name"], self.conv(x, f["t"])) for f, x in zip(rec["fields"], vs)))
    sh = self.shape_t(el)
    if sh[0] == "vec" and len(vs) == sh[1] * sh[2]:
        return vec([self.topoly(x) for x in vs], sh[1], sh[2])
    if sh[0] == "struct" and len(sh[2]) == len(vs):
        return mk(Struct, sh[1], tuple((n, x) for (n, _), x in zip(sh[2], vs)))
    if not vs:
        return self.value_init(el)
    return unknown("emplace")


def eigen_member(self, e, c, name, oper, r, v, args, st, fr):
    from .interp import GiveUp, clean, mat_type, emap, sqrt_, abs_
    P = self.topoly
    f = P

    def A(i):
        return self.ev(args[i], st, fr)
    if isinstance(v, Unknown):
        vs = [A(i) for i in range(len(args))]
        if oper in ("=", "+=", "-=", "*=", "/="):
            if oper == "=":
                self.store_(st, r, vs[0])
            return "lv", r
        if name in COMP or name in ("operator()", "operator[]", "coeff", "coeffRef"):
            return "lv", self.refstep(r, ("i", tuple(P(x) for x in vs)), st)
        if name in VIEWS:
            return "lv", r
        return self.clobber(dict(e, args=[]), st, fr, "Eigen member of unknown")
    if oper == "=":
        x = A(0)
        m = (v.rows, v.cols) if isinstance(v, Vec) else (-1, -1) if isinstance(v, Arr) and len(v.dims) == 2 else (-1, 1)
        if isinstance(x, (Poly, B)) and isinstance(v, Vec) and v.rows * v.cols == 1:
            x = vec([P(x)], v.rows, v.cols)
        x = self.fit(x, m)
        self.store_(st, r, x)
        return "lv", r
    if oper in ("+=", "-=", "*=", "/="):
        x = A(0)
        nv = self.matop(oper[0], v, x)
        self.store_(st, r, nv)
        return "lv", r
    if oper in ("+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="):
        if oper == "-" and not args:
            return "rv", emap(lambda x: neg(P(x)), v)
        if isinstance(v, Vec) and isinstance(v.c[0], B):
            pass
        x = A(0)
        if oper == "*" and "ArrayBase" in (c.get("cls") or ""):
            return "rv", emap(lambda a, b: mul(P(a), P(b)), v, x)
        return "rv", self.matop(oper, v, x)
    if isinstance(v, Vec):
        if name in COMP:
            return "lv", self.refstep(r, ("c", (COMP[name],), None, None), st)
        if name in ("operator()", "operator[]", "coeff", "coeffRef", "value"):
            idx = [cval(P(A(i))) for i in range(len(args))]
            if len(idx) == 0:
                return "rv", v.c[0]
            if all(i is not None for i in idx):
                k = int(idx[0]) if len(idx) == 1 else int(idx[0]) * v.cols + int(idx[1])
                if 0 <= k < len(v.c):
                    return "lv", self.refstep(r, ("c", (k,), None, None), st)
                self.obl_idx(st, e, (const(k),), (const(len(v.c)),))
                return "rv", unk("component index")
            i = P(A(0)) if len(args) == 1 else add(mul(P(A(0)), const(v.cols)), P(A(1)))
            self.obl_idx(st, e, (i,), (const(len(v.c)),))
            # symbolic component index: a gated choice of the component references
            out = self.refstep(r, ("c", (len(v.c) - 1,), None, None), st)
            for k in range(len(v.c) - 2, -1, -1):
                out = mk(RefIte, eq(i, const(k)), self.refstep(r, ("c", (k,), None, None), st), out)
            return "lv", out
        if name in ("head", "tail", "segment", "topRows", "block", "row", "col"):
            n = None
            ta = c.get("targs") or []
            vs = [cval(P(A(i))) for i in range(len(args))]
            if name in ("head", "tail", "segment"):
                try:
                    n = int(ta[0])
                except Exception:
                    n = int(vs[-1]) if vs and vs[-1] is not None else None
                if n is not None:
                    s0 = 0 if name == "head" else len(v.c) - n if name == "tail" else int(vs[0]) if vs[0] is not None else None
                    if s0 is not None:
                        cs = tuple(range(s0, s0 + n))
                        return "lv", self.refstep(r, ("c", cs, n if v.cols == 1 else 1, 1 if v.cols == 1 else n), st)
            if name in ("row", "col") and vs and vs[0] is not None:
                k = int(vs[0])
                if name == "row":
                    return "lv", self.refstep(r, ("c", tuple(k * v.cols + j for j in range(v.cols)), 1, v.cols), st)
                return "lv", self.refstep(r, ("c", tuple(j * v.cols + k for j in range(v.rows)), v.rows, 1), st)
            if name == "block":
                try:
                    br, bc = int(ta[0]), int(ta[1])
                    r0, c0 = int(vs[0]), int(vs[1])
                except Exception:
                    br = None
                    if len(vs) == 4 and None not in vs:
                        r0, c0, br, bc = [int(x) for x in vs]
                if br is not None:
                    return "lv", self.refstep(r, ("c", tuple((r0 + i) * v.cols + c0 + j for i in range(br) for j in range(bc)), br, bc), st)
            raise GiveUp("Eigen view " + name)
        if name in ("noalias", "array", "matrix", "eval", "derived"):
            return "lv", r
        if name == "transpose":
            return "rv", vec([v.c[i * v.cols + j] for j in range(v.cols) for i in range(v.rows)], v.cols, v.rows)
        if name == "size": return "rv", const(v.rows * v.cols)
        if name == "rows": return "rv", const(v.rows)
        if name == "cols": return "rv", const(v.cols)
        if name == "data":
            return "rv", mk(Iter, r, ZERO)
        if name == "all": return "rv", band(*[self.tobool(x) for x in v.c])
        if name == "any": return "rv", bor(*[self.tobool(x) for x in v.c])
        cs = [P(x) for x in v.c]
        if name == "prod":
            o = ONE
            for x in cs: o = mul(o, x)
            return "rv", o
        if name == "sum":
            return "rv", addn(*cs)
        if name == "mean":
            return "rv", scale(addn(*cs), Fraction(1, len(cs)))
        if name in ("maxCoeff", "minCoeff") and not args: return "rv", minmax(name[:3], cs)
        if name == "squaredNorm": return "rv", addn(*[mul(x, x) for x in cs])
        if name == "norm": return "rv", sqrt_(addn(*[mul(x, x) for x in cs]))
        if name == "normalized":
            n = sqrt_(addn(*[mul(x, x) for x in cs]))
            q = addn(*[mul(x, x) for x in cs])
            return "rv", vec([ite(lt(ZERO, q), div(x, n), x) for x in cs], v.rows, v.cols)
        if name in ("cwiseAbs", "abs"): return "rv", vec([abs_(x) for x in cs], v.rows, v.cols)
        if name in ("cwiseMax", "cwiseMin", "max", "min"):
            k = name[-3:].lower()
            return "rv", emap(lambda x, y: minmax(k, [P(x), P(y)]), v, A(0))
        if name in ("cwiseProduct", "cwiseQuotient"):
            return "rv", emap((lambda x, y: mul(P(x), P(y))) if name == "cwiseProduct" else (lambda x, y: div(P(x), P(y))), v, A(0))
        if name == "dot":
            b = A(0)
            if isinstance(b, Vec):
                return "rv", addn(*[mul(x, P(y)) for x, y in zip(cs, b.c)])
        if name == "cross":
            b = A(0)
            if isinstance(b, Vec) and len(cs) == 3:
                y = [P(q) for q in b.c]
                return "rv", vec([sub(mul(cs[1], y[2]), mul(cs[2], y[1])), sub(mul(cs[2], y[0]), mul(cs[0], y[2])),
                                  sub(mul(cs[0], y[1]), mul(cs[1], y[0]))], 3, 1)
        if name == "setZero":
            self.store_(st, r, vec([ZERO] * len(v.c), v.rows, v.cols))
            return "lv", r
        if name in ("setConstant", "fill"):
            x = P(A(0))
            self.store_(st, r, vec([x] * len(v.c), v.rows, v.cols))
            return "lv", r
        if name in ("hasNaN", "allFinite"):
            return "rv", unkb(name)
        if name == "normalize":
            q = addn(*[mul(x, x) for x in cs])
            n = sqrt_(q)
            self.store_(st, r, vec([ite(lt(ZERO, q), div(x, n), x) for x in cs], v.rows, v.cols))
            return "rv", unknown("void")
        if name in ("isZero", "isApprox"):
            for i in range(len(args)): A(i)
            return "rv", unkb(name)
        return self.clobber(e, st, fr, "Eigen::" + name)
    if isinstance(v, Arr):
        if name in ("operator()", "operator[]", "coeff", "coeffRef"):
            idx = tuple(P(A(i)) for i in range(len(args)))
            if len(idx) == len(v.dims):
                self.bound(st, e, v, idx)
                return "lv", self.refstep(r, ("i", idx), st)
            raise GiveUp("Eigen index arity")
        if name in ("row", "col"):
            k = P(A(0))
            if len(v.dims) == 2:
                ax = 0 if name == "row" else 1
                self.obl_idx(st, e, (k,), (v.dims[ax],))
                return "lv", self.refstep(r, (name, k), st)
            raise GiveUp("row of vector")
        if name == "size":
            n = ONE
            for d in v.dims: n = mul(n, d)
            return "rv", n
        if name == "rows": return "rv", v.dims[0]
        if name == "cols": return "rv", v.dims[1] if len(v.dims) == 2 else ONE
        if name in ("noalias", "array", "matrix", "eval", "derived"):
            return "lv", r
        if name == "setZero":
            dims = tuple(P(A(i)) for i in range(len(args))) or v.dims
            self.store_(st, r, mk(AFill, dims, ZERO, ("real",)))
            return "lv", r
        if name in ("resize", "conservativeResize"):
            dims = tuple(P(A(i)) for i in range(len(args)))
            if name == "resize" and len(dims) == len(v.dims):
                self.store_(st, r, mk(AFill, dims, unk("uninit:Eigen"), ("real",)))
                return "rv", unknown("void")
        if name == "sum" and len(v.dims) == 1:
            q = fresh("q")
            return "rv", bsum(q, ZERO, sub(v.dims[0], ONE), P(v.get((q,), st.facts)))
        if name == "dot" and len(v.dims) == 1:
            b = A(0)
            if isinstance(b, Arr):
                q = fresh("q")
                return "rv", bsum(q, ZERO, sub(v.dims[0], ONE), mul(P(v.get((q,), st.facts)), P(b.get((q,), st.facts))))
        if name in ("head", "segment", "tail") and len(v.dims) == 1:
            vs = [P(A(i)) for i in range(len(args))]
            n = vs[-1]
            s0 = ZERO if name == "head" else sub(v.dims[0], n) if name == "tail" else vs[0]
            return "rv", mk(ASlice, v, s0, n)
        return self.clobber(e, st, fr, "Eigen dynamic::" + name)
    if isinstance(v, Poly):
        if name in ("operator()", "coeff", "value", "sum", "eval", "array", "matrix"):
            return "rv", v
        if name in ("norm", "cwiseAbs"):
            return "rv", abs_(v)
    return self.clobber(e, st, fr, "Eigen::" + name)


def str_member(self, e, c, name, r, v, args, st, fr):
    vs = [self.ev(a, st, fr) for a in args]
    if name == "operator=":
        self.store_(st, r, vs[0] if isinstance(vs[0], Str) else mk(Str, "unk", next(T._fresh)))
        return "lv", r
    if name in ("empty",):
        if v.args[0] == "lit":
            return "rv", mkbool(v.args[1] == "")
        return "rv", unkb("string")
    if name in ("size", "length", "find", "rfind"):
        return "rv", unk("string", "int")
    if not c.get("const") and name not in ("begin", "end", "rbegin", "rend", "front", "back", "operator[]", "at", "data", "c_str"):
        self.store_(st, r, mk(Str, "unk", next(T._fresh)))
    if name in ("substr",):
        return "rv", mk(Str, "unk", next(T._fresh))
    if name in ("front", "back", "operator[]", "at"):
        return "rv", unk("char", "int")
    return "rv", unknown("string::" + name)
