"""Loop summaries: recurrences of the loop-carried variables are solved in closed form where their shape is known."""
from collections import OrderedDict
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .linear import Facts
from .simp import tidy

INF = app("infinity", (), "int")
LIM = 5


class Leaf:
    def __init__(self, key, init, kind):
        self.key, self.init, self.kind = key, init, kind
        self.phi = None      # symbolic loop-head value
        self.sol = None      # closed form at iteration t
        self.next = None
        self.dyn = False     # array whose dimensions change
        self.dims = None     # dimension leaves
        self.extra = None


def get_leaf(v, key):
    root, fp, comp = key
    for f in fp:
        if not isinstance(v, Struct) or not v.has(f):
            return unknown("leaf")
        v = v.get(f)
    if comp is not None:
        if isinstance(v, Vec):
            return v.c[comp]
        return unk("leaf component")
    return v


def set_leaf(v, key, x):
    root, fp, comp = key

    def rec(v, fp):
        if fp:
            if isinstance(v, Struct):
                return v.with_(fp[0], rec(v.get(fp[0]) if v.has(fp[0]) else unknown("field"), fp[1:]))
            return v
        if comp is not None:
            if isinstance(v, Vec):
                c = list(v.c)
                c[comp] = x
                return vec(c, v.rows, v.cols)
            return v
        return x
    return rec(v, fp)


def loop(self, s, st, fr):
    from .interp import GiveUp
    spec = {"cond": (lambda x: self.tobool(self.ev(s["c"], x, fr))) if s.get("c") else (lambda x: TRUE),
            "body": lambda x: self.ex(s["body"], x, fr),
            "inc": (lambda x: self.ev(s["inc"], x, fr)) if s.get("inc") else (lambda x: None),
            "l": s.get("l"), "key": id(s), "true": not s.get("c") or s["c"]["k"] == "bool" or "cv" in s["c"]}
    if s.get("var"):
        raise GiveUp("condition variable in loop")
    return self.run_loop(spec, st, fr)


def ex_do(self, s, st, fr):
    """do B while (c)  ==  B; while (c) B"""
    fr.loops.append({"breaks": [], "continues": []})
    try:
        out = self.ex(s["body"], st.copy(), fr)
    finally:
        l = fr.loops.pop()
    outs = ([out] if out is not None else []) + l["continues"]
    after = None
    if outs:
        cur = outs[0] if len(outs) == 1 else self.merge_many(st, outs)
        after = self.loop({"k": "while", "c": s["c"], "body": s["body"], "l": s.get("l")}, cur, fr)
    fin = ([after] if after is not None else []) + l["breaks"]
    if not fin:
        return None
    if len(fin) == 1:
        return fin[0]
    return self.merge_many(st, fin)


def ex_range(self, s, st, fr):
    from .interp import GiveUp
    if s.get("init"):
        st = self.ex(s["init"], st, fr)
    rng = s["range"]
    if self.is_lvalue(rng):
        r = self.lv(rng, st, fr)
        v = self.load(st, r)
    else:
        if rng["k"] == "call":
            kind, v = self.call(rng, st, fr)
            r = v if kind == "lv" else self.new(st, "range", v)
            v = self.load(st, r)
        else:
            v = self.ev(rng, st, fr)
            r = self.new(st, "range", v)
    start = ZERO
    if isinstance(v, Span):
        r, start, n = v.args
    elif isinstance(v, Arr) and len(v.dims) == 1:
        n = v.dims[0]
    elif isinstance(v, Struct) and self.find_method(v.cls, "begin") and self.find_method(v.cls, "end"):
        kb, b = self.invoke(self.find_method(v.cls, "begin"), r, [], st, fr)
        ke, en = self.invoke(self.find_method(v.cls, "end"), r, [], st, fr)
        if kb == "lv": b = self.load(st, b)
        if ke == "lv": en = self.load(st, en)
        if not (isinstance(b, Iter) and isinstance(en, Iter) and b.args[0] is en.args[0]):
            raise GiveUp("range with custom iterators")
        r, start, n = b.args[0], b.args[1], sub(en.args[1], b.args[1])
    else:
        raise GiveUp("range-for over " + type(v).__name__)
    idx = self.new(st, "idx", ZERO)
    self.vtypes[idx.root] = "int"
    var = s["var"]

    def body(x):
        i = add(start, self.load(x, idx))
        er = self.refstep(r, ("i", (i,)), x)
        if var.get("bindings"):
            if not var.get("ref"):
                er = self.new(x, "bind", self.load(x, er))
            fr.env[var["id"]] = er
            self.bind_names(var, er, x, fr)
        elif var.get("ref"):
            fr.env[var["id"]] = er
        else:
            fr.env[var["id"]] = self.new(x, var["name"], self.load(x, er))
            self.vtypes[fr.env[var["id"]].root] = var["t"]
        return self.ex(s["body"], x, fr)
    spec = {"cond": lambda x: lt(self.load(x, idx), n), "body": body,
            "inc": lambda x: self.store_(x, idx, add(self.load(x, idx), ONE)), "l": s.get("l"), "key": id(s)}
    return self.run_loop(spec, st, fr)


def one_iter(self, spec, head, fr):
    nr, nt = len(fr.returns), len(fr.throws)
    fr.loops.append({"breaks": [], "continues": []})
    exitst = nxt = None
    c = TRUE
    try:
        s = head.copy()
        c = spec["cond"](s)
        d = s.facts.decide(c)
        cc = s
        if d is not True:
            exitst = s.fork(bnot(c))
        else:
            exitst = None
        if d is not False:
            b = s.fork(c)
            for l in spec.get("leaves", {}).values():
                v = l.sol
                if l.key[0] in b.store and (isinstance(v, AIte) or isinstance(v, Poly) and any(a.kind == "ite" for m, _ in v.terms for a, _e in m)):
                    w = tidy(v, b.facts)
                    if w is not v:
                        b.store[l.key[0]] = set_leaf(b.store[l.key[0]], l.key, w)
            out = spec["body"](b)
            outs = ([out] if out is not None else []) + fr.loops[-1]["continues"]
            if outs:
                nxt = outs[0] if len(outs) == 1 else self.merge_many(head, outs)
                spec["inc"](nxt)
                if nxt.guard is FALSE:
                    nxt = None
    finally:
        l = fr.loops.pop()
    rets, throws = fr.returns[nr:], fr.throws[nt:]
    del fr.returns[nr:]
    del fr.throws[nt:]
    return {"c": c, "decided": d, "exit": exitst, "next": nxt, "breaks": l["breaks"], "rets": rets, "throws": throws}


def try_unroll(self, spec, st, fr):
    if spec.get("true") and self.script is None:
        return NotImplemented
    nr, nt, no, nl = len(fr.returns), len(fr.throws), len(self.obls), len(self.loopinfo)

    def undo():
        del fr.returns[nr:]
        del fr.throws[nt:]
        del self.obls[no:]
        del self.loopinfo[nl:]
        return NotImplemented
    cur = st.copy()
    fr.loops.append({"breaks": [], "continues": []})
    brk = []
    exits = []
    try:
        lim = getattr(self, "unroll", LIM)
        for it in range(lim + 1):
            c = spec["cond"](cur)
            if c is FALSE or (it > 0 and cur.facts.decide(c) is False) or (it == 0 and cur.facts.decide(c) is False):
                exits.append(cur)
                cur = None
                break
            if self.script is not None:
                from .interp import GiveUp
                if it == lim:
                    raise GiveUp("%d rounds" % lim)
                if c is not TRUE and cur.facts.decide(c) is not True and not self.decision(c, cur):
                    exits.append(cur)
                    cur = None
                    break
            elif c is not TRUE or it == lim:
                return undo()
            out = spec["body"](cur)
            l = fr.loops[-1]
            outs = ([out] if out is not None else []) + l["continues"]
            l["continues"] = []
            if not outs:
                cur = None
                break
            cur = outs[0] if len(outs) == 1 else self.merge_many(st, outs)
            spec["inc"](cur)
            if cur.guard is FALSE:
                cur = None
                break
        brk = fr.loops[-1]["breaks"]
    finally:
        fr.loops.pop()
    fin = exits + brk
    if not fin:
        return None
    if not self.discover:
        self.loopinfo.append({"l": spec.get("l"), "fn": fr.fn["qual"] if fr.fn else "", "bounded": True, "unrolled": True})
    if len(fin) == 1:
        return fin[0]
    return self.merge_many(st, fin)


def leaf_type(self, key):
    """'int' / 'real' / None for a scalar leaf from the declared type of its root."""
    root, fp, comp = key
    t = self.vtypes.get(root)
    if comp is not None:
        return "real"
    if t is None:
        return None
    sh = self.shape_t(t)
    for f in fp:
        if sh[0] != "struct":
            return None
        m = dict(sh[2])
        if f not in m:
            return None
        sh = m[f]
    if sh[0] in ("int", "real"):
        return sh[0]
    if sh[0] == "vec":
        return "real"
    return None


def leaves_of(self, st, written, leaves):
    """Expands written (root, field path) pairs into leaves of the head state; returns the new ones."""
    new = []

    def expand(root, fp, v):
        if isinstance(v, Struct):
            for n, x in v.args[1]:
                expand(root, fp + (n,), x)
            return
        if isinstance(v, Vec):
            for i in range(len(v.c)):
                put((root, fp, i), v.c[i])
            return
        put((root, fp, None), v)

    def put(key, v):
        if key in leaves:
            return
        for k in leaves:
            if k[0] == key[0] and (k[1] == key[1][:len(k[1])]) and k[2] is None and k[1] != key[1]:
                return
        if isinstance(v, Poly): kind = "s"
        elif isinstance(v, B): kind = "b"
        elif isinstance(v, Arr): kind = "a"
        elif isinstance(v, Iter): kind = "i"
        elif isinstance(v, RIter): kind = "ri"
        else: kind = "x"
        l = Leaf(key, v, kind)
        leaves[key] = l
        new.append(l)
    for (root, fp) in written:
        if root not in st.store:
            continue
        v = st.store[root]
        k = 0
        ok = True
        for f in fp:
            if isinstance(v, Struct) and v.has(f):
                v = v.get(f)
                k += 1
            else:
                break
        expand(root, tuple(fp[:k]), v)
    return new


def make_phi(self, l, lid):
    nm = "%s%s" % (l.key[0].split("@")[0], "".join("." + str(x) for x in l.key[1]) + ("" if l.key[2] is None else "[%d]" % l.key[2]))
    if l.kind == "s":
        ty = self.leaf_type(l.key) or ("int" if isint(l.init) else "real")
        l.phi = fresh("phi_%s" % nm, ty)
    elif l.kind == "b":
        l.phi = bsym("phi_%s#%d" % (nm, next(T._fresh)))
    elif l.kind == "i":
        l.phi = mk(Iter, l.init.args[0], fresh("phi_%s" % nm, "int"))
    elif l.kind == "ri":
        l.phi = mk(RIter, l.init.args[0], fresh("phi_%s" % nm, "int"))
    elif l.kind == "a":
        if l.dyn:
            if l.dims is None:
                l.dims = [fresh("phi_%s.size" % nm, "int") for _ in l.init.dims]
            d = tuple(l.dims)
        else:
            d = l.init.dims
        l.phi = mk(ASym, "phi_%s#%d" % (nm, next(T._fresh)), l.init.shape, d)
    else:
        l.phi = unknown("loop-carried " + nm)


def phi_atom(l):
    if l.kind == "s":
        return single(l.phi)
    if l.kind == "b":
        return l.phi.args[0]
    if l.kind in ("i", "ri"):
        return single(l.phi.args[1])
    if l.kind == "a":
        return l.phi
    return None


def run_loop(self, spec, st, fr):
    from .interp import GiveUp, State
    r = self.try_unroll(spec, st, fr)
    if r is not NotImplemented:
        return r
    c = fork_gate(self, spec, st)
    if c is not None:
        # the loop bound is gated by an unrelated decision: the loop once per side
        self.forks = getattr(self, "forks", 0) + 1
        try:
            outs = []
            for b in (c, bnot(c)):
                x = st.fork(b)
                for k, v in x.store.items():
                    x.store[k] = tidy_store(v, x.facts)
                outs.append(self.run_loop(dict(spec), x, fr))
        finally:
            self.forks -= 1
        sa, sb = outs
        if sa is None or sb is None:
            return sb if sa is None else sa
        out = st.copy()
        self.merge_into(out, c, sa, sb)
        return out
    self.nloop += 1
    lid = self.nloop
    t = fresh("t")
    ta = single(t)
    leaves = OrderedDict()
    g0 = st.guard
    outer = self.wlog
    roots = set(st.store)
    spec["leaves"] = leaves

    def head(extra=()):
        store = dict(st.store)
        for l in leaves.values():
            v = l.sol if l.sol is not None else l.phi
            store[l.key[0]] = set_leaf(store[l.key[0]], l.key, v)
        return State(store, st.facts.extend([le(ZERO, t)] + [x for x in extra]), TRUE)

    def fetch(rec):
        for l in leaves.values():
            l.next = get_leaf(rec["next"].store[l.key[0]], l.key) if rec["next"] is not None else None

    def unsolved_atoms():
        out = set()
        for l in leaves.values():
            if l.sol is None:
                a = phi_atom(l)
                if a is not None:
                    out.add(a)
                if l.kind == "a" and l.dyn and l.dims is not None:
                    for d in l.dims:
                        if is_single(d) and single(d).kind == "sym" and single(d) is not ta and str(single(d).args[0]).startswith("phi_"):
                            out.add(single(d))
        return out

    self.discover += 1
    log = {}
    rec = None
    try:
        for rnd in range(40):
            self.wlog = {}
            rec = self.one_iter(spec, head(), fr)
            for k in self.wlog:
                log[k] = True
            if rec["next"] is None and not leaves and rec["exit"] is None and False:
                break
            new = self.leaves_of(st, [k for k in self.wlog if k[0] in roots], leaves)
            if new:
                for l in leaves.values():
                    l.sol = None
                    if l.phi is None:
                        make_phi(self, l, lid)
                continue
            if rec["next"] is None:
                # the body never completes normally: heads are the initial values
                for l in leaves.values():
                    l.sol = l.init
                rec["once"] = True
                break
            fetch(rec)
            # arrays that change size need symbolic head dimensions
            redo = False
            for l in leaves.values():
                if l.kind == "a" and not l.dyn and l.sol is None:
                    if not isinstance(l.next, Arr) or len(l.next.dims) != len(l.phi.dims):
                        l.kind = "x"
                        make_phi(self, l, lid)
                        redo = True
                    elif any(a is not b and rec["next"].facts.decide(eq(a, b)) is not True for a, b in zip(l.next.dims, l.phi.dims)):
                        l.dyn = True
                        make_phi(self, l, lid)
                        redo = True
            if redo:
                for l in leaves.values():
                    l.sol = None
                continue
            U = unsolved_atoms()
            prog = False
            self.old_reads(leaves, t, U, rec, st)
            for l in leaves.values():
                if l.sol is None and (self.solve_leaf(l, t, U, rec, st, leaves) or solve_swap(l, t, leaves)):
                    prog = True
            if not prog:
                break
        # invariants for what stays unsolved
        inv = self.find_invariants(spec, leaves, head, fetch, st, fr, t) if rec["next"] is not None and not rec.get("once") else []
    finally:
        self.discover -= 1
        self.wlog = outer
    if outer is not None:
        outer.update({k: True for k in log if k[0] in roots})
    # final pass: obligations are recorded here
    w = self.wlog
    self.wlog = {} if w is not None else None
    try:
        rec = self.one_iter(spec, head(inv), fr)
    finally:
        self.wlog = w
    if rec["next"] is not None:
        fetch(rec)
    U = unsolved_atoms()

    c = rec["c"]
    N1, nonaff = self.trip(c, t, U, rec, st)
    strip = set(x.id for x in (c.args if c.kind == "and" else (c,)))

    def rel(g):
        return band(*[x for x in (g.args if g.kind == "and" else (g,)) if x.id not in strip])
    kinds = []   # (kind, guard(t), payload)
    for b in rec["breaks"]:
        kinds.append(("break", rel(b.guard), b))
    for g, s, v in rec["rets"]:
        kinds.append(("ret", rel(g), (s, v)))
    for g, info, f in rec["throws"]:
        kinds.append(("throw", rel(g), (info, f)))
    condx = [bnot(x) for x in nonaff]
    E = bor(*([g for _, g, _ in kinds] + condx))
    # trip counts that a break condition bounds
    bounded = N1 is not INF
    if not bounded and E is not FALSE:
        for x in (E.args if E.kind == "or" else (E,)):
            n = affine_exit(x, t, U)
            if n is not None:
                N1 = n if N1 is INF else minmax("min", [N1, n])
        if N1 is not INF:
            bounded = True
    unsolved = [l for l in leaves.values() if l.sol is None]
    fin = {}
    FOLDS[lid] = {"l": spec.get("l"), "t": t, "N": N1, "c": c, "E": E, "leaves": leaves, "facts": rec["next"].facts if rec["next"] is not None else None,
                  "fn": fr.fn["qual"] if fr.fn else "", "inv": inv, "next": rec["next"], "rec": rec, "discover": self.discover}
    if not self.discover:
        self.loopinfo.append({"l": spec.get("l"), "fn": fr.fn["qual"] if fr.fn else "", "bounded": bounded or E is not FALSE and not (E.fv & U) and False,
                              "unsolved": [str(l.key) for l in unsolved], "lid": lid, "N": N1, "E": E, "c": c,
                              "progress": rec["next"] is None})
    for l in unsolved:
        nm = "fold%d:%s" % (lid, l.key[0])
        if l.kind == "s":
            f = pa(atom("unk", (nm, lid, l.key), single(l.phi).typ))
            fin[single(l.phi)] = f
        elif l.kind == "b":
            fin[l.phi.args[0]] = batom(atom("unk", (nm, lid, l.key), "bool"))
        elif l.kind in ("i", "ri"):
            fin[single(l.phi.args[1])] = pa(atom("unk", (nm, lid, l.key), "int"))
        elif l.kind == "a":
            dims = []
            for i, d in enumerate(l.phi.dims):
                if is_single(d) and single(d) in U:
                    f = pa(atom("unk", (nm + ".size%d" % i, lid, l.key), "int"))
                    fin[single(d)] = f
                    dims.append(f)
                else:
                    dims.append(d)
            fin[l.phi] = ("arr", nm, l, tuple(dims))
    # exit index
    hasE = E is not FALSE
    simple = not hasE
    N = N1 if N1 is INF else mx0(N1) if st.facts.decide(le(ZERO, N1)) is not True else N1
    if N is INF and simple and c is not FALSE:
        # no exit found: either endless or beyond the domain
        k = fresh("trip")
        self.note("loop at %s: no trip count" % spec.get("l"))
        k = pa(atom("unk", ("trip", lid), "int"))
    elif simple:
        k = N
    elif E.fv & U:
        k = pa(atom("unk", ("trip", lid), "int"))
    else:
        k = first(t, ZERO, N, E)

    # what the unsolved leaves depend on besides themselves
    dep = set()
    for l in leaves.values():
        for x in (l.init, l.next, l.sol):
            if hasattr(x, "fv"):
                dep |= x.fv
    dep |= c.fv | E.fv
    dep -= U | {ta}
    deps = tuple(sorted((x if isinstance(x, Value) else batom(x) if x.typ == "bool" else pa(x) for x in dep), key=lambda z: z.id))

    def inst(kk):
        m = {ta: kk}
        for a, f in fin.items():
            if isinstance(f, tuple):
                m[a] = mk(AFold, lid, f[2].key, f[2].phi.shape, tuple(subst(d, {ta: kk, **{x: y for x, y in fin.items() if not isinstance(y, tuple)}}) for d in f[3]), deps)
            else:
                m[a] = f
        return m
    ks = set([ta]) | set(fin)
    cache = {}

    def S(x, kk):
        if not hasattr(x, "fv") or not (x.fv & ks):
            return x
        key = (id(x), kk.id)
        if key not in cache:
            m = cache.setdefault(("m", kk.id), None) or inst(kk)
            cache[("m", kk.id)] = m
            cache[key] = (x, subst(x, m))
        return cache[key][1]

    def substate(s, kk, more=(), only_common=False):
        store = {r: S(v, kk) for r, v in s.store.items()}
        base = set(f.id for f in st.facts.facts)
        fs = [S(f, kk) for f in s.facts.facts if f.id not in base]
        return State(store, st.facts.extend([f for f in fs if f is not FALSE] + list(more)), s.guard)

    kfacts = [le(ZERO, k)] + ([le(k, N)] if N is not INF and k is not N else [])
    onekind = len({kd for kd, _, _ in kinds} | ({"cond"} if condx else set())) <= 1 and len(kinds) + len(condx) <= 1 or \
        (len({kd for kd, _, _ in kinds}) == 1 and not condx and kinds[0][0] in ("throw",)) or \
        (len(kinds) > 1 and False)
    if hasE:
        X = (bexists(t, ZERO, N, E) if N is not INF else TRUE) if not (E.fv & U) else unkb("loop exit")
    else:
        X = FALSE
    gone = FALSE
    brk = []
    for kd, g, pl in kinds:
        if E.fv & U:
            gx = unkb("loop exit") if len(kinds) + len(condx) + (0 if N1 is INF else 1) > 1 else TRUE
        elif onekind:
            gx = X if len(kinds) == 1 else (bexists(t, ZERO, N, g) if N is not INF else TRUE)
        else:
            gx = band(X, S(g, k))
        if kd == "break":
            brk.append((gx, substate(pl, k, kfacts)))
        elif kd == "ret":
            s, v = pl
            s2 = substate(s, k, kfacts + [gx])
            s2.guard = band(g0, gx)
            fr.returns.append((s2.guard, s2, S(v, k)))
            gone = bor(gone, gx)
        else:
            info, f = pl
            fs = st.facts.extend([S(x, k) for x in f.facts if S(x, k) is not FALSE] + kfacts)
            fr.throws.append((band(g0, gx), info, fs))
            gone = bor(gone, gx)
    # continuing state
    conts = []
    useN = not condx and not brk
    if rec["exit"] is not None:
        kn = N if useN and N is not INF else k
        conts.append(("exit", substate(rec["exit"], kn, [le(ZERO, kn)] if not brk else kfacts)))
    if not conts and not brk:
        return None
    if conts:
        out = conts[0][1]
        if brk:
            # facts hold only on the normal exit
            out = State(out.store, st.facts.extend(kfacts + [S(x, k) for x in inv]), TRUE)
        store = out.store
        for gx, s in brk:
            raw_same = {}
            ns = {}
            for r_, v in store.items():
                if r_ in s.store:
                    b = s.store[r_]
                    ns[r_] = v if b is v else vite(gx, b, v)
                else:
                    ns[r_] = v
            store = ns
        out = State(store, out.facts, out.guard)
    else:
        gx, out = brk[-1]
        store = out.store
        for gx2, s in reversed(brk[:-1]):
            store = self.merge_store(gx2, s.store, store)
        out = State(store, st.facts.extend(kfacts) if len(brk) > 1 else out.facts, TRUE)
    out.guard = g0
    if gone is not FALSE:
        out.guard = band(g0, bnot(gone))
        out.facts = out.facts.extend([bnot(gone)])
        if gone is TRUE:
            return None
    return out


def fork_gate(self, spec, st):
    """An undecided gate in the loop condition at entry, when it is an unknown decision (a plain boolean)."""
    if getattr(self, "forks", 0) >= 3 or spec.get("true"):
        return None
    no, w = len(self.obls), self.wlog
    self.wlog = {} if w is not None else None
    try:
        c = spec["cond"](st.copy())
    except Exception:
        return None
    finally:
        del self.obls[no:]
        self.wlog = w
    if not isinstance(c, B) or c.kind not in ("le", "lt", "eq", "not"):
        return None
    p = (c.args[0].args if c.kind == "not" else c.args)[0]
    if not isinstance(p, Poly):
        return None
    for m, _ in p.terms:
        for a, _e in m:
            if a.kind == "ite" and a.args[0].kind == "batom" and (a.args[0].args[0].kind in ("unk", "sym") or is_decision(a.args[0].args[0])) and st.facts.decide(a.args[0]) is None:
                return a.args[0]
    return None


def is_decision(a):
    return a.kind == "app" and a.args[0] == "decision"


def tidy_store(v, facts):
    if isinstance(v, Struct):
        return mk(Struct, v.cls, tuple((n, tidy_store(x, facts)) for n, x in v.args[1]))
    if isinstance(v, (Poly, Arr)):
        return tidy(v, facts)
    return v


def affine_exit(x, t, U):
    """A bound n such that the exit condition x holds at iteration n at the latest (x = conjunction is not used)."""
    if x.kind == "le" and isint(x.args[0]) and not (x.args[0].fv & U):
        s = split_lin(x.args[0], t)
        if s is not None:
            a, r = s
            ca = cval(a)
            if ca is not None and ca < 0:
                # r + a t <= 0  <=>  t >= r / -a   -> first t = ceil(r / -a)
                q = -ca
                n = r if q == 1 else idiv(add(r, const(q - 1)), const(q))
                return mx0(n)
    return None


def trip(self, c, t, U, rec, st):
    """(N, non-affine conjuncts): c holds exactly for t < N as far as the affine conjuncts are concerned."""
    if c is FALSE:
        return ZERO, []
    if rec["decided"] is True and c is not TRUE:
        pass
    if c is TRUE:
        return INF, []
    conj = list(c.args) if c.kind == "and" else [c]
    Ns, non = [], []
    facts = rec["exit"].facts if rec["exit"] is not None else st.facts
    base = st.facts.extend([le(ZERO, t)])
    for x in conj:
        n = None
        if not (x.fv & U):
            if x.kind == "le" and isint(x.args[0]):
                s = split_lin(x.args[0], t)
                if s is not None:
                    a, r = s
                    ca = cval(a)
                    if ca is not None and ca > 0:
                        n = sub(ONE, r) if ca == 1 else base.idiv(sub(const(ca), r), const(ca))
                    elif ca is None and base.prove(le(ONE, a)):
                        n = base.idiv(sub(a, r), a)
            elif x.kind == "not" and x.args[0].kind == "eq" and isint(x.args[0].args[0]):
                s = split_lin(x.args[0].args[0], t)
                if s is not None and cval(s[0]) in (1, -1):
                    r = scale(s[1], -cval(s[0]))
                    if base.prove(le(ZERO, r)):
                        n = r
                    else:
                        # i != end with an end below the start does not terminate; assume well-formed
                        n = r
            elif single(t) not in x.fv:
                # loop-invariant conjunct
                n = None
            elif x.kind == "lt":
                s = split_lin(x.args[0], t)
                if s is not None:
                    a, r = s
                    if not (a.fv & {single(t)}) and (cval(a) is not None and cval(a) > 0 or cval(a) is None and base.prove(lt(ZERO, a))):
                        n = None
        if n is not None:
            Ns.append(n)
        else:
            non.append(x)
    if not Ns:
        return INF, non
    N = Ns[0]
    for n in Ns[1:]:
        N = self.minmax_facts("min", N, n, rec["next"] or st) if False else minmax("min", [N, n])
    return N, non


def once_at(c, t, U):
    """K such that c holds at iteration K only."""
    if c.kind != "eq" or c.fv & U:
        return None
    s = split_lin(c.args[0], t)
    if s is None or cval(s[0]) not in (1, -1) or not isint(c.args[0]) or single(t) in s[1].fv:
        return None
    return scale(s[1], -cval(s[0]))


def initial(leaves):
    """Values of the unsolved variables before the loop."""
    m = {}
    for l in leaves.values():
        if l.sol is not None or l.init is None:
            continue
        if l.kind == "s":
            m[single(l.phi)] = l.init
        elif l.kind == "b":
            m[l.phi.args[0]] = l.init
        elif l.kind == "a":
            m[l.phi] = l.init
            for d, e in zip(l.phi.dims, l.init.dims):
                if is_single(d) and str(single(d).args[0]).startswith("phi_"):
                    m[single(d)] = e
    return m


def once(self, init, phi, nxt, t, U, leaves):
    """next = (t == K ? X : old): the value is X once iteration K is over."""
    if isinstance(nxt, Poly) and is_single(nxt) and single(nxt).kind == "ite":
        c, x, y = single(nxt).args
    elif isinstance(nxt, AIte):
        c, x, y = nxt.args[:3]
    elif isinstance(nxt, B) and nxt.kind == "ite":
        c, x, y = nxt.args
    else:
        return None
    if y is not phi:
        return None
    K = once_at(c, t, U)
    if K is None:
        return None
    own = phi if isinstance(phi, Value) else phi.args[0] if isinstance(phi, B) else single(phi)
    m = initial(leaves) if K is ZERO else {own: init}
    if isinstance(phi, Arr):
        for d, e in zip(phi.dims, init.dims):
            if is_single(d) and str(single(d).args[0]).startswith("phi_"):
                m[single(d)] = e
    m[single(t)] = K
    x = subst(x, m)
    if x.fv & U or isinstance(x, Unknown):
        return None
    g = band(le(ZERO, K), lt(K, t))
    return vite(g, x, init)


def reset_first(self, l, t, U, leaves):
    """The array is replaced in iteration 0: (first content, next value without the replacement), else None."""
    hit = []

    def look(v, depth=0):
        if isinstance(v, AIte) and v.args[2] is l.phi and once_at(v.args[0], t, U) is ZERO:
            hit.append(v)
        elif depth < 6:
            for b in base_of(v):
                look(b, depth + 1)
    look(l.next)
    if len(set(hit)) != 1:
        return None
    a = hit[0]
    m = initial(leaves)
    m[single(t)] = ZERO
    first_ = subst(a.args[1], m)
    if first_.fv & U:
        return None
    return a, first_


def replace_value(v, a, b):
    """v with the array value a (on its spine) replaced by b."""
    if v is a:
        return b
    if isinstance(v, AIte):
        return mk(AIte, v.args[0], replace_value(v.args[1], a, b), replace_value(v.args[2], a, b))
    if isinstance(v, (AStore, AResize, AInsert, AErase)):
        return mk(type(v), replace_value(v.args[0], a, b), *v.args[1:])
    if isinstance(v, ALoop):
        return mk(ALoop, replace_value(v.base, a, b), v.writes)
    return v


def base_of(v):
    if isinstance(v, AIte):
        return [v.args[1], v.args[2]]
    if isinstance(v, (AStore, AResize, AInsert, AErase)):
        return [v.args[0]]
    if isinstance(v, ALoop):
        return [v.base]
    return []


def solve_leaf(self, l, t, U, rec, st, leaves):
    if l.kind in ("s", "a", "b") and isinstance(l.next, (Poly, B, Arr)):
        r = once(self, l.init, l.phi, l.next, t, U, leaves)
        if r is not None and (l.kind != "a" or all(not (d.fv & U) for d in r.dims)):
            l.sol = r
            return True
    if l.kind == "s":
        if not isinstance(l.next, Poly):
            return demote(self, l)
        r = self.solve_scalar(l.init, l.phi, l.next, t, U)
        if r is not None:
            l.sol = r
            return True
        return False
    if l.kind == "b":
        if not isinstance(l.next, B):
            return demote(self, l)
        r = self.solve_bool(l.init, l.phi, l.next, t, U)
        if r is not None:
            l.sol = r
            return True
        return False
    if l.kind in ("i", "ri"):
        if not isinstance(l.next, type(l.phi)) or l.next.args[0] is not l.phi.args[0]:
            return demote(self, l)
        r = self.solve_scalar(l.init.args[1], l.phi.args[1], l.next.args[1], t, U)
        if r is not None:
            l.sol = mk(type(l.phi), l.phi.args[0], r)
            return True
        return False
    if l.kind == "a":
        if l.dyn:
            # dimensions first
            ch = False
            for i, d in enumerate(l.dims):
                if is_single(d) and single(d) in U:
                    r = once(self, l.init.dims[i], d, l.next.dims[i], t, U, leaves)
                    if r is None:
                        r = self.solve_scalar(l.init.dims[i], d, l.next.dims[i], t, U)
                    if r is not None:
                        l.dims[i] = r
                        ch = True
            if ch:
                make_phi(self, l, 0)
                return True
        if not isinstance(l.next, Arr):
            return demote(self, l)
        r = self.solve_array(l, t, U, rec, st)
        if r is None:
            q = reset_first(self, l, t, U, leaves)
            if q is not None:
                a, v0 = q
                l2 = Leaf(l.key, v0, "a")
                l2.phi = mk(ASym, "phi_reset#%d" % a.id, l.phi.shape, v0.dims)
                l2.next = tidy(replace_value(l.next, a, l2.phi), rec["next"].facts)
                if l.phi not in l2.next.fv:
                    r = self.solve_array(l2, t, U | {l2.phi}, rec, st)
                    if r is not None:
                        r = mk(AIte, le(t, ZERO), l.init, r)
        if r is not None:
            l.sol = r
            return True
        return False
    # x: wholesale replacement by something known
    if l.next is l.phi or l.next is l.init:
        l.sol = l.init
        return True
    if l.next is not None and not isinstance(l.next, Unknown) and not (l.next.fv & U) and not l.next.taint:
        ta = single(t)
        prev = subst(l.next, {ta: sub(t, ONE)})
        l.sol = prev if ta not in l.next.fv and l.next is l.init else vite(le(t, ZERO), l.init, prev)
        if isinstance(l.sol, Unknown):
            l.sol = None
            return False
        return True
    return False


def solve_swap(l, t, leaves):
    """Two variables that exchange their values in every iteration."""
    if l.kind not in ("s", "b"):
        return False
    if l.kind == "s" and isinstance(l.next, Poly):
        c = add(l.next, l.phi)
        if cval(c) is not None:         # x -> c - x
            l.sol = add(l.init, mul(sub(c, scale(l.init, 2)), sub(t, scale(idiv(t, const(2)), 2))))
            return True
    for o in leaves.values():
        if o is not l and o.kind == l.kind and o.sol is None and l.next is o.phi and o.next is l.phi:
            m = sub(t, scale(idiv(t, const(2)), 2))
            a, b = l.init, o.init
            if l.kind == "b":
                even = eq(m, ZERO)
                l.sol, o.sol = bor(band(even, a), band(bnot(even), b)), bor(band(even, b), band(bnot(even), a))
            else:
                l.sol, o.sol = add(a, mul(sub(b, a), m)), add(b, mul(sub(a, b), m))
            return True
    return False


def demote(self, l):
    l.kind = "x"
    make_phi(self, l, 0)
    return True


def solve_scalar(self, init, phi, nxt, t, U):
    a = single(phi)
    ta = single(t)
    if nxt is phi:
        return init
    if a not in nxt.fv:
        if nxt.fv & U:
            return None
        if ta not in nxt.fv and nxt is init:
            return init
        m1 = subst(nxt, {ta: const(-1)})
        prev = subst(nxt, {ta: sub(t, ONE)})
        if m1 is init:
            return prev
        return ite(le(t, ZERO), init, prev)
    d = sub(nxt, phi)
    if a not in d.fv and not (d.fv & U):
        if ta not in d.fv:
            return add(init, mul(d, t))
        s = fresh("s")
        return add(init, bsum(s, ZERO, sub(t, ONE), subst(d, {ta: s})))
    # product
    lin = split_lin(nxt, phi)
    if lin is not None and not lin[1].terms and not (lin[0].fv & U):
        q = lin[0]
        s = fresh("s")
        return mul(init, bprod(s, ZERO, sub(t, ONE), subst(q, {ta: s})))
    if is_single(nxt):
        n = single(nxt)
        if n.kind in ("min", "max") and phi in n.args:
            rest = [x for x in n.args if x is not phi]
            g = rest[0] if len(rest) == 1 else minmax(n.kind, rest)
            if not (g.fv & U):
                s = fresh("s")
                return minmax(n.kind, [init, over(n.kind + "over", s, ZERO, sub(t, ONE), subst(g, {ta: s}))])
        if n.kind == "ite":
            c, x, y = n.args
            if x is phi:
                c, x, y = bnot(c), y, x
            if y is phi and not (x.fv & U):
                g = x
                # min / max written as a conditional
                for kind, tests in (("min", (lt(g, phi), le(g, phi))), ("max", (lt(phi, g), le(phi, g)))):
                    if c in tests:
                        s = fresh("s")
                        return minmax(kind, [init, over(kind + "over", s, ZERO, sub(t, ONE), subst(g, {ta: s}))])
                if c.kind == "not":
                    for kind, tests in (("min", (lt(phi, g), le(phi, g))), ("max", (lt(g, phi), le(g, phi)))):
                        if c.args[0] in tests:
                            s = fresh("s")
                            return minmax(kind, [init, over(kind + "over", s, ZERO, sub(t, ONE), subst(g, {ta: s}))])
                if not (c.fv & U):
                    if c.kind == "eq":
                        s = split_lin(c.args[0], t)
                        if s is not None and cval(s[0]) in (1, -1):
                            K = scale(s[1], -cval(s[0]))
                            return ite(band(le(ZERO, K), lt(K, t)), subst(g, {ta: K}), init)
                    if ta not in c.fv and ta not in g.fv:
                        return ite(band(c, lt(ZERO, t)), g, init)
                    if c.kind == "le" and isint(c.args[0]):
                        s = split_lin(c.args[0], t)
                        if s is not None and cval(s[0]) == 1:
                            # t <= K: last index is min(t-1, K)
                            K = neg(s[1])
                            j = minmax("min", [sub(t, ONE), K])
                            return ite(band(le(ZERO, K), lt(ZERO, t)), subst(g, {ta: j}), init)
                        if s is not None and cval(s[0]) == -1:
                            K = s[1]  # t >= K
                            return ite(band(lt(K, t), lt(ZERO, t)), subst(g, {ta: sub(t, ONE)}), init)
    return None


def solve_bool(self, init, phi, nxt, t, U):
    a = phi.args[0]
    ta = single(t)
    if nxt is phi:
        return init
    if a not in nxt.fv:
        if nxt.fv & U:
            return None
        if ta not in nxt.fv and nxt is init:
            return init
        prev = subst(nxt, {ta: sub(t, ONE)})
        if subst(nxt, {ta: const(-1)}) is init:
            return prev
        return bite(le(t, ZERO), init, prev)
    for kind in ("or", "and"):
        if nxt.kind == kind and phi in nxt.args:
            rest = [x for x in nxt.args if x is not phi]
            X = bor(*rest) if kind == "or" else band(*rest)
            if not (X.fv & U) and a not in X.fv:
                s = fresh("s")
                Xs = subst(X, {ta: s})
                if kind == "or":
                    return bor(init, bexists(s, ZERO, t, Xs))
                return band(init, bforall(s, ZERO, t, Xs))
    return None


def writes_of(self, nxt, phi):
    if nxt is phi:
        return []
    if isinstance(nxt, AStore):
        w = self.writes_of(nxt.args[0], phi)
        return None if w is None else w + [mk(Write, (), TRUE, nxt.args[1], nxt.args[2])]
    if isinstance(nxt, ALoop):
        w = self.writes_of(nxt.args[0], phi)
        return None if w is None else w + list(nxt.args[1])
    if isinstance(nxt, AIte):
        c, x, y = nxt.args
        wx, wy = self.writes_of(x, phi), self.writes_of(y, phi)
        if wx is None or wy is None:
            return None
        p = 0
        while p < len(wx) and p < len(wy) and wx[p] is wy[p]:
            p += 1
        out = wx[:p]
        nc = bnot(c)
        out += [mk(Write, w.vars, band(c, w.guard), w.idx, w.val) for w in wx[p:]]
        out += [mk(Write, w.vars, band(nc, w.guard), w.idx, w.val) for w in wy[p:]]
        return out
    return None


def rename_write(w):
    """Fresh inner variables."""
    if not w.vars:
        return w
    m = {}
    vs = []
    for v, lo, hi in w.vars:
        f = fresh("v")
        vs.append((f, subst(lo, m) if m else lo, subst(hi, m) if m else hi))
        m[single(v)] = f
    return mk(Write, tuple(vs), subst(w.guard, m), subst(w.idx, m), subst(w.val, m))


def map_reads(self, x, phi, f, facts):
    """Rewrites every read phi[q] in x by f(q, facts); raises KeyError when f gives None."""
    memo = {}

    def val(v, fx):
        if isinstance(v, (Poly, B)):
            return term(v, fx)
        if isinstance(v, Vec):
            return vec([term(z, fx) for z in v.c], v.rows, v.cols)
        if isinstance(v, Struct):
            return mk(Struct, v.cls, tuple((n, val(z, fx)) for n, z in v.args[1]))
        if hasattr(v, "fv") and phi in v.fv:
            raise KeyError("array-valued read")
        return v

    def term(y, fx):
        if phi not in y.fv:
            return y
        key = (y.id, id(fx))
        if key in memo:
            return memo[key][1]
        r = term1(y, fx)
        memo[key] = (fx, r)
        return r

    def term1(y, fx):
        if isinstance(y, Poly):
            out = ZERO
            for m, c in y.terms:
                p = const(c)
                for a, e in m:
                    if phi in a.fv:
                        s = at(a, fx)
                        p = mul(p, power(s, e) if e > 0 else power(inv(s), -e))
                    else:
                        p = mul(p, T._mkpoly({((a, e),): Fraction(1)}))
                out = add(out, p)
            return out
        k = y.kind
        if k == "batom": return at(y.args[0], fx)
        if k == "not": return bnot(term(y.args[0], fx))
        if k == "and": return band(*[term(z, fx) for z in y.args])
        if k == "or": return bor(*[term(z, fx) for z in y.args])
        return {"lt": lt0, "le": le0, "eq": eq0}[k](term(y.args[0], fx))

    def at(a, fx):
        if a.kind == "sel" and a.args[0] is phi:
            if any(phi in q.fv for q in a.args[1]):
                raise KeyError("index depends on the array")
            r = f(a.args[1], fx)
            if r is None:
                raise KeyError("read")
            return component(r, a.args[2] or ())
        if a.kind in BINDERS:
            hi, body, d = a.args
            v = fresh("b")
            nb = open_(d, body, v)
            up = lt(v, hi) if a.kind in ("exists", "first") else le(v, hi)
            nb = term(nb, fx.extend([le(ZERO, v), up]))
            nh = term(hi, fx)
            return {"sum": lambda: bsum(v, ZERO, nh, nb), "exists": lambda: bexists(v, ZERO, nh, nb), "prod": lambda: bprod(v, ZERO, nh, nb),
                    "first": lambda: first(v, ZERO, nh, nb), "minover": lambda: over("minover", v, ZERO, nh, nb),
                    "maxover": lambda: over("maxover", v, ZERO, nh, nb)}[a.kind]()
        if a.kind == "ite":
            c = term(a.args[0], fx)
            d = fx.decide(c)
            if d is True: return term(a.args[1], fx)
            if d is False: return term(a.args[2], fx)
            return ite(c, term(a.args[1], fx.extend([c])), term(a.args[2], fx.extend([bnot(c)])))
        if a.kind == "sel":
            raise KeyError("nested")
        args = []
        for z in a.args:
            if isinstance(z, (Poly, B)):
                args.append(term(z, fx))
            elif hasattr(z, "fv") and phi in z.fv:
                raise KeyError("array argument")
            elif isinstance(z, tuple) and any(hasattr(q, "fv") and phi in q.fv for q in z):
                args.append(tuple(term(q, fx) if isinstance(q, (Poly, B)) else q for q in z))
            else:
                args.append(z)
        return T._rebuild(a, tuple(args), None)
    return val(x, facts)


def earlier(fam, t, s):
    """The writes of all iterations s < t."""
    out = []
    for w in fam:
        w2 = rename_write(w)
        m = {single(t): s}
        out.append(mk(Write, ((s, ZERO, sub(t, ONE)),) + tuple((v, subst(lo, m), subst(hi, m)) for v, lo, hi in w2.vars),
                      subst(w2.guard, m), subst(w2.idx, m), ZERO))
    return out


def untouched(early, phi, base):
    """q -> the initial element q, if no earlier write can have changed it."""
    # a guard that reads the array: any such write may have happened
    early = [mk(Write, w.vars, TRUE, w.idx, w.val) if phi in w.guard.fv else w for w in early]

    def unaffected(q, fx):
        for w in early:
            if any(phi in i.fv for i in w.idx):
                return None
            # only injective families can be inverted; use each index equation on its own when it cannot be
            r = invert(w, q, fx)
            if r is None:
                fs = []
                for v, lo, hi in w.vars:
                    fs += [le(lo, v), le(v, hi)]
                fs.append(w.guard)
                if fx.extend(fs).decide(idx_eq(w.idx, q)) is not False:
                    return None
                continue
            if fx.decide(r[0]) is False:
                continue
            fs = []
            for v, lo, hi in w.vars:
                fs += [le(lo, v), le(v, hi)]
            fs.append(w.guard)
            if fx.extend(fs).decide(idx_eq(w.idx, q)) is False:
                continue
            return None
        return base.get(q, fx)
    return unaffected


def old_reads(self, leaves, t, U, rec, st):
    """Scalars that read an array's elements before the loop writes them read the initial elements."""
    arrs = [l for l in leaves.values() if l.kind == "a" and l.sol is None and not l.dyn and l.next is not l.phi]
    scal = [l for l in leaves.values() if l.kind == "s" and l.sol is None and isinstance(l.next, Poly)]
    for la in arrs:
        rd = [l for l in scal if la.phi in l.next.fv]
        if not rd:
            continue
        ws = self.writes_of(la.next, la.phi)
        if ws is None or any((w.guard.fv | frozenset().union(*[i.fv for i in w.idx])) & U for w in ws):
            continue
        facts = st.facts.extend([le(ZERO, t), rec["c"]])
        f = untouched(earlier([rename_write(w) for w in ws], t, fresh("s")), la.phi, la.init)
        for l in rd:
            try:
                l.next = self.map_reads(l.next, la.phi, f, facts)
            except KeyError:
                pass


def solve_array(self, l, t, U, rec, st):
    phi, nxt, base = l.phi, l.next, l.init
    ta = single(t)
    others = U - {phi}
    if nxt is phi:
        return base
    if phi not in nxt.fv:
        if nxt.fv & U:
            return None
        if ta not in nxt.fv and nxt is base:
            return base
        return mk(AIte, le(t, ZERO), base, subst(nxt, {ta: sub(t, ONE)}))
    if nxt.fv & others:
        return None
    r = self.push_solve(phi, nxt, base, t, st)
    if r is not None:
        return r
    if isinstance(nxt, AIte) or isinstance(nxt, (AStore, ALoop)):
        ws = self.writes_of(nxt, phi)
        if ws is None:
            return None
        ws = [w if not w.vars else w for w in ws]
        facts = st.facts.extend([le(ZERO, t), rec["c"]])
        s = fresh("s")
        fam = []
        for w in ws:
            w = rename_write(w)
            fam.append(w)
        early = earlier(fam, t, s)
        same_idx = all(not (set().union(*[i.fv for i in w.idx]) & {ta}) and ta not in w.guard.fv and
                       not any(ta in lo.fv or ta in hi.fv for _, lo, hi in w.vars) for w in fam)
        reads = any(phi in w.val.fv or phi in w.guard.fv or any(phi in i.fv for i in w.idx) for w in fam)

        unaffected = untouched(early, phi, base)
        try:
            out = []
            for w in fam:
                fs = []
                for v, lo, hi in w.vars:
                    fs += [le(lo, v), le(v, hi)]
                fx = facts.extend(fs)
                g = self.map_reads(w.guard, phi, unaffected, fx) if phi in w.guard.fv else w.guard
                fx = fx.extend([g])
                if any(phi in i.fv for i in w.idx):
                    raise KeyError("index")
                v = self.map_reads(w.val, phi, unaffected, fx) if phi in w.val.fv else w.val
                out.append(mk(Write, w.vars, g, w.idx, v))
            if same_idx and not reads:
                m = {ta: sub(t, ONE)}
                ws2 = tuple(mk(Write, w.vars, w.guard, w.idx, subst(w.val, m)) for w in out)
                return mk(AIte, le(t, ZERO), base, mk(ALoop, base, ws2) if len(ws2) else base)
            if not same_idx or reads:
                m = {ta: s}
                ws2 = []
                for w in out:
                    ws2.append(mk(Write, ((s, ZERO, sub(t, ONE)),) + tuple((v, subst(lo, m), subst(hi, m)) for v, lo, hi in w.vars),
                                  subst(w.guard, m), subst(w.idx, m), subst(w.val, m)))
                # invertibility
                q = tuple(fresh("q") for _ in base.dims)
                if all(invert(w, q, facts) is not None for w in ws2):
                    return mk(ALoop, base, tuple(ws2))
        except KeyError:
            pass
        return self.elem_solve(l, fam, t, facts, base, phi)
    return None


def elem_solve(self, l, fam, t, facts, base, phi):
    """Accumulation: every write adds to the element it overwrites."""
    ta = single(t)
    q = tuple(fresh("q") for _ in base.dims)
    s = fresh("s")
    terms_ = []
    for w in fam:
        if phi in w.guard.fv or any(phi in i.fv for i in w.idx):
            return None
        own = phi.get(w.idx)
        if isinstance(w.val, Poly) and isinstance(own, Poly):
            f = sub(w.val, own)
        elif isinstance(w.val, Vec) and isinstance(own, Vec):
            f = vec([sub(a, b) for a, b in zip(w.val.c, own.c)], w.val.rows, w.val.cols)
        else:
            return None
        if phi in f.fv:
            return None
        m = {ta: s}
        w2 = mk(Write, tuple((v, subst(lo, m), subst(hi, m)) for v, lo, hi in w.vars), subst(w.guard, m), subst(w.idx, m), subst(f, m))
        r = invert(w2, q, facts)
        if r is None:
            return None
        c, sol = r
        terms_.append((c, subst(w2.val, sol)))
    b = base.get(q, facts)
    for c, f in terms_:
        if isinstance(f, Poly):
            b = add(b, bsum(s, ZERO, sub(t, ONE), ite(c, f, ZERO)))
        else:
            b = vec([add(x, bsum(s, ZERO, sub(t, ONE), ite(c, y, ZERO))) for x, y in zip(b.c, f.c)], b.rows, b.cols)
    return mk(ALam, base.dims, q, b, base.shape)


def push_solve(self, phi, nxt, base, t, st):
    ta = single(t)
    # a chain of insertions at the end
    vals = []
    x = nxt
    while isinstance(x, AInsert) and cval(x.args[2]) == 1:
        vals.append((x.args[1], x.args[3]))
        x = x.args[0]
    if x is phi and vals:
        vals.reverse()
        n = phi.dims[0]
        for i, (p, v) in enumerate(vals):
            if p is not add(n, const(i)) or (hasattr(v, "fv") and phi in v.fv):
                return None
        s = fresh("s")
        m = len(vals)
        if m == 1:
            el = subst(vals[0][1], {ta: s})
            lam = mk(ALam, (t,), (s,), el, base.shape)
        else:
            return None
        if cval(base.dims[0]) == 0:
            return lam
        return mk(AConcat, base, base.dims[0], lam)
    return None


def find_invariants(self, spec, leaves, head, fetch, st, fr, t):
    un = [l for l in leaves.values() if l.sol is None and l.kind in ("s", "i")]
    if not un or len(un) > 14:
        return []
    P = lambda l, v: v if l.kind == "s" else v.args[1]
    cands = []
    half = Fraction(1, 2)
    for l in un:
        p, i = P(l, l.phi), P(l, l.init)
        cs = [le(ZERO, p)]
        ci = cval(i)
        if ci is None:
            cs += [le(i, p), le(p, i)]
        else:
            cs += [le(const(ci), p), le(p, const(ci))]
        if not isint(p):
            cs += [le(p, ONE)]
        else:
            cs += [le(ONE, p)]
        cands += [(c, l) for c in cs]
    small = un if len(un) <= 6 else un[:6]
    for a in small:
        for b in small:
            if a is not b and isint(P(a, a.phi)) == isint(P(b, b.phi)):
                cands.append((le(P(a, a.phi), P(b, b.phi)), a))
    # bounds by dimensions of arrays that are in scope (indices)
    dims = {}
    for v in st.store.values():
        for d in dims_in(v):
            if cval(d) is None and len(d.terms) <= 2:
                dims[d.id] = d
    for l in un:
        p = P(l, l.phi)
        if isint(p):
            for d in list(dims.values())[:6]:
                cands.append((le(p, d), l))
                cands.append((lt(p, d), l))
    init = {}
    for l in un:
        init[single(P(l, l.phi))] = P(l, l.init)
    seen = set()
    cur = []
    for c, l in cands:
        if c.id in seen or c in (TRUE, FALSE):
            continue
        seen.add(c.id)
        x = subst(c, init)
        if not x.taint and st.facts.prove(x):
            cur.append(c)
    for _ in range(8):
        if not cur:
            return []
        rec = self.one_iter(spec, head(cur), fr)
        if rec["next"] is None:
            return cur
        fetch(rec)
        nx = {}
        ok = True
        for l in un:
            v = l.next
            if l.kind == "i" and not isinstance(v, Iter) or l.kind == "s" and not isinstance(v, Poly):
                ok = False
                break
            nx[single(P(l, l.phi))] = P(l, v)
        if not ok:
            return []
        keep = []
        for c in cur:
            x = subst(c, nx)
            try:
                if rec["next"].facts.prove(x):
                    keep.append(c)
            except RecursionError:
                pass
        if len(keep) == len(cur):
            return cur
        cur = keep
    return []


def dims_in(v, depth=0):
    if depth > 3:
        return
    if isinstance(v, Arr):
        for d in v.dims:
            yield d
    elif isinstance(v, Struct):
        for _, x in v.args[1]:
            yield from dims_in(x, depth + 1)
