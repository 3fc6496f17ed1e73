"""References into a container that outlive the container's growth (typestate over the syntax tree, in evaluation order)."""
import re

GROW = {"push_back", "emplace_back", "insert", "emplace", "assign", "resize", "append_range", "insert_range"}
ELEM = {"operator[]", "at", "front", "back", "begin", "end", "data", "rbegin", "rend", "cbegin", "cend"}


def plain(t):
    t = (t or "").strip()
    t = re.sub(r"^const\s+", "", t)
    t = re.sub(r"\s*(const\s*)?(&&|&)$", "", t)
    return t.strip()


def isvector(t):
    return plain(t).startswith("std::vector<")


def element(t):
    t = plain(t)
    return plain(t[len("std::vector<"):-1]) if t.startswith("std::vector<") else None


class Walk:
    def __init__(self, prog, f, report):
        self.prog, self.f, self.report = prog, f, report
        self.bind = {}       # reference variable -> path of the object it names
        self.refs = {}       # variable -> (container path, "param"/"local")
        self.dead = {}       # variable -> line of the growth
        self.room = set()    # containers with reserved room
        self.n = 0

    # ---- paths
    def path(self, x):
        k = x.get("k")
        if k == "this":
            return "this"
        if k == "ref":
            return self.bind.get(x.get("id")) or "v%s" % x.get("id")
        if k == "member":
            b = self.path(x["base"]) if x.get("base") else None
            return b and b + "." + x["name"]
        if k == "un" and x.get("op") == "*":
            return self.path(x["a"])
        if k in ("cast", "defarg"):
            return self.path(x["a"])
        if k == "call" and x.get("obj") and not x.get("args") and (x["callee"].get("rtype") or "").endswith("&"):
            b = self.path(x["obj"])
            return b and b + "." + x["callee"]["name"] + "()"
        return None

    def into(self, x):
        """Path of the vector an element of which x denotes."""
        k = x.get("k")
        if k == "member" and x.get("base"):
            return self.into(x["base"])
        if k == "un" and x.get("op") in ("*", "&"):
            return self.into(x["a"])
        if k == "cast":
            return self.into(x["a"])
        if k == "ref":
            r = self.refs.get(x.get("id"))
            return r and r[0]
        if k == "call" and x.get("obj"):
            nm = x["callee"].get("name")
            if nm in ELEM and isvector(x["obj"].get("t")):
                return self.path(x["obj"])
            if (x["callee"].get("rtype") or "").endswith("&"):
                return self.into(x["obj"])
        return None

    # ---- walk in evaluation order
    def go(self, x):
        if isinstance(x, list):
            for y in x:
                self.go(y)
            return
        if not isinstance(x, dict):
            return
        k = x.get("k")
        if k == "assert":
            return
        if k == "ref":
            v = x.get("id")
            if v in self.dead:
                self.report(self.f, x.get("l"), x.get("name"), self.refs[v], self.dead[v])
            return
        if k == "decl":
            for v in x["vars"]:
                self.go(v.get("init"))
                i = v.get("init")
                if isinstance(i, dict) and (v.get("ref") or (v.get("t") or "").endswith("*")):
                    p = self.into(i)
                    if p:
                        self.refs[v["id"]] = (p, "local")
                        self.dead.pop(v["id"], None)
                        self.n += 1
                    elif v.get("ref"):
                        q = self.path(i)
                        if q:
                            self.bind[v["id"]] = q
            return
        if k == "if" or k == "cond":
            self.go(x.get("c"))
            d0, r0 = dict(self.dead), set(self.room)
            self.go(x.get("a"))
            d1, r1 = self.dead, self.room
            if ends(x.get("a")):
                d1, r1 = d0, r0
            self.dead, self.room = dict(d0), set(r0)
            self.go(x.get("b"))
            if not ends(x.get("b")):
                self.dead = {**d1, **self.dead}
                self.room &= r1
            else:
                self.dead, self.room = d1, r1
            return
        if k in ("for", "while", "rangefor", "do"):
            self.go(x.get("init"))
            if k == "rangefor":
                self.go(x.get("range"))
                v = x["var"]
                p = self.path(x["range"]) if isinstance(x.get("range"), dict) and isvector(x["range"].get("t")) else None
                hidden = ("range", id(x))
                if p:
                    self.refs[hidden] = (p, "local")
                    if v.get("ref"):
                        self.refs[v["id"]] = (p, "local")
            for _ in range(2):
                self.go(x.get("c"))
                if k == "rangefor":
                    self.dead.pop(x["var"]["id"], None)
                    if hidden in self.dead:
                        self.report(self.f, x.get("l"), "the range of the loop", self.refs[hidden], self.dead.pop(hidden))
                self.go(x.get("body"))
                self.go(x.get("inc"))
            return
        if k == "assign":
            self.go(x.get("b"))
            self.go(x.get("a"))
            return
        if k == "lambda":
            return
        if k == "call" and x.get("obj") and isvector(x["obj"].get("t")) and not (x["callee"].get("const")):
            nm = x["callee"].get("name")
            self.go(x["obj"])
            self.go(x.get("args"))
            p = self.path(x["obj"])
            if p and nm == "reserve":
                self.room.add(p)
            if p and nm in GROW and p not in self.room:
                self.n += 1
                for v, (q, kind) in self.refs.items():
                    if q == p and (kind == "param" or nm != "resize"):
                        self.dead.setdefault(v, x.get("l"))
            return
        for key in ("obj", "base", "a", "b", "c", "args", "init", "body", "range", "inc", "vars"):
            if key in x:
                self.go(x[key])


def ends(s):
    if not isinstance(s, dict):
        return False
    if s.get("k") in ("return", "throw", "break", "continue"):
        return True
    return s.get("k") == "block" and any(ends(y) for y in s["body"])


def g_alias(ctx):
    """No reference to an element is used after its container grew; an argument of a public operation may be an element of the object itself."""
    prog = ctx.prog
    hits, total, funcs = {}, 0, 0

    def report(f, line, name, ref, grown):
        hits.setdefault((line, name), (f, ref, grown))

    for key, f in sorted(prog["functions"].items()):
        if not f.get("body"):
            continue
        funcs += 1
        w = Walk(prog, f, report)
        rec = prog["records"].get(f.get("cls") or "")
        if rec and f.get("access") == 0 and not f.get("static") and not f.get("lambda") and not f.get("const"):
            for p in f["params"]:
                if p.get("ref"):
                    for fl in rec["fields"]:
                        if element(fl["t"]) == plain(p["t"]):
                            w.refs[p["id"]] = ("this." + fl["name"], "param")
                            w.n += 1
        try:
            w.go(f["body"])
        except (KeyError, TypeError):
            ctx.add("open", "references into containers", f["l"], key)
            continue
        total += w.n
    ctx.nobl += total
    for (line, name), (f, ref, grown) in sorted(hits.items(), key=str):
        ctx.add("refuted", "no reference to an element is used after its container grew", line,
                "%s: %s may refer to an element of %s, which grew at %s" % (f["key"], name, ref[0], grown),
                "call %s with an element of the object itself as %s" % (f["name"], name) if ref[1] == "param" else None)
    if not hits:
        ctx.add("proved", "no reference to an element is used after its container grew", "src/ include/", "%d functions, %d references and growth sites" % (funcs, total))
