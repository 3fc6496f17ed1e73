"""Getting at the resolved program of /repo: compile database, exporter, merged program."""
import hashlib, json, os, shlex, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    """The analysis itself could not run (error exit, never a verdict)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_exporter():
    r = sh(["bash", os.path.join(VERIF, "exporter", "build.sh"), BUILD])
    if r.returncode:
        raise AnalysisBroken("exporter does not build:\n" + r.stdout[-3000:])


def compile_commands(repo):
    """Configures the project's own CMake files in a scratch folder (nothing is built) and returns {source: flags}."""
    tmp = tempfile.mkdtemp(prefix="nvcdb.")
    try:
        env = {k: v for k, v in os.environ.items() if k not in ("CXX", "CC", "CXXFLAGS", "CFLAGS", "LDFLAGS")}
        r = sh(["cmake", "-S", repo, "-B", tmp, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-18",
                "-DCMAKE_CXX_FLAGS=-stdlib=libc++"], env=env)
        if r.returncode:
            raise AnalysisBroken("cmake configure failed:\n" + r.stdout[-3000:])
        db = json.load(open(os.path.join(tmp, "compile_commands.json")))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = {}
    for e in db:
        f = os.path.normpath(os.path.join(e["directory"], e["file"]))
        if not f.startswith(os.path.join(repo, "")):
            continue
        rel = os.path.relpath(f, repo)
        if rel.split("/")[0] in ("tests", "test", "benchmark", "benchmarks", "examples"):
            continue
        args = shlex.split(e["command"]) if "command" in e else e["arguments"]
        flags, i = [], 1
        while i < len(args):
            a = args[i]
            if a in ("-o", "-MF", "-MT", "-MQ"):
                i += 2
                continue
            if a in ("-c", "-MD", "-MMD") or a == e["file"] or a == f:
                i += 1
                continue
            flags.append(a)
            i += 1
        out[f] = flags
    if not out:
        raise AnalysisBroken("no translation units in the compile database")
    return out


def tree_hash(repo):
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(repo)):
        rel = os.path.relpath(base, repo)
        dirs[:] = sorted(d for d in dirs if d != ".git" and not d.startswith("_build") and not (rel == "." and d in ("build",)))
        for f in sorted(files):
            if f.endswith((".cpp", ".hpp", ".h", ".hh", ".cc", ".cxx", ".ipp", ".inl", ".txt", ".cmake", ".in")):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, repo).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    for f in ("exporter/nexport.cpp", "exporter/umbrella.cpp", "nv/frontend.py"):
        h.update(open(os.path.join(VERIF, f), "rb").read())
    return h.hexdigest()[:24]


def export(repo=None):
    """Returns the merged program as a dict."""
    repo = repo or REPO
    build_exporter()
    th = tree_hash(repo)
    cache = os.path.join(BUILD, "cache", th + ".json")
    if os.path.exists(cache):
        try:
            return json.load(open(cache))
        except Exception:
            pass
    cdb = compile_commands(repo)
    rd = sh(["clang-18", "-print-resource-dir"]).stdout.strip()
    units = [(f, fl) for f, fl in sorted(cdb.items())]
    incl = next(iter(cdb.values()))
    units.append((os.path.join(VERIF, "exporter", "umbrella.cpp"), incl))
    tmp = tempfile.mkdtemp(prefix="nvexp.")

    def one(iu):
        i, (f, fl) = iu
        out = os.path.join(tmp, "%d.json" % i)
        r = sh([os.path.join(BUILD, "nexport"), repo, out, f, "--"] + fl + ["-resource-dir", rd, "-w"])
        return f, r.returncode, r.stdout, out
    try:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(units)))
        prog = {"functions": {}, "records": {}, "globals": {}, "enums": {}, "declared": {}, "units": []}
        for i, (f, rc, log, out) in enumerate(res):
            if rc or not os.path.exists(out):
                raise AnalysisBroken("%s does not compile:\n%s" % (f, log[-2000:]))
            u = json.load(open(out))
            prog["units"].append(f)
            for fn in u["functions"]:
                fn["unit"] = i
                o = prog["functions"].setdefault(fn["key"], fn)
                dl = o.setdefault("deflocs", [])
                if fn["l"] not in dl:
                    dl.append(fn["l"])
            for r in u["records"]:
                prog["records"].setdefault(r["name"], r)
            for g in u["globals"]:
                prog["globals"].setdefault(g["qual"], g)
            for e in u["enums"]:
                prog["enums"].setdefault(e["qual"], e["values"])
            for d in u["declared"]:
                o = prog["declared"].setdefault(d["key"], d)
                o["hasbody"] = o["hasbody"] or d["hasbody"]
                o["inl"] = o["inl"] or d["inl"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.dirname(cache), exist_ok=True)
    for old in os.listdir(os.path.dirname(cache)):
        p = os.path.join(os.path.dirname(cache), old)
        if p != cache and len(os.listdir(os.path.dirname(cache))) > 6:
            try: os.unlink(p)
            except OSError: pass
    t = cache + ".%d" % os.getpid()
    json.dump(prog, open(t, "w"))
    os.replace(t, cache)
    return prog


if __name__ == "__main__":
    p = export()
    print(len(p["functions"]), "functions", len(p["records"]), "records", len(p["units"]), "units")
