"""Runs the AST exporter over every translation unit of the library and merges the dumps."""
import concurrent.futures, hashlib, json, os, subprocess, sys, tempfile

ROOT = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(ROOT, "src")
CACHE = os.path.join(HERE, "cache")
NPINC = "/opt/vp/venv/lib/python3.12/site-packages/numpy/core/include"


class AnalysisError(Exception):
    pass


def sources():
    out = []
    for d in (SRC, os.path.join(SRC, "include")):
        for f in sorted(os.listdir(d)):
            if f.endswith((".cpp", ".hpp", ".h", ".hh", ".cc", ".cxx", ".ipp", ".tpp")):
                out.append(os.path.join(d, f))
    return out


def units():
    tus = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith((".cpp", ".cc", ".cxx"))]
    tus.append(os.path.join(HERE, "tool", "instantiate.cpp"))
    return tus


def digest():
    h = hashlib.sha256()
    for f in sources() + [os.path.join(HERE, "tool", "instantiate.cpp"), os.path.join(HERE, "build", "astx")]:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:32]


def run_unit(tu, out):
    cmd = [os.path.join(HERE, "build", "astx"), "-root=" + SRC, "-out=" + out, tu, "--", "-std=c++17", "-w", "-DNDEBUG",
           "-I" + os.path.join(SRC, "include"), "-I" + SRC, "-isystem", NPINC, "-isystem", "/usr/include/python3.12"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    errs = [l for l in p.stderr.splitlines() if ": error:" in l or "fatal error" in l]
    # numpy's import_array macro returns a pointer from a void function; g++ -fpermissive accepts it
    errs = [e for e in errs if "void function" not in e]
    if errs or not os.path.exists(out):
        raise AnalysisError("cannot analyse %s: %s" % (tu, (errs or [p.stderr[-300:]])[0]))
    with open(out) as f:
        return json.load(f)


def keep(path, prog):
    """store the merged program, dropping all but the latest ones"""
    os.makedirs(CACHE, exist_ok=True)
    old = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith("ast-") and f.endswith(".json")), key=os.path.getmtime)
    for f in old[:-16]:
        os.unlink(f)
    tmpf = path + ".%d.tmp" % os.getpid()
    with open(tmpf, "w") as f:
        json.dump(prog, f)
    os.replace(tmpf, path)


def load():
    """merged program: {"functions": {usr: fn}, "classes": {name: cls}, "vars": [...]}"""
    if not os.path.exists(os.path.join(HERE, "build", "astx")):
        subprocess.run(["bash", os.path.join(HERE, "tool", "build.sh")], check=True, stdout=subprocess.DEVNULL)
    key = digest()
    path = os.path.join(CACHE, "ast-%s.json" % key)
    if os.path.exists(path):
        try:
            with open(path) as f:
                return json.load(f)
        except Exception:
            pass
    tus = units()
    with tempfile.TemporaryDirectory(prefix="astx") as tmp:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            dumps = list(ex.map(lambda t: run_unit(t[1], os.path.join(tmp, "%d.json" % t[0])), enumerate(tus)))
    prog = {"functions": {}, "classes": {}, "vars": {}, "units": [os.path.relpath(t, ROOT) if t.startswith(ROOT) else os.path.basename(t) for t in tus]}
    for d in dumps:
        for f in d["functions"]:
            if "instantiate.cpp" in f["file"]:
                continue
            prog["functions"].setdefault(f["f"], f)
        for c in d["classes"]:
            prog["classes"].setdefault(c["q"], c)
        for v in d.get("vars", []):
            prog["vars"].setdefault(v.get("q", v.get("n")), v)
    try:
        keep(path, prog)
    except OSError:
        pass            # only a cache
    return prog


if __name__ == "__main__":
    p = load()
    print(len(p["functions"]), "functions", len(p["classes"]), "classes")
