"""The compiled module as exported to, and as used by, the Python layer."""
import ast
import re

import terms as T
import arrays as A
import effects
import judge
from core import State
from terms import gapply, leaf
from world import n, p, t, y, yerr, vec, at, machine, part, prog, repo_py, spec
from models import q, MODELS
from steps import MODEL_CLASSES, d, par_obj
from filters import car1_world, carma_world
from structure import args_of
import pylayer
import pyfit
import pyselect
from pylayer import FILE, num
from world import STD

judge.FREE |= {"LogDensity", "LogPrior"}
WRAP = "src/boost_python_wrapper.cpp"


def split(t):
    """template arguments at the top level of a type"""
    i = t.find("<")
    out, depth, cur = [], 0, ""
    for c in t[i + 1:t.rfind(">")]:
        if c == "," and not depth:
            out.append(cur.strip())
            cur = ""
            continue
        depth += c in "<(" and 1 or c in ">)" and -1 or 0
        cur += c
    return out + [cur.strip()] if cur.strip() else out


class Exports:
    """names, constructors, methods and functions the module exports"""

    def __init__(self, pr):
        fs = [f for f in pr["functions"].values() if f["n"].startswith("init_module_") and f.get("s")]
        if not fs:
            raise judge.AnchorLost("module initialisation function")
        self.F = pr["functions"]
        self.classes, self.functions, self.where = {}, {}, "%s:%s %s" % (judge.rel(fs[0]["file"]), fs[0]["l"], fs[0]["q"])
        self.decls = {x["id"]: x.get("i") for f in fs for x in effects.walk(f["s"]) if "id" in x and "i" in x}
        for f in fs:
            for e in effects.walk(f["s"]):
                if e.get("k") == "ctor" and "boost::python::class_<" in (e.get("t") or "") and (e.get("a") or [{}])[0].get("k") == "str":
                    self.klass(e)
            for e in effects.walk(f["s"]):
                if e.get("k") == "mcall" and e.get("n") in ("def", "def_readwrite", "def_readonly", "add_property"):
                    c = self.owner(e.get("b"))
                    if c is not None:
                        self.member(c, e)
                elif e.get("k") == "call" and e.get("n") == "def":
                    self.free(e)
        if not self.classes or not self.functions:
            raise judge.AnchorLost("exports of the compiled module")

    def klass(self, e):
        args = split(e["t"][e["t"].index("class_<"):])
        name = e["a"][0]["v"]
        bases = [b for a in args[1:] if "bases<" in a for b in split(a[a.index("bases<"):]) if "void_" not in b]
        self.classes[name] = {"type": args[0], "bases": bases, "methods": {}, "fields": {}, "inits": [], "noinit": any(a.get("n") == "no_init" for a in effects.walk(e["a"])),
                              "vector": args[0].startswith("std::vector<"), "l": e.get("l")}
        for a in e["a"][1:]:
            self.init(self.classes[name], a)

    def owner(self, e):
        while isinstance(e, dict):
            if e.get("k") == "ctor" and (e.get("a") or [{}])[0].get("k") == "str":
                return self.classes.get(e["a"][0]["v"])
            if e.get("k") == "mcall":
                e = e.get("b")
            elif e.get("k") == "cast":
                e = e.get("e")
            elif e.get("k") == "ref":
                e = self.decls.get(e.get("id"))
            elif e.get("k") == "ctor" and e.get("a"):
                e = e["a"][0]
            else:
                return None
        return None

    def init(self, c, a):
        t = a.get("t") or ""
        for x in effects.walk(a):
            t = x.get("t") or ""
            i = t.find("boost::python::init<")
            if x.get("k") == "ctor" and i >= 0:
                must, may = [], []
                for s in split(t[i:]):
                    if "void_" in s or s.endswith("::na"):
                        continue
                    if "optional<" in s:
                        may += [z for z in split(s[s.index("optional<"):]) if "void_" not in z and not z.endswith("::na")]
                    else:
                        must.append(s)
                for k in range(len(may) + 1):
                    c["inits"].append(must + may[:k])
                return True
        return False

    @staticmethod
    def target(e):
        for x in effects.walk(e):
            if x.get("k") == "ref" and x.get("q"):
                return x
        return None

    def member(self, c, e):
        a = e.get("a") or []
        if a and a[0].get("k") == "str":
            x = self.target(a[1]) if len(a) > 1 else None
            if e["n"] == "def":
                c["methods"][a[0]["v"]] = x
            else:
                c["fields"][a[0]["v"]] = x
        elif a:
            self.init(c, a[0])

    def free(self, e):
        a = e.get("a") or []
        if len(a) < 2 or a[0].get("k") != "str":
            return
        x = self.target(a[1])
        f = self.F.get((x or {}).get("f"))
        if f is None and x is not None:
            f = next((g for g in self.F.values() if g["q"] == x["q"]), None)
        ar = None
        if f is not None:
            ar = {len(f["p"])}
            for z in a[2:]:
                t = (z.get("t") or "").split("<")[0].split("::")[0].strip()
                gens = [g for g in self.F.values() if g["q"].startswith(t + "::") and g["n"].startswith("func_")]
                ar |= {len(g["p"]) for g in gens}
        self.functions[a[0]["v"]] = (f, ar)

    # -- queries ----------------------------------------------------------
    def by_type(self, t):
        return next((c for c in self.classes.values() if c["type"] == t), None)

    def lookup(self, c, name, what="methods"):
        seen, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x is None or x["type"] in seen:
                continue
            seen.append(x["type"])
            if name in x[what]:
                return x[what][name]
            todo += [self.by_type(b) for b in x["bases"]]
        return None

    def returned(self, name):
        """class of the object a function returns"""
        f = self.functions[name][0]
        if f is None:
            return None
        t = f["t"].split("(")[0]
        return self.by_type((args_of(t, "shared_ptr") or [t.strip()])[0])


# -- exported names mean what they say --------------------------------------------------------------

def meaning(run, ex):
    pr = prog()
    sp = spec()
    names = {c["type"]: c for c in ex.classes.values()}
    for cls in ("CAR1", "CARp", "CARMA"):
        c = names.get(cls)
        if c is None:
            continue
        where = "%s:%s class %s" % (WRAP, c["l"], cls)
        th = vec("bindtheta", d)
        for name, inner in (("getLogDensity", "LogDensity"), ("getLogPrior", "LogPrior")):
            x = ex.lookup(c, name)
            if x is None:
                continue

            @run.part("%s.%s" % (cls, name), where)
            def _():
                m, st = machine(run), State()
                free(m, "LogDensity", "LogPrior")
                g = through(m, x, par_obj("par", cls), [th], st)
                run.eq("%s exported as %s.%s" % (inner, cls, name), lambda: (g, pyfit.call(inner, [th])), where, m)
        for name in ("getSamples", "GetLogLikes"):
            x = ex.lookup(c, name)
            if x is None:
                continue

            @run.part("%s.%s" % (cls, name), where)
            def _():
                m, st = machine(run), State()
                m.unroll = 6
                free(m, "LogDensity")
                par = par_obj("par", cls)
                m.call_method(par, "SetSampleSize", [T.const(2)], st)
                vs = [vec("bind%d." % k, d) for k in range(2)]
                for k in range(2):
                    m.call_method(par, "Save", [vs[k]], st)
                    m.call_method(par, "AddToSample", [T.const(k)], st)
                g = T.tog(through(m, x, par, [], st))
                for k in range(2):
                    if name == "getSamples":
                        run.eq("sample %d exported as %s.%s" % (k + 1, cls, name), lambda: (gapply(lambda z: T.sel(z, (T.const(k), ":")), g), vs[k]), where, m)
                    else:
                        run.eq("log-density %d exported as %s.%s" % (k + 1, cls, name), lambda: (gapply(lambda z: T.sel(z, T.const(k)), g), pyfit.call("LogDensity", [vs[k]])), where, m)
        x = ex.lookup(c, "SetMLE")
        if x is not None:
            same(run, "%s.SetMLE" % cls, x, cls, "SetMLE", where)

    for cls, world, fn in (("KalmanFilter1", car1_world, "car1_filter"), ("KalmanFilterp", carma_world, "carma_filter")):
        c = names.get(cls)
        if c is None:
            continue
        where = "%s:%s class %s" % (WRAP, c["l"], cls)

        @run.part("%s: moments" % cls, where)
        def _():
            w = world(run, STD)
            m, st, o = w[:3]
            ref = sp.call(fn, [t, y, yerr] + list(w[3:]), State()).v
            f = ex.lookup(c, "Filter")
            if f is None:
                raise T.Opaque("filter pass not exported")
            through(m, f, o, [], st)
            for name, k in (("GetMean", 1), ("GetVar", 2)):
                x = ex.lookup(c, name)
                if x is not None:
                    g = through(m, x, o, [], st)
                    which(run, "%s exported as %s.%s" % (("", "mean", "variance")[k], cls, name), g, ref[k], ref[3 - k], where, m)
        for name in ("Filter", "Predict", "Simulate"):
            x = ex.lookup(c, name)
            if x is not None:
                same(run, "%s.%s" % (cls, name), x, cls, name, where)

    for c in ex.classes.values():
        for name, x in sorted(c["fields"].items()):
            if name in ("first", "second") and c["type"].startswith("std::pair<"):
                run.holds("%s element of a pair exported under that name" % name, None if x is None else x["q"].endswith("::" + name), "%s:%s" % (WRAP, c["l"]), (x or {}).get("q"))


def which(run, name, g, want, other, where, m):
    """one of two values; a value that is neither is the filter's concern (C01, C02)"""
    k = len(run.obl)
    ok = run.eq(name, lambda: (g, want), where, m)
    if ok == "violated":
        del run.obl[k:]
        ok = run.eq(name, lambda: (g, other), where, m)
        del run.obl[k:]
        run.holds(name, False if ok == "discharged" else None, where, "is the other moment" if ok == "discharged" else "neither moment of the reference filter")


def free(m, *names):
    """model functions as arbitrary functions of the parameter vector"""
    for q_ in {f["q"] for f in prog()["functions"].values() if f["n"] in names and f.get("o")} | {m_ for c in prog()["classes"] for m_ in ["%s::%s" % (c, x) for x in names]}:
        nm = q_.rsplit("::", 1)[1]

        def h(m, this, args, st, node, nm=nm):
            v = m.argval(args[0], st) if not isinstance(args[0], T.G) else args[0]
            return gapply(lambda z: pyfit.call(nm, [z]), T.tog(v))
        m.stubs[q_] = h


def bound(m, x):
    f = prog()["functions"].get(x.get("f"))
    if f is not None and f.get("s"):
        return f
    fs = [g for g in prog()["functions"].values() if g["q"] == x["q"] and g.get("s")]
    if len(fs) != 1:
        raise T.Opaque("exported function %s" % x["q"])
    return fs[0]


def through(m, x, o, args, st):
    """call of an exported member on an object"""
    f = bound(m, x)
    if f.get("virt"):
        return m.call_method(o, f["n"], args, st)
    return m.invoke(f, o if isinstance(o, T.G) else leaf(o), [("val", leaf(v)) for v in args], st)


def same(run, what, x, cls, name, where):
    """the function exported is the one of that name, as the class has it"""
    pr = prog()
    todo, own = [cls], None
    while todo and own is None:
        c = todo.pop(0)
        k = pr["classes"].get(c)
        if k is None:
            continue
        own = next((mt for mt in k["methods"] if mt["n"] == name), None)
        owner = c
        todo += k["bases"]
    if own is None:
        return run.holds("%s exists" % what, None, where)
    last = x["q"].rsplit("::", 1)[1]
    if last == name:
        return run.holds("%s refers to the operation it names" % what, True, where, x["q"])
    # another name: an operation of the same class with a different name is a different operation unless it only forwards
    f = next((g for g in pr["functions"].values() if g["q"] == x["q"] and g.get("s")), None)
    forwards = f is not None and any(e.get("k") == "mcall" and e.get("n") == name for e in effects.walk(f["s"]))
    return run.holds("%s refers to the operation it names" % what, None if forwards or f is None or not f.get("o") else False, where, x["q"])


# -- what the Python layer uses ---------------------------------------------------------------------

VECTORS = (("vector<std::complex", "complex vector"), ("vector<double", "vector"), ("vector<std::vector", "table"))


def kind(tp):
    tp = tp or ""
    for k, v in VECTORS:
        if k in tp:
            return v
    base = effects.strip(tp)
    return {"double": "number", "float": "number", "int": "whole", "bool": "flag"}.get(base, "string" if "string" in base else "other")


def fits(m, g, tp):
    """whether a value can be handed to a parameter of the type; None when not known"""
    k = kind(tp)
    res = True
    for v in T.tog(g).leaves():
        if v is None:
            return False
        if isinstance(v, bool):
            ok = k in ("flag", "whole", "number")
        elif isinstance(v, str):
            ok = k == "string"
        else:
            try:
                x = m.num(v)
            except T.Opaque:
                res = None
                continue
            if not isinstance(x, T.R):
                res = None
                continue
            if k in ("vector", "complex vector", "table"):
                ok = not x.scalar and (x.real or k != "vector" or None)
            elif k in ("number", "whole", "flag"):
                ok = x.scalar and (k == "number" or x.isint or None)
            else:
                ok = None
        if ok is False:
            return False
        if ok is None:
            res = None
    return res


class Uses:
    """calls into the compiled module met while the Python layer is interpreted"""

    def __init__(self, run, ex):
        self.run, self.ex, self.seen, self.default = run, ex, set(), None

    def watch(self, m, default=None):
        inner = m.ext_method
        self.default = default

        def method(x, name, vs, kwargs, st):
            self.method(m, x, name, vs, kwargs)
            return inner(x, name, vs, kwargs, st)
        m.ext_method = method
        for name in list(self.ex.classes) + list(self.ex.functions):
            h = m.stubs.get(name)
            if h is not None:
                def go(m, a, k, st, h=h, name=name):
                    self.call(m, name, a, k)
                    return h(m, a, k, st)
                m.stubs[name] = go
        return m

    def report(self, what, ok, detail=""):
        key = (what, ok)
        if key in self.seen:
            return
        self.seen.add(key)
        self.run.holds(what, ok, FILE + "calls into the compiled module", detail)

    def call(self, m, name, a, k):
        ex = self.ex
        if name in ex.functions:
            f, ar = ex.functions[name]
            if f is None:
                return self.report("%s called" % name, None)
            self.report("%s is exported for %d arguments" % (name, len(a)), len(a) in ar and not k, "exported for %s" % sorted(ar))
            types = [x["t"] for x in f["p"]]
            self.kinds(m, name, a, types)
        elif name in ex.classes and not ex.classes[name]["vector"]:
            c = ex.classes[name]
            ts = [i for i in c["inits"] if len(i) == len(a)]
            self.report("%s can be built from %d arguments" % (name, len(a)), bool(ts) and not k, "constructors take %s" % sorted({len(i) for i in c["inits"]}))
            if ts:
                self.kinds(m, name, a, ts[0])

    def kinds(self, m, name, a, types):
        for i, (v, tp) in enumerate(zip(a, types)):
            self.report("argument %d of %s is a %s" % (i + 1, name, kind(tp)), fits(m, v, tp), tp)

    def method(self, m, x, name, vs, kwargs):
        ex = self.ex
        s = x.single()
        c = None
        if s is not None and s.op == "call" and s.args[0] in ex.classes:
            c = ex.classes[s.args[0]]
        elif s is not None and s.op == "call" and s.args[0] == "short run":
            c = ex.returned("run_mcmc_carma" if s.args[1][0].const() == 1 else "run_mcmc_car1")
        elif x is pylayer.sampler:
            c = ex.returned(self.default) if self.default in ex.functions else None
        if c is None:
            return
        b = ex.lookup(c, name)
        self.report("%s of %s is exported" % (name, c["type"]), b is not None)
        if b is None:
            return
        f = prog()["functions"].get(b.get("f")) or next((g for g in prog()["functions"].values() if g["q"] == b["q"]), None)
        if f is None:
            return
        need = [z for z in f["p"] if not z.get("def")]
        # default arguments are not known to callers of a member exported without overloads
        self.report("%s of %s takes %d arguments" % (name, c["type"], len(vs)), len(vs) == len(f["p"]) and not kwargs, "takes %d" % len(f["p"]))
        self.kinds(m, "%s of %s" % (name, c["type"]), vs, [z["t"] for z in f["p"]])


def attributes(run, ex):
    """every name the Python layer takes from the compiled module"""
    from access import layer
    found = 0
    for mod, tree in layer().items():
        names = {a.asname or a.name for x in ast.walk(tree) if isinstance(x, ast.ImportFrom) for a in x.names if a.name == "_carmcmc"}
        for x in ast.walk(tree):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in names:
                found += 1
                run.holds("%s is exported" % x.attr, x.attr in ex.classes or x.attr in ex.functions, "src/carmcmc/%s.py:%d" % (mod, x.lineno))
    if not found:
        raise judge.AnchorLost("uses of the compiled module in the Python layer")


def scenarios(run, ex):
    u = Uses(run, ex)
    tau, times = T.sym("predtime"), vec("bindtimes", T.sym("nbind", isint=True, nonneg=True))
    vals = {"CarmaSample": dict(sigma=pyfit.sigmas, mu=pyfit.mus, logpost=pyfit.posts, ar_roots=pyfit.rootss, ma_coefs=pyfit.mas),
            "Car1Sample": dict(sigma=pyfit.sigmas, mu=pyfit.mus, logpost=pyfit.posts, log_omega=pyfit.omegas)}
    for cls, fn in (("CarmaSample", "run_mcmc_carma"), ("Car1Sample", "run_mcmc_car1")):
        @run.part("%s: construction" % cls, FILE + cls)
        def _():
            m, st = repo_py(run), State()
            trace = pylayer.table("trace" if cls == "CarmaSample" else "trace1", p + q + T.const(3) if cls == "CarmaSample" else T.const(4))
            pylayer.library(m, trace)
            u.watch(m, fn)
            m.new(cls, [t, y, yerr, pylayer.sampler] + ([q] if cls == "CarmaSample" else []), st)
        for act, args in (("predict", [tau]), ("simulate", [times]), ("assess_fit", [])):
            @run.part("%s.%s" % (cls, act), FILE + cls)
            def _():
                st = State()
                m, o, _th = (pylayer.carma_sample if cls == "CarmaSample" else pylayer.car1_sample)(run, st)
                pylayer.replace(m, o, st, **vals[cls])
                pyfit.compiled(m)
                u.watch(m, fn)
                m.call_method(o, act, args, st)
    for po, qo in ((1, 0), (2, 1)):
        @run.part("fit of order (%d, %d)" % (po, qo), FILE + "_get_mle_single")
        def _():
            fs, st = pyselect.Fits(run), State()
            u.watch(fs.m)
            o = fs.model(st)
            fs.m.call_method(o, "get_mle", [T.const(po), T.const(qo)], st, {"ntrials": T.ONE})
            for f in fs.calls:
                pyselect.objective(fs.m, f, po, qo)
    if not u.seen:
        raise judge.AnchorLost("calls into the compiled module")


ROLES = {"sample_size": "nsamples", "nsamples": "nsamples", "burnin": "nburnin", "nburnin": "nburnin", "time": "time", "y": "y", "yerr": "ysig", "p": "p", "q": "q", "nwalkers": "ntemperatures",
         "do_zcarma": "zcarma", "thin": "nthin", "init": "init"}
ORDER = {"run_mcmc_car1": ["nsamples", "nburnin", "time", "y", "ysig", "nthin", "init"],
         "run_mcmc_carma": ["nsamples", "nburnin", "time", "y", "ysig", "p", "q", "ntemperatures", "zcarma", "nthin", "init"]}


def roles(run, ex):
    """each setting of a run reaches the compiled parameter it belongs to"""
    for what, po, kw in (("first order", 1, True), ("second order", 2, True), ("third order", 3, True), ("first order, defaults", 1, False), ("third order, defaults", 3, False)):
        name = "run_mcmc_car1" if po == 1 else "run_mcmc_carma"
        qo = po - 1
        where = FILE + "CarmaModel.run_mcmc"

        @run.part("run of the %s" % what, where)
        def _():
            m, st = repo_py(run), State()
            got = []

            def capture(nm):
                def go(m, a, k, st):
                    got.append((nm, a, k))
                    return leaf(pylayer.sampler)
                return go
            for nm in ex.functions:
                m.stubs[nm] = capture(nm)
            built = []
            for c in ("CarmaSample", "Car1Sample"):
                m.stubs[c] = None
            o = m.new("CarmaModel", [t, y, yerr, T.const(po), T.const(qo)], st)
            ns, nb, nt, th = [T.sym("run." + z, isint=True, nonneg=True) for z in ("samples", "burnin", "temperatures", "thin")]
            ini = vec("run.init", T.sym("n.init", isint=True, nonneg=True))
            for c in ("CarmaSample", "Car1Sample"):
                m.stubs.pop(c)
            real = m.construct

            def construct(cls, args, kwargs, st):
                if cls in ("CarmaSample", "Car1Sample"):
                    built.append((cls, [a[0] for a in args], {k: v[0] for k, v in kwargs.items()}))
                    return leaf(T.sym("sample object"))
                return real(cls, args, kwargs, st)
            m.construct = construct
            m.call_method(o, "run_mcmc", [ns], st, {"nburnin": nb, "ntemperatures": nt, "nthin": th, "init": ini} if kw else {})
            if len(got) != 1:
                raise T.Opaque("%d runs" % len(got))
            nm, a, k = got[0]
            run.holds("compiled sampler of the %s" % what, nm == name, where, nm)
            want = {"nsamples": ns, "nburnin": nb if kw else T.idiv(ns, T.const(2)), "time": t, "y": y, "ysig": yerr, "p": T.const(po), "q": T.const(qo),
                    "ntemperatures": nt if kw else T.const(max(10, po + qo)), "zcarma": T.ZERO, "nthin": th if kw else T.ONE, "init": ini if kw else None}
            f, ar = ex.functions[nm]
            names = [ROLES.get(x["n"]) for x in f["p"]]
            if None in names or len(set(names)) != len(names):
                names = ORDER[nm]
            for i, v in enumerate(a):
                if names[i] == "init" and not kw:
                    run.eq("no starting value by default, %s" % what, lambda: (gapply(lambda z: A.n_elem(m.num(z)), v), T.ZERO), where, m)
                    continue
                run.eq("%s reaches the compiled sampler, %s" % (names[i], what), lambda: (gapply(lambda z: T.const(int(z)) if isinstance(z, bool) else A.canon(m.num(z)), v), A.canon(want[names[i]])), where, m)
            missing = [names[i] for i in range(len(a), len(names))]
            run.holds("every setting is handed on, %s" % what, not [z for z in missing if z != "zcarma"] or None, where, missing)
            run.holds("one sample object, %s" % what, len(built) == 1 and built[0][0] == ("Car1Sample" if po == 1 else "CarmaSample"), where, [b[0] for b in built])
            if len(built) == 1:
                c, a, k = built[0]
                args = dict(zip(["time", "y", "ysig", "sampler", "q"], a))
                args.update(k)
                fa = m.lookup_method(c, "__init__").node.args
                for z, v in zip(reversed(fa.args), reversed(fa.defaults)):
                    if z.arg not in args and isinstance(v, ast.Constant) and isinstance(v.value, int):
                        args[z.arg] = leaf(T.const(v.value))
                for z, v in (("time", t), ("y", y), ("ysig", yerr), ("sampler", pylayer.sampler)) + ((("q", T.const(qo)),) if po > 1 else ()):
                    if z in args:
                        run.eq("%s kept with the samples, %s" % (z, what), lambda: (gapply(lambda w: A.canon(m.num(w)), args[z]), A.canon(v)), where, m)


def vectors(run):
    @run.part("vectors handed across", FILE + "arrayToVec")
    def _():
        m, st = repo_py(run), State()
        k = T.sym("nvec", isint=True, nonneg=True)
        for real in (True, False):
            x = vec("across%d." % real, k, real)
            for how in ([x],) + (([x, ("mod", "carma_pack.carmcmcLib.vecC")],) if False else ()):
                g = m.call("arrayToVec", how, st, mod="carma_pack")
                run.eq("vector of %s numbers keeps its elements and their order" % ("real" if real else "complex"), lambda: (gapply(lambda z: A.canon(m.num(z)), g), A.canon(x)), FILE + "arrayToVec", m)


def c23(run):
    run.rule("exported member or function computes the operation its name says (value-number congruence with the model, filter or record)",
             "every name, arity and argument kind used by the Python layer is exported (queries over the export table; calls met by abstract interpretation of the Python layer)",
             "settings of a run reach the compiled parameter of the same role (value-number congruence)")
    run.assume("the binding library converts vectors element by element", "parameters of the compiled entry points keep their roles under their names, else by position")
    ex = Exports(prog())
    run.extra["exported classes"] = len(ex.classes)
    run.extra["exported functions"] = len(ex.functions)
    run.extra["exported methods"] = sum(len(c["methods"]) for c in ex.classes.values())
    attributes(run, ex)
    meaning(run, ex)
    scenarios(run, ex)
    roles(run, ex)
    vectors(run)
