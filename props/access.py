"""What accessors of recorded samples return."""
import ast
import os

import terms as T
import arrays as A
import alias
import dump
import effects
import judge
from core import State
from terms import gapply
from world import n, p, vec, at, machine, part, prog, repo_py
from models import q
from steps import MODEL_CLASSES, d, densities, density, par_obj, unknown_density
from pylayer import FILE, N, carma_sample, car1_sample, shape_of

SAMPLES = "src/carmcmc/samplers.py "


def compiled(run):
    for cls in sorted(MODEL_CLASSES):
        for count, order in ((1, [0]), (3, [0, 1, 2]), (3, [2, 0, 1])):
            what = "%s, %d samples recorded %s" % (cls, count, "in order" if order == sorted(order) else "at positions %s" % order)

            @run.part(what, at(cls, "getSamples"))
            def _():
                m, st = machine(run), State()
                m.unroll = 8
                unknown_density(m, [], *densities(), shared="posterior")
                par = par_obj("par", cls)
                m.call_method(par, "SetSampleSize", [T.const(count)], st)
                vs = [vec("rec%d." % k, d) for k in range(count)]
                for k in order:
                    m.call_method(par, "Save", [vs[k]], st)
                    m.call_method(par, "AddToSample", [T.const(k)], st)
                for again in ("", " (asked again)"):
                    for acc in ("getSamples", "GetSamples"):
                        g = T.tog(m.call_method(par, acc, [], st))
                        run.eq("%s: %s has one row per sample%s" % (what, acc, again), lambda: (gapply(A.n_elem, g), T.const(count)), at(cls, acc), m)
                        for k, v in enumerate(vs):
                            run.eq("%s: row %d of %s%s" % (what, k + 1, acc, again), lambda: (gapply(lambda x: T.sel(x, (T.const(k), ":")), g), v), at(cls, acc), m)
                    g = T.tog(m.call_method(par, "GetLogLikes", [], st))
                    run.eq("%s: one log-density per sample%s" % (what, again), lambda: (gapply(A.n_elem, g), T.const(count)), at(cls, "GetLogLikes"), m)
                    for k, v in enumerate(vs):
                        run.eq("%s: log-density %d%s" % (what, k + 1, again), lambda: (gapply(lambda x: T.sel(x, T.const(k)), g), density("posterior", v)), at(cls, "GetLogLikes"), m)


def owned(run):
    """compiled accessors return values, not references into the object"""
    pr = prog()
    e = effects.Effects(pr)
    found = 0
    for f in sorted(pr["functions"].values(), key=lambda f: f["q"]):
        if f.get("o") and f["n"] in ("getSamples", "GetSamples", "GetLogLikes") and f.get("s"):
            found += 1
            here = "%s:%s %s" % (judge.rel(f["file"]), f["l"], f["q"])
            t = (f.get("t") or "").split("(")[0].strip()
            run.holds("%s returns a value" % f["q"], not (t.endswith("&") or t.endswith("*")), here, t)
    if not found:
        raise judge.AnchorLost("compiled accessors")


SCALARS = ["var", "measerr_scale", "mu", "sigma", "logpost", "loglik"]


def shapes(run):
    for what, make, cols in (("general model", carma_sample, [(k, T.ONE) for k in SCALARS] + [("quad_coefs", p), ("ar_roots", p), ("psd_width", p), ("psd_centroid", p),
                                                                                           ("ar_coefs", p + T.ONE), ("ma_coefs", q + T.ONE)]),
                             ("first-order model", car1_sample, [(k, T.ONE) for k in SCALARS + ["log_omega"]])):
        @run.part(what, SAMPLES + "MCMCSample")
        def _():
            st = State()
            m, o, _th = make(run, st)
            held = None
            for name, width in cols:
                v = m.call_method(o, "get_samples", [name], st)
                run.eq("%s: %s is a table" % (what, name), lambda: (gapply(lambda x: T.const(0 if x.scalar else 2 if (A.dims(x) or ("",))[0] == "mat" else 1), v), T.const(2)),
                       SAMPLES + "MCMCSample.newaxis", m)
                run.eq("%s: rows of %s" % (what, name), lambda: (gapply(A.nrows, v), N), SAMPLES + "MCMCSample.get_samples", m)
                run.eq("%s: columns of %s" % (what, name), lambda: (gapply(A.ncols, v), width), SAMPLES + "MCMCSample.get_samples", m)


def layer():
    d_ = os.path.join(dump.ROOT, "src", "carmcmc")
    mods = {}
    for f in sorted(os.listdir(d_)):
        if f.endswith(".py") and f != "__init__.py":
            with open(os.path.join(d_, f)) as fh:
                mods[f[:-3]] = ast.parse(fh.read(), f)
    return mods


def building(a, c):
    """methods that construction runs"""
    seen, todo = set(), ["__init__"]
    while todo:
        x = todo.pop()
        m = a.method(c, x)
        if x in seen or not m:
            continue
        seen.add(x)
        todo += [e.func.attr for e in ast.walk(m[1]) if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, (ast.Name, ast.Call))]
        for b in a.bases(c):
            todo += [e.func.attr for y in a.classes[b].body if isinstance(y, ast.FunctionDef) and y.name == x for e in ast.walk(y) if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute)]
    return seen


def independent(run):
    a = alias.Alias(layer())
    classes = [c for c in a.classes if a.method(c, "get_samples")]
    if not classes:
        raise judge.AnchorLost("sample accessor of the Python layer")
    for c in sorted(classes):
        own, fn = a.method(c, "get_samples")
        where = "src/carmcmc: %s.get_samples, line %d" % (own, fn.lineno)
        v = a.returns(fn, c, [alias.EMPTY] * len(fn.args.args))
        run.holds("%s: samples returned do not share memory with the stored ones" % c, False if v & {"S", "D"} else None if v else True, where,
                  "may share memory with the object's state" if v & {"S", "D"} else "ownership not known" if v else "")
    a.effects.clear()
    for c in sorted(classes):
        names = {x.name for b in a.bases(c) for x in a.classes[b].body if isinstance(x, ast.FunctionDef)}
        for nm in sorted(names - building(a, c)):
            own, fn = a.method(c, nm)
            before = len(a.effects)
            a.returns(fn, c, [alias.EMPTY] * len(fn.args.args))
            bad = [x for x in a.effects[before:]]
            run.holds("%s.%s leaves stored samples as they are" % (c, nm), not bad, "src/carmcmc: %s.%s, line %d" % (own, nm, fn.lineno), "; ".join("%s line %d: %s" % x for x in bad[:3]))
    run.extra["python functions followed"] = a.count


def c24(run):
    run.rule("rows and log-densities returned equal the recorded ones, in order (value-number congruence)", "compiled accessors return by value",
             "the array returned by the Python accessor shares no memory with the object (ownership dataflow)", "no method changes stored arrays in place (ownership dataflow)",
             "every stored quantity has two dimensions, one row per sample (shape analysis)")
    run.assume("the log-density is an arbitrary function of the parameter vector", "numpy functions copy or share memory as documented", "1 and 3 recorded samples, recorded in two orders")
    compiled(run)
    owned(run)
    shapes(run)
    independent(run)
