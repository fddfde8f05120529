"""The Python layer: derived quantities, spectra, model selection, simulation, prediction, summaries."""
import ast

import terms as T
import arrays as A
import interp
import judge
from core import State, Obj, UNDEF
from terms import leaf, ra, atom
from world import n, p, t, y, yerr, vec, repo_py, spec
from models import q

FILE = "src/carmcmc/carma_pack.py "
N = T.sym("nsamples", isint=True, nonneg=True)
T.LOWER[N.single()] = 1
row = T.sym("sample", isint=True, nonneg=True)
interp.SAMPLER[row.single()] = lambda m, r: r.randrange(interp.toint(m.ev(N, {})))
logpost = vec("logposts", N)
sampler = T.sym("sampler")


def table(name, cols):
    x = T.sym(name, scalar=False)
    A.SHAPES[x.single()] = (N, cols)
    return x


def rowvec(x, i, cols):
    j = A.idx_sym(cols)
    return T.arr(j, cols, T.sel(x, (i, ra(j))))


def density(theta, ignoring):
    return ra(atom("call", "logdensity", (A.canon(theta), ignoring), real=True, scalar=True))


def prior(theta):
    return ra(atom("call", "logprior", (A.canon(theta),), real=True, scalar=True))


def bounds_flag(m, st, x):
    """whether the compiled model currently ignores its prior bounds"""
    v = T.ungate(m.read(st, ("xs", x)))
    return v if isinstance(v, T.R) else T.const(int(bool(v)))


def num(m, v):
    return T.ungate(T.gapply(m.num, v))


def library(m, trace):
    """the compiled sampler object as the Python layer sees it"""
    m.ext["GetLogLikes"] = lambda m, x, a, k, st: leaf(logpost)
    m.ext["getSamples"] = lambda m, x, a, k, st: leaf(trace)

    def setmle(m, x, a, k, st):
        st[("xs", x)] = leaf(T.ungate(T.gapply(lambda v: T.const(int(v)) if isinstance(v, bool) else v, a[0])))
        return leaf(None)
    m.ext["SetMLE"] = setmle
    m.ext["getLogDensity"] = lambda m, x, a, k, st: leaf(density(num(m, a[0]), bounds_flag(m, st, x)))
    m.ext["getLogPrior"] = lambda m, x, a, k, st: leaf(prior(num(m, a[0])))


def carma_sample(run, st):
    m = repo_py(run)
    trace = table("trace", p + q + T.const(3))
    library(m, trace)
    o = m.new("CarmaSample", [t, y, yerr, sampler, q], st)
    return m, o, rowvec(trace, row, p + q + T.const(3))


def car1_sample(run, st):
    m = repo_py(run)
    trace = table("trace1", T.const(4))
    library(m, trace)
    o = m.new("Car1Sample", [t, y, yerr, sampler], st)
    return m, o, rowvec(trace, row, T.const(4))


def stored(m, o, name, st):
    return m.call_method(o, "get_samples", [name], st)


def shape_of(g):
    return T.gapply(lambda x: ("tup",) + tuple((A.dims(x) or ("",) * 3)[1:] if not x.scalar else ()), g)


def one(x):
    return A.explicit([x])


def columns(run, what, m, st, o, expected):
    """each stored quantity: its row for an arbitrary sample, and its shape"""
    for name, ref, width, where in expected:
        @run.part("%s: %s" % (what, name), FILE + where)
        def _():
            v = stored(m, o, name, st)
            run.eq("%s: %s of every sample" % (what, name), lambda: (T.gapply(lambda x: rowvec(x, row, A.ncols(x)), v), ref()), FILE + where, m)
            run.eq("%s: %s has one row per sample" % (what, name), lambda: (T.gapply(A.nrows, v), N), FILE + where, m)
            run.eq("%s: %s has one column per element" % (what, name), lambda: (T.gapply(A.ncols, v), width), FILE + where, m)


def mle(theta, st):
    o = Obj("fit", None)
    st[("f", o, "x")] = leaf(theta)
    st[("f", o, "fun")] = leaf(T.sym("fitfun"))
    return o


def c18(run):
    run.rule("value stored under each name, for an arbitrary sample, equals the compiled model's quantity for that sample's parameter vector")
    run.assume("numpy arrays and dictionaries behave as modelled", "the compiled sampler returns its samples and log-densities")
    sp = spec()
    S = lambda f, *a: sp.call(f, list(a), State(), mod="derived")
    st = State()

    integers(run, repo_py(run), *["CarmaSample." + x for x in ("__init__", "add_mle", "generate_from_trace", "_ar_roots", "_ma_coefs", "_ar_coefs", "_sigma_noise")],
             "carma_variance", "Car1Sample.__init__", "Car1Sample.generate_from_trace", "Car1Sample._sigma_noise")

    @run.part("general model", FILE + "CarmaSample.__init__")
    def _():
        m, o, th = carma_sample(run, st)
        C = "CarmaSample."
        columns(run, "general model", m, st, o, [
            ("var", lambda: one(T.sel(th, T.ZERO) ** 2), T.ONE, C + "generate_from_trace"),
            ("measerr_scale", lambda: one(T.sel(th, T.ONE)), T.ONE, C + "generate_from_trace"),
            ("mu", lambda: one(T.sel(th, T.const(2))), T.ONE, C + "generate_from_trace"),
            ("quad_coefs", lambda: S("quad", th, p), p, C + "generate_from_trace"),
            ("ar_roots", lambda: S("roots", th, p), p, C + "_ar_roots"),
            ("psd_width", lambda: S("width", th, p), p, C + "_ar_roots"),
            ("psd_centroid", lambda: S("centroid", th, p), p, C + "_ar_roots"),
            ("ar_coefs", lambda: S("ar_coefs", th, p), p + T.ONE, C + "_ar_coefs"),
            ("ma_coefs", lambda: S("ma_coefs", th, p, q), q + T.ONE, C + "_ma_coefs"),
            ("sigma", lambda: T.gapply(one, S("sigma", th, p, q)), T.ONE, C + "_sigma_noise"),
            ("logpost", lambda: one(T.sel(logpost, row)), T.ONE, C + "set_logpost"),
            ("loglik", lambda: one(density(th, T.ONE)), T.ONE, C + "__init__"),
        ])
        run.eq("general model: order of the autoregression", lambda: (m.field(o, "p", st), p), FILE + C + "generate_from_trace", m)
        fit = vec("fitted", p + q + T.const(3))

        @run.part("maximum-likelihood summary", FILE + C + "add_mle")
        def _():
            m.call_method(o, "add_mle", [mle(fit, st)], st)
            d = m.field(o, "mle", st).v
            for name, ref in (("loglik", lambda: -T.sym("fitfun")), ("var", lambda: T.sel(fit, T.ZERO) ** 2), ("measerr_scale", lambda: T.sel(fit, T.ONE)),
                              ("mu", lambda: T.sel(fit, T.const(2))), ("ar_roots", lambda: S("roots", fit, p)), ("psd_width", lambda: S("width", fit, p)),
                              ("psd_cent", lambda: S("centroid", fit, p)), ("ar_coefs", lambda: S("ar_coefs", fit, p)),
                              ("ma_coefs", lambda: S("ma_coefs", fit, p, q)), ("sigma", lambda: S("sigma", fit, p, q))):
                run.eq("maximum-likelihood summary: " + name, lambda: (T.gapply(lambda x: one(x) if name == "ma_coefs" and x.scalar else x, m.read(st, ("d", d, name))), ref()),
                       FILE + C + "add_mle", m)

    @run.part("first-order model", FILE + "Car1Sample.__init__")
    def _():
        st = State()
        m, o, th = car1_sample(run, st)
        C = "Car1Sample."
        columns(run, "first-order model", m, st, o, [
            ("var", lambda: one(T.sel(th, T.ZERO) ** 2), T.ONE, C + "generate_from_trace"),
            ("measerr_scale", lambda: one(T.sel(th, T.ONE)), T.ONE, C + "generate_from_trace"),
            ("mu", lambda: one(T.sel(th, T.const(2))), T.ONE, C + "generate_from_trace"),
            ("log_omega", lambda: one(T.sel(th, T.const(3))), T.ONE, C + "generate_from_trace"),
            ("sigma", lambda: T.gapply(one, S("sigma1", th)), T.ONE, C + "_sigma_noise"),
            ("logpost", lambda: one(T.sel(logpost, row)), T.ONE, C + "set_logpost"),
            ("loglik", lambda: one(T.sel(logpost, row) - prior(th)), T.ONE, C + "__init__"),
        ])


# -- integer positions ------------------------------------------------------------------------------

def functions(m, wanted):
    """(qualified name, node, file) of the named functions and methods of the Python layer"""
    out = []
    for path, tree in m.mods.values():
        for s in tree.body:
            if isinstance(s, ast.FunctionDef) and s.name in wanted:
                out.append((s.name, s, path))
            elif isinstance(s, ast.ClassDef):
                out += [(s.name + "." + f.name, f, path) for f in s.body if isinstance(f, ast.FunctionDef) and (s.name + "." + f.name) in wanted]
    return out


def real_valued(e, env):
    """the expression certainly has a floating-point (or floating-point array) value"""
    if isinstance(e, ast.Constant):
        return isinstance(e.value, float)
    if isinstance(e, ast.BinOp):
        if isinstance(e.op, ast.Div):
            return True
        if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.Pow)):
            return real_valued(e.left, env) or real_valued(e.right, env)
        return False
    if isinstance(e, ast.UnaryOp):
        return real_valued(e.operand, env)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id == "float"
    if isinstance(e, ast.Name):
        return bool(env.get(e.id)) and all(real_valued(x, {}) if not isinstance(x, ast.Name) else False for x in env[e.id])
    return False


def index_sites(fn):
    env = {}
    params = {a.arg for a in fn.args.args}
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign):
            for tg in s.targets:
                for x in ast.walk(tg):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        env.setdefault(x.id, []).append(s.value if tg is x else ast.Constant(None))
        elif isinstance(s, (ast.AugAssign, ast.For)):
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    env.setdefault(x.id, []).append(ast.Constant(None))
    for x in params:
        env[x] = []
    for s in ast.walk(fn):
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == "range":
            for a in s.args:
                yield a, real_valued(a, env)
        elif isinstance(s, ast.Subscript):
            for a in ([s.slice.lower, s.slice.upper, s.slice.step] if isinstance(s.slice, ast.Slice) else s.slice.elts if isinstance(s.slice, ast.Tuple) else [s.slice]):
                if a is not None and not isinstance(a, (ast.Slice, ast.Constant)):
                    yield a, real_valued(a, env)


def integers(run, m, *wanted):
    """loop counts and array positions are integers: numpy and range refuse floating-point values"""
    run.rule("no floating-point value is used as a loop count or array position")
    for name, fn, path in functions(m, wanted):
        sites = list(index_sites(fn))
        bad = [a for a, f in sites if f]
        where = "%s:%s %s" % (judge.rel(path), bad[0].lineno if bad else fn.lineno, name)
        run.holds("%s: loop counts and positions are integers" % name, not bad, where, "floating-point value %s" % ast.unparse(bad[0]) if bad else "%d positions" % len(sites))


# -- power spectra ----------------------------------------------------------------------------------

sigmas, ars, mas = table("sigmas", T.ONE), table("arcoefs", p + T.ONE), table("macoefs", q + T.ONE)
omegas = table("logomegas", T.ONE)
A.POSITIVE.add(sigmas.single())
percent, line = T.sym("percent"), T.sym("line", isint=True, nonneg=True)
A.POSITIVE.add(percent.single())
interp.SAMPLER[percent.single()] = lambda m, r: m.unit(r) * 100
interp.DOMAIN[percent.single()] = lambda v: 0 < v < 100


def replace(m, o, st, **vals):
    """a sample object holding arbitrary values under the given names"""
    d = m.field(o, "_samples", st).v
    for k, v in vals.items():
        if m.read(st, ("d", d, k)) is UNDEF:
            raise judge.AnchorLost("stored quantity " + k)
        st[("d", d, k)] = leaf(v)


def spectra(run, sp, what, cls, make, vals, ref, used=None):
    where = FILE + cls + ".plot_power_spectrum"

    @run.part(what, where)
    def _():
        st = State()
        m, o, _th = make(run, st)
        replace(m, o, st, **vals)
        kw = {"percentile": percent, "doShow": False}
        if used is not None:
            kw["nsamples"] = used
        g = m.call_method(o, "plot_power_spectrum", [], st, kw)
        parts = [T.gapply(lambda x: m.item(x, k), g) for k in range(4)]
        count = T.ungate(T.gapply(A.n_elem, parts[3]))
        if count.const() is None:
            raise judge.AnchorLost("length of the frequency grid")
        interp.SAMPLER[line.single()] = lambda mo, r: r.choice((0, int(count.const()) - 1, r.randrange(int(count.const()))))
        f = sp.call("frequency", [t, line, count], State(), mod="derived")
        run.eq("%s: frequency grid" % what, lambda: (T.gapply(lambda x: T.sel(x, line), parts[3]), f), where, m)
        values = T.gapply(lambda x: x, ref(f))
        if used is not None:
            values = sp.call("thinned", [values, N, used], State(), mod="derived")
        b = sp.call("band", [values, percent], State(), mod="derived")
        for k, name in enumerate(("lower", "upper", "median")):
            run.eq("%s: %s value is returned in its place" % (what, name), lambda: (T.gapply(lambda x: T.sel(x, line), parts[k]), T.gapply(lambda x: x[1 + k], b)), where, m)
            run.eq("%s: %s has one value per frequency" % (what, name), lambda: (T.gapply(A.n_elem, parts[k]), count), where, m)


def c19(run):
    run.rule("returned spectrum, percentile bands and frequency grid equal the reference formulas at an arbitrary frequency")
    run.assume("percentile and median of an array are those of its values; plotting has no effect on results")
    sp = spec()
    S = lambda f, *a: sp.call(f, list(a), State(), mod="derived")
    m = repo_py(run)
    integers(run, m, "power_spectrum", "CarmaSample.plot_power_spectrum", "Car1Sample.plot_power_spectrum")
    nf = T.sym("nfreqs", isint=True, nonneg=True)
    T.LOWER[nf.single()] = 1
    freqs, ar, ma, s, at = vec("freqs", nf), vec("arc", p + T.ONE), vec("mac", q + T.ONE), T.sym("sig"), T.sym("fpos", isint=True, nonneg=True)
    interp.SAMPLER[at.single()] = lambda mo, r: r.randrange(interp.toint(mo.ev(nf, {})))
    where = FILE + "power_spectrum"
    f0 = T.sym("f0")

    @run.part("single spectrum", where)
    def _():
        g = m.call("power_spectrum", [freqs, s, ar, ma], State())
        run.eq("spectrum at every frequency of an array", lambda: (T.gapply(lambda x: T.sel(x, at), g), S("spectrum", T.sel(freqs, at), s, ar, ma)), where, m)
        run.eq("one value per frequency", lambda: (T.gapply(A.n_elem, g), nf), where, m)
        run.eq("spectrum at one frequency", lambda: (m.call("power_spectrum", [f0, s, ar, ma], State()), S("spectrum", f0, s, ar, ma)), where, m)
        run.eq("spectrum without moving average", lambda: (m.call("power_spectrum", [f0, s, ar], State()), S("spectrum", f0, s, ar, T.fill(T.ONE, T.ONE))), where, m)
    used = T.sym("used", isint=True, nonneg=True)
    T.LOWER[used.single()] = 1
    interp.SAMPLER[used.single()] = lambda mo, r: r.randint(1, interp.toint(mo.ev(N, {})))
    for u in (None, used):
        w = "" if u is None else " from a subset of samples"
        spectra(run, sp, "general model" + w, "CarmaSample", carma_sample, dict(sigma=sigmas, ar_coefs=ars, ma_coefs=mas), lambda f: S("spectra", f, N, sigmas, ars, mas), u)
        spectra(run, sp, "first-order model" + w, "Car1Sample", car1_sample, dict(sigma=sigmas, log_omega=omegas), lambda f: S("spectra1", f, N, sigmas, omegas), u)
