"""Prediction, simulation and fit assessment through the compiled filter."""
import terms as T
import arrays as A
import interp
import judge
from core import State
from terms import leaf, ra, atom
from world import n, p, t, y, yerr, vec, repo_py, spec, part
from models import q
from pylayer import FILE, N, table, replace, carma_sample, car1_sample, num, integers

sigmas, mus, posts = table("sigmas2", T.ONE), table("mus2", T.ONE), table("posts2", T.ONE)
rootss = T.sym("rootss2", scalar=False, real=False)
A.SHAPES[rootss.single()] = (N, p)
mas, omegas = table("mas2", q + T.ONE), table("omegas2", T.ONE)
A.POSITIVE.add(sigmas.single())


def call(name, args, size=None):
    return ra(atom("call", name, tuple(args), real=True, scalar=size is None, size=size))


judge.FREE |= {"KalmanFilterp", "KalmanFilter1", "filtered mean", "filtered variance", "predicted value", "predicted variance", "simulated values"}


def fil(m, cls, args):
    """the compiled filter built from the given arguments"""
    return call(cls, [A.canon(num(m, T.tog(a))) for a in args])


def compiled(m):
    """the compiled filter as the Python layer sees it"""
    def build(cls):
        def go(m, a, k, st):
            x = fil(m, cls, a)
            st[("xs", x)] = leaf(T.ZERO)
            return leaf(x)
        return go
    for cls in ("KalmanFilterp", "KalmanFilter1"):
        m.stubs[cls] = build(cls)

    def filtered(m, x, a, k, st):
        st[("xs", x)] = leaf(T.ONE)
        return leaf(None)

    def after(name):
        def get(m, x, a, k, st):
            done = T.ungate(m.read(st, ("xs", x)))
            return leaf(call(name, [x, done], n))
        return get
    m.ext["Filter"] = filtered
    m.ext["GetMean"] = after("filtered mean")
    m.ext["GetVar"] = after("filtered variance")

    def predict(m, x, a, k, st):
        v = num(m, a[0])
        return leaf(("pair", call("predicted value", [x, v]), call("predicted variance", [x, v])))
    m.ext["Predict"] = predict

    def simulate(m, x, a, k, st):
        v = num(m, a[0])
        v = A.canon(v)
        return leaf(simulated(x, v))
    m.ext["Simulate"] = simulate


def simulated(x, times):
    return call("simulated values", [x, times], A.n_elem(times))


def fits(sp):
    """(name of the fit, expected (variance, mean, roots, coefficients, rate)) """
    S = lambda f, *a: sp.call(f, list(a), State(), mod="fit")
    best = S("best", posts)
    rand = S("anyone", N)
    out = []
    for kind, sc, row, rate, ix in (("map", "sample_scalars", "sample_row", "sample_rate", [best]), ("mean", "mean_scalars", "mean_row", "mean_rate", []),
                                    ("median", "median_scalars", "median_row", "median_rate", []), ("random", "sample_scalars", "sample_row", "sample_rate", [rand])):
        s2, mu = S(sc, sigmas, mus, *ix).v[1:]
        out.append((kind, s2, mu, lambda row=row, ix=ix: S(row, rootss, *ix), lambda row=row, ix=ix: S(row, mas, *ix), lambda rate=rate, ix=ix: S(rate, omegas, *ix)))
    return out


def c22(run):
    run.rule("filter arguments, restored mean and returned values equal the reference ones for every kind of best fit (value-number congruence, random interpretation)")
    run.assume("the compiled filter is a function of its constructor arguments (C02, C03, C04)", "median and mean of an array are those of its values")
    sp = spec()
    nt = T.sym("npred", isint=True, nonneg=True)
    T.LOWER[nt.single()] = 1
    times, tau, at = vec("predtimes", nt), T.sym("predtime"), T.sym("predpos", isint=True, nonneg=True)
    interp.SAMPLER[at.single()] = lambda mo, r: r.randrange(interp.toint(mo.ev(nt, {})))
    for cls, make, vals in (("CarmaSample", carma_sample, dict(sigma=sigmas, mu=mus, logpost=posts, ar_roots=rootss, ma_coefs=mas)),
                            ("Car1Sample", car1_sample, dict(sigma=sigmas, mu=mus, logpost=posts, log_omega=omegas))):
        for kind, s2, mu, ro, ma, rate in fits(sp):
            def fresh():
                st = State()
                m, o, _ = make(run, st)
                replace(m, o, st, **vals)
                compiled(m)
                kf = fil(m, "KalmanFilterp", [t, y - mu, yerr, s2, ro(), ma()]) if cls == "CarmaSample" else fil(m, "KalmanFilter1", [t, y - mu, yerr, s2, rate()])
                return m, o, st, kf
            what = "%s, %s fit" % ("general model" if cls == "CarmaSample" else "first-order model", kind)
            w = lambda f: FILE + "CarmaSample." + f

            @run.part("prediction: " + what, w("predict"))
            def _():
                m, o, st, kf = fresh()
                for nm in {kind, kind.upper()} | ({None} if kind == "map" else set()):
                    g = m.call_method(o, "predict", [tau], st.copy(), {"bestfit": nm} if nm else {})
                    tag = " (%s)" % (nm or "default")
                    run.eq("value predicted at one time: %s%s" % (what, tag), lambda: (part(g, 1), call("predicted value", [kf, tau]) + mu), w("predict"), m)
                    run.eq("variance predicted at one time: %s%s" % (what, tag), lambda: (part(g, 2), call("predicted variance", [kf, tau])), w("predict"), m)
                g = m.call_method(o, "predict", [times], st, {"bestfit": kind})
                v = T.sel(times, at)
                run.eq("value predicted at each time: " + what, lambda: (T.gapply(lambda x: T.sel(x, at), part(g, 1)), call("predicted value", [kf, v]) + mu), w("predict"), m)
                run.eq("variance predicted at each time: " + what, lambda: (T.gapply(lambda x: T.sel(x, at), part(g, 2)), call("predicted variance", [kf, v])), w("predict"), m)
                for k in (1, 2):
                    run.eq("one %s per requested time: %s" % (("value", "variance")[k - 1], what), lambda: (T.gapply(A.n_elem, part(g, k)), nt), w("predict"), m)

            @run.part("simulation: " + what, w("simulate"))
            def _():
                m, o, st, kf = fresh()
                g = m.call_method(o, "simulate", [times], st, {"bestfit": kind})
                run.eq("value simulated at each time: " + what, lambda: (T.gapply(lambda x: T.sel(x, at), g), T.sel(simulated(kf, times), at) + mu), w("simulate"), m)
                run.eq("one simulated value per requested time: " + what, lambda: (T.gapply(A.n_elem, g), nt), w("simulate"), m)
                m, o, st, kf = fresh()
                g = m.call_method(o, "simulate", [tau], st, {"bestfit": kind})
                run.eq("value simulated at one time: " + what, lambda: (T.gapply(lambda x: x if x.scalar else T.sel(x, T.ZERO), g),
                       T.sel(simulated(kf, A.explicit([tau])), T.ZERO) + mu), w("simulate"), m)

            if kind != "random":
                @run.part("assessment: " + what, w("assess_fit"))
                def _():
                    m, o, st, kf = fresh()
                    m.call_method(o, "assess_fit", [kind], st)
                    res = sp.call("residuals", [y, mu, call("filtered mean", [kf, T.ONE], n), call("filtered variance", [kf, T.ONE], n)], State(), mod="fit")
                    shown = [v for _q, v in m.shown if all(isinstance(x, T.R) and not x.scalar for x in v.leaves())]
                    if not shown:
                        raise judge.AnchorLost("values shown by the assessment")
                    run.eq_any("standardised residuals are shown: " + what, [(lambda v=v: (v, res)) for v in shown if T.ungate(T.gapply(A.n_elem, v)) is n], w("assess_fit"), m)
