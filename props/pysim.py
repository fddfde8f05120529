"""Python simulators and the Python reference filter."""
import terms as T
import arrays as A
import interp
import judge
from core import State
from terms import leaf
from world import n, p, t, y, yerr, vec, pos, roots, repo_py, spec, part
from models import q
from pylayer import FILE, integers

short = vec("mashort", q + T.ONE)


def c21(run):
    run.rule("simulated values equal the reference sequence of conditional draws (value-number congruence, random interpretation)")
    run.assume("times strictly increasing", "n >= 2", "roots distinct with negative real part and closed under conjugation", "real arithmetic")
    sp = spec()
    S = lambda f, *a: sp.call(f, list(a), State(), mod="process")
    m = repo_py(run)
    integers(run, m, "car1_process", "carma_process")
    s2, tau = pos("sigsqr"), pos("tau")
    w1, w2 = FILE + "car1_process", FILE + "carma_process"

    @run.part("first-order simulator", w1)
    def _():
        run.eq("first-order simulator: values", lambda: (m.call("car1_process", [t, s2, tau], State()), S("car1", t, s2, tau)), w1, m)

    ro, ma = roots("roots", p), vec("ma", p)
    for what, args, coefs in (("full-length coefficients", [ma], lambda: ma), ("shorter coefficients", [short], lambda: S("padded", short, p)),
                              ("no coefficients", [], lambda: S("padded", T.fill(T.ONE, T.ONE), p))):
        @run.part("general simulator, " + what, w2)
        def _():
            T.LEAN[0] = 1
            run.eq("general simulator: values, " + what, lambda: (m.call("carma_process", [t, s2, ro] + args, State()), S("carma", t, s2, ro, coefs())), w2, m)

    @run.part("order one", w2)
    def _():
        r = A.explicit([-pos("decay")])
        run.eq("general simulator at order one: values", lambda: (m.call("carma_process", [t, s2, r], State()), S("car1", t, s2, T.ONE / pos("decay"))), w2, m)


def c27(run):
    run.rule("filtered moments, predictions and simulated values equal the reference recursions (value-number congruence, random interpretation)",
             "state after a simulation equals state before it")
    run.assume("observation times strictly increasing", "n >= 2, p >= 2", "predictions after the first observation", "simulation times increasing and distinct from the observation times", "real arithmetic")
    sp = spec()
    S = lambda f, *a: sp.call(f, list(a), State(), mod="filters")
    C = "KalmanFilterDeprecated"
    w = lambda f: FILE + C + "." + f
    integers(run, repo_py(run), *[C + "." + f for f in ("__init__", "reset", "update", "filter", "predict", "simulate")])
    s2, ro, ma = pos("sigsqr"), roots("roots", p), vec("ma", p)
    yvar = yerr * yerr
    pad = lambda: sp.call("padded", [short, p], State(), mod="process")

    def make(coefs):
        m = repo_py(run)
        st = State()
        return m, st, m.new(C, [t, y, yvar, s2, ro] + coefs, st)

    for what, coefs, full in (("full-length coefficients", [ma], lambda: ma), ("shorter coefficients", [short], pad)):
        @run.part("filter, " + what, w("filter"))
        def _():
            m, st, o = make(coefs)
            ref = S("carma_filter", t, y, yerr, s2, ro, full()).v
            T.LEAN[0] = 1
            g = m.call_method(o, "filter", [], st)
            for k, x in enumerate(("mean", "variance")):
                run.eq("filtered %s, %s" % (x, what), lambda: (T.gapply(lambda v: v[1 + k], g), ref[1 + k]), w("update"), m)
            for k, x in enumerate(("kalman_mean", "kalman_var")):
                run.eq("%s kept by the filter, %s" % (("mean", "variance")[k], what), lambda: (m.field(o, x, st), ref[1 + k]), w("filter"), m)
            g = m.call_method(o, "filter", [], st)
            for k, x in enumerate(("mean", "variance")):
                run.eq("filtered %s of a repeated pass, %s" % (x, what), lambda: (T.gapply(lambda v: v[1 + k], g), ref[1 + k]), w("reset"), m)

    tau = T.sel(t, T.ZERO) + pos("ahead")

    @run.part("prediction", w("predict"))
    def _():
        m, st, o = make([ma])
        T.LEAN[0] = 1
        g = m.call_method(o, "predict", [tau], st)
        ref = S("carma_predict", t, y, yerr, s2, ro, ma, tau)
        for k, x in enumerate(("mean", "variance")):
            run.eq("predicted " + x, lambda: (part(g, 1 + k), part(ref, 1 + k)), w("predict"), m)

    nt = T.sym("nsim", isint=True, nonneg=True)
    T.LOWER[nt.single()] = 1
    req = vec("simtimes", nt)
    A.INCREASING.add(req.single())
    A.POSITIVE.add(req.single())
    T0 = T.sel(t, T.ZERO)

    @run.part("simulation", w("simulate"))
    def _():
        m, st, o = make([ma])
        T.LEAN[0] = 1
        at = req + T0
        g = m.call_method(o, "simulate", [at], st)
        run.eq("simulated values", lambda: (g, S("carma_simulate", t, y, yerr, s2, ro, ma, at)), w("simulate"), m)
        for f, v, x in (("time", t, "times"), ("y", y, "values"), ("yvar", yvar, "variances")):
            run.eq("%s restored" % x, lambda: (m.field(o, f, st), v), w("simulate"), m)

    @run.part("simulation at one time", w("simulate"))
    def _():
        m, st, o = make([ma])
        T.LEAN[0] = 1
        g = m.call_method(o, "simulate", [tau], st)
        ref = S("carma_predict", t, y, yerr, s2, ro, ma, tau)
        z = sp.call("standard", [], State(), mod="process")
        run.eq("value simulated at one time", lambda: (g, T.gapply(lambda a, b, c: a + T.sqrt(b) * c, part(ref, 1), part(ref, 2), z)), w("simulate"), m)
