import terms as T
import arrays as A
from core import State
from terms import leaf
from world import n, p, t, y, yerr, vec, roots, pos, machine, spec, new, at, ARMA, STD, part
from judge import AnchorLost



def car1_world(run, types=ARMA):
    m = machine(run)
    st = State()
    s2, om = pos("sigsqr"), pos("omega")
    o = new(m, "KalmanFilter1", [types] * 3 + ["double"] * 2, [t, y, yerr, s2, om], st)
    return m, st, o, s2, om


def c01(run):
    run.rule("predictive moments equal the reference recursion (value-number congruence of recurrences)")
    run.assume("observation times strictly increasing (sorting and de-duplication are decided by C16)", "real arithmetic", "n >= 2")
    sp = spec()
    s2, om = pos("sigsqr"), pos("omega")
    ref = sp.call("car1_filter", [t, y, yerr, s2, om], State()).v
    for kind in (ARMA, STD):
        nm = "arma" if kind == ARMA else "std"

        @run.part("filter pass (%s constructor)" % nm, at("KalmanFilter1", "Update"))
        def _():
            m, st, o, _, _ = car1_world(run, kind)
            m.call_method(o, "Filter", [], st)
            for k, (get, what) in enumerate((("GetMeanSvec", "mean"), ("GetVarSvec", "variance"))):
                run.eq("%s of the one-step prediction (%s constructor)" % (what, nm), lambda: (m.call_method(o, get, [], st), ref[1 + k]),
                       at("KalmanFilter1", "Update"), m)

    # parameters replaced after an earlier filter pass: no dependence on history
    @run.part("repeated pass", at("KalmanFilter1", "Reset"))
    def _():
        m, st, o, _, _ = car1_world(run)
        m.call_method(o, "Filter", [], st)
        s3, om3 = pos("sigsqr'"), pos("omega'")
        m.call_method(o, "SetSigsqr", [s3], st)
        m.call_method(o, "SetOmega", [om3], st)
        m.call_method(o, "Filter", [], st)
        ref = sp.call("car1_filter", [t, y, yerr, s3, om3], State()).v
        for k, (get, what) in enumerate((("GetMeanSvec", "mean"), ("GetVarSvec", "variance"))):
            run.eq("%s after new parameters and a repeated pass" % what, lambda: (m.call_method(o, get, [], st), ref[1 + k]), at("KalmanFilter1", "Reset"), m)


CX = "std::complex<double>"


def carma_world(run, types=ARMA):
    m = machine(run)
    st = State()
    s2, ro, ma = pos("sigsqr"), roots("roots", p), vec("ma", p)
    o = new(m, "KalmanFilterp", [types] * 3 + ["double", types.replace("double", CX), types], [t, y, yerr, s2, ro, ma], st)
    return m, st, o, s2, ro, ma


def c02(run):
    run.rule("predictive moments equal the reference recursion (value-number congruence of recurrences)")
    run.assume("observation times strictly increasing (sorting and de-duplication are decided by C16)", "real arithmetic", "n >= 2, p >= 2")
    sp = spec()
    s2, ro, ma = pos("sigsqr"), roots("roots", p), vec("ma", p)
    ref = sp.call("carma_filter", [t, y, yerr, s2, ro, ma], State()).v
    for kind in (ARMA, STD):
        nm = "arma" if kind == ARMA else "std"

        @run.part("filter pass (%s constructor)" % nm, at("KalmanFilterp", "Update"))
        def _():
            m, st, o, _, _, _ = carma_world(run, kind)
            m.call_method(o, "Filter", [], st)
            for k, (get, what) in enumerate((("GetMeanSvec", "mean"), ("GetVarSvec", "variance"))):
                run.eq("%s of the one-step prediction (%s constructor)" % (what, nm), lambda: (m.call_method(o, get, [], st), ref[1 + k]),
                       at("KalmanFilterp", "Update"), m)

    @run.part("repeated pass", at("KalmanFilterp", "Reset"))
    def _():
        m, st, o, _, _, _ = carma_world(run)
        m.call_method(o, "Filter", [], st)
        s3, ro3, ma3 = pos("sigsqr'"), roots("roots'", p), vec("ma'", p)
        m.call_method(o, "SetSigsqr", [s3], st)
        m.call_method(o, "SetOmega", [ro3], st)
        m.call_method(o, "SetMA", [ma3], st)
        m.call_method(o, "Filter", [], st)
        ref = sp.call("carma_filter", [t, y, yerr, s3, ro3, ma3], State()).v
        for k, (get, what) in enumerate((("GetMeanSvec", "mean"), ("GetVarSvec", "variance"))):
            run.eq("%s after new parameters and a repeated pass" % what, lambda: (m.call_method(o, get, [], st), ref[1 + k]), at("KalmanFilterp", "Reset"), m)


def c03(run):
    run.rule("predicted moments equal the reference smoother (value-number congruence, random interpretation)")
    run.assume("observation times strictly increasing (C16)", "real arithmetic", "n >= 2, p >= 2")
    sp = spec()
    tau = T.sym("tau")
    for cls, world, fn, nm in (("KalmanFilter1", car1_world, "car1_predict", "CAR(1)"), ("KalmanFilterp", carma_world, "carma_predict", "CARMA")):
        for kind in (ARMA, STD):
            what = "%s constructor%s" % ("arma" if kind == ARMA else "std", ", after another prediction" if kind == STD and cls == "KalmanFilter1" else "")

            @run.part("%s: prediction (%s)" % (nm, what), at(cls, "Predict"))
            def _():
                T.LEAN[0] = 1
                w = world(run, kind)
                m, st, o, pars = w[0], w[1], w[2], list(w[3:])
                ref = sp.call(fn, [t, y, yerr] + pars + [tau], State())
                if "another" in what:
                    m.call_method(o, "Predict", [T.sym("tau0")], st)
                got = m.call_method(o, "Predict", [tau], st)
                for k, x in ((1, "mean"), (2, "variance")):
                    run.eq("%s: conditional %s (%s)" % (nm, x, what), lambda: (part(got, k), part(ref, k)), at(cls, "Predict"), m)


def c04(run):
    run.rule("draws equal sequential conditional draws (value-number congruence, random interpretation)", "state after the call equals state before it")
    run.assume("observation times strictly increasing (C16)", "real arithmetic", "n >= 2, p >= 2")
    sp = spec()
    nt = T.sym("nt", isint=True, nonneg=True)
    T.LOWER[nt.single()] = 1
    req, tau = vec("req", nt), T.sym("tau")
    for cls, world, fn in (("KalmanFilter1", car1_world, "car1_"), ("KalmanFilterp", carma_world, "carma_")):
        @run.part("%s: simulation" % cls, at(cls, "Simulate"))
        def _():
            T.LEAN[0] = None
            w = world(run)
            m, st, o, pars = w[0], w[1], w[2], list(w[3:])
            T.LEAN[0] = 1
            got = m.call_method(o, "Simulate", [req], st)
            run.eq("%s: simulated values" % cls, lambda: (got, sp.call(fn + "simulate", [t, y, yerr] + pars + [req], State())), at(cls, "Simulate"), m)
            for get, v, what in (("GetTime", t, "times"), ("GetTimeSeries", y, "values"), ("GetTimeSeriesErr", yerr, "errors")):
                run.eq("%s: %s restored" % (cls, what), lambda: (m.call_method(o, get, [], st), v), at(cls, "Simulate"), m)
            after = m.call_method(o, "Predict", [tau], st)
            ref = sp.call(fn + "predict", [t, y, yerr] + pars + [tau], State())
            for k, what in ((1, "mean"), (2, "variance")):
                run.eq("%s: predicted %s after a simulation" % (cls, what), lambda: (part(after, k), part(ref, k)), at(cls, "Simulate"), m)
            m.call_method(o, "Filter", [], st)
            T.LEAN[0] = None
            ref = sp.call(fn + "filter", [t, y, yerr] + pars, State()).v
            for k, (get, what) in enumerate((("GetMeanSvec", "mean"), ("GetVarSvec", "variance"))):
                run.eq("%s: filtered %s after a simulation" % (cls, what), lambda: (m.call_method(o, get, [], st), ref[1 + k]), at(cls, "Simulate"), m)
