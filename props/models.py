import mpmath
from mpmath import mpf

import terms as T
import arrays as A
import interp
from core import State
from terms import R, leaf
from world import n, p, t, y, yerr, vec, roots, pos, machine, spec, repo_py, new, at, ARMA, STD, part

DATA = (("GetTime", "times"), ("GetTimeSeries", "values"), ("GetTimeSeriesErr", "errors"))


def raw(name):
    """observation times in any order, possibly repeated; the same already sorted"""
    a, b = vec(name, n), vec(name + "s", n)
    interp.SORTED.add(b.single())
    return ((a, "any order"), (b, "sorted with repeats"))


def c16(run):
    run.rule("data held equal the sorted, de-duplicated data (value-number congruence, random interpretation)")
    run.assume("ties are broken by input order (any observation of a repeated time may be kept)", "n >= 2")
    sp = spec()
    y, yerr = vec("y", n), vec("yerr", n)
    A.POSITIVE.add(yerr.single())
    s2, om, ro, ma = pos("sigsqr"), pos("omega"), roots("roots", p), vec("ma", p)
    for tt, how in raw("t0"):
        ref = sp.call("prepare", [tt, y, yerr], State())
        for cls, pars, types in (("KalmanFilter1", [], []), ("KalmanFilter1", [s2, om], ["double"] * 2), ("KalmanFilterp", [], []),
                                 ("KalmanFilterp", [s2, ro, ma], ["double", "complex", "double"])):
            for kind in (ARMA, STD):
                @run.part("%s(%d arguments, %s), %s" % (cls, 3 + len(pars), kind[:4].strip(":"), how), at(cls, "init"))
                def _():
                    m = machine(run)
                    st = State()
                    o = new(m, cls, [kind] * 3 + types, [tt, y, yerr] + pars, st)
                    for k, (get, what) in enumerate(DATA):
                        run.eq("%s(%d arguments, %s), %s: %s" % (cls, 3 + len(pars), kind[:4].strip(":"), how, what),
                               lambda: (m.call_method(o, get, [], st), part(ref, 1 + k)), at(cls, "init"), m)
        # the filter uses matching time steps
        for cls, pars, types, fn in (("KalmanFilter1", [s2, om], ["double"] * 2, "car1_filter"),
                                     ("KalmanFilterp", [s2, ro, ma], ["double", "complex", "double"], "carma_filter")):
            @run.part("%s, %s: filter" % (cls, how), at(cls, "init"))
            def _():
                T.LEAN[0] = 1
                m = machine(run)
                st = State()
                o = new(m, cls, [ARMA] * 3 + types, [tt, y, yerr] + pars, st)
                m.call_method(o, "Filter", [], st)
                out = sp.call(fn, [part(ref, 1), part(ref, 2), part(ref, 3)] + pars, State())
                for k, get in enumerate(("GetMeanSvec", "GetVarSvec")):
                    run.eq("%s, %s: filtered %s" % (cls, how, get[3:-4].lower()), lambda: (m.call_method(o, get, [], st), part(out, 1 + k)), at(cls, "init"), m)
        # the models hold and use the same data
        for cls, extra in MODELS:
            @run.part("%s, %s" % (cls, how), at(cls, cls))
            def _():
                m = machine(run)
                st = State()
                o = model(m, cls, [tt, y, yerr], extra, st)
                for k, (get, what) in enumerate(DATA):
                    run.eq("%s, %s: %s" % (cls, how, what), lambda: (m.call_method(o, get, [], st), part(ref, 1 + k)), at(cls, cls), m)
        @run.part("Python model, %s" % how, "src/carmcmc/carma_pack.py CarmaModel.__init__")
        def _():
            m = repo_py(run)
            st = State()
            o = m.new("CarmaModel", [tt, y, yerr], st)
            for k, names in enumerate((("time", "_time"), ("y", "_y"), ("ysig", "_ysig"))):
                for f in names:
                    run.eq("Python model, %s: %s" % (how, f), lambda: (m.field(o, f, st), part(ref, 1 + k)), "src/carmcmc/carma_pack.py CarmaModel.__init__", m)


q = T.sym("q", isint=True, nonneg=True)
T.LOWER[q.single()] = 0
interp.SAMPLER[q.single()] = lambda m, r: r.randint(0, interp.toint(m.ev(p, {})) - 1)
MODELS = (("CAR1", []), ("CARp", [p]), ("ZCAR", [p]), ("CARMA", [p, q]), ("ZCARMA", [p]))


def model(m, cls, data, extra, st, temp=None):
    types = ["bool", "string"] + [STD] * 3 + ["int"] * len(extra) + ["double"]
    return new(m, cls, types, [T.ZERO, T.sym("name")] + list(data) + list(extra) + [temp if temp is not None else T.ONE], st)


# -- parameter vectors -------------------------------------------------------------------------------

def theta_of(name, p, size, t, y, inside=0.5):
    """parameter vector; its models are mostly inside the prior support or just outside it"""
    th = vec(name, size)

    def sample(m, r):
        k = interp.toint(m.ev(size, {}))
        np_ = 1 if p is None else interp.toint(m.ev(p, {}))
        tv = [interp.realnum(x) for x in m.ev(t, {}).d]
        yv = [interp.realnum(x) for x in m.ev(y, {}).d]
        ts = sorted(tv)
        gap = min(b - a for a, b in zip(ts, ts[1:]))
        mx = 1 / gap if gap > 0 else mpf(1)
        mn = 1 / (ts[-1] - ts[0]) if ts[-1] > ts[0] else mpf("0.1")
        if mx < mn * 2:
            mx = mn * 3
        u = lambda a, b: a + (b - a) * m.unit(r)
        f = lambda: mpmath.exp(u(mpmath.log(mn), mpmath.log(mx)))
        mean = sum(yv) / len(yv)
        sd = mpmath.sqrt(sum((x - mean) ** 2 for x in yv) / (len(yv) - 1))
        d = [m.number(r) for _ in range(k)]
        bad = r.randint(0, 9) if r.random() > inside else -1
        # coordinate outside its interval
        d[0] = u(0, 10 * sd) if bad != 0 else r.choice([-u(0, 1), 10 * sd + u(0, 1)])
        d[1] = u(mpf("0.5"), mpf(2)) if bad != 1 else r.choice([u(mpf("0.1"), mpf("0.5")), u(2, 3)])
        if m.style == "grid":
            d[1] = r.choice([mpf("0.5"), mpf(1), mpf(2)]) if bad != 1 else r.choice([mpf("0.25"), mpf(3)])
            if bad not in (0, -1):
                d[0] = r.choice([mpf(0), d[0], 10 * sd])
        pi2 = 2 * mpmath.pi
        if p is None:
            d[3] = mpmath.log(f() if bad not in (2, 3) else mx + u(0, 1) if bad == 2 else mn * u(mpf("0.2"), 1))
            return interp.V(d, (k,))
        ws = [f() for _ in range(np_)]
        cs = sorted((f() for _ in range(np_ // 2)), reverse=True)
        if bad == 2:
            ws[r.randrange(np_)] = mx + u(0, 1)
        if bad == 3:
            ws[r.randrange(np_)] = mn * u(mpf("0.2"), 1)
        if bad == 4 and cs:
            cs[0] = mx + u(0, 1)
        if bad == 5:
            cs.reverse()
        real = r.random() < 0.3
        for i in range(np_ // 2):
            w1, w2 = ws[2 * i] * pi2, ws[2 * i + 1] * pi2
            if bad == 6 and i == 0:
                w2 = w1 * (1 + mpf(10) ** -r.choice([3, 4, 5]))
            if real or bad == 6 and i == 0 or i == np_ // 2 - 1 and r.random() < 0.3:
                a, b = w1 * w2, w1 + w2
            else:
                a, b = w1 * w1 + (pi2 * cs[i]) ** 2, 2 * w1
            d[3 + 2 * i], d[4 + 2 * i] = mpmath.log(a), mpmath.log(b)
        if np_ % 2:
            d[3 + np_ - 1] = mpmath.log(pi2 * ws[-1])
        return interp.V(d, (k,))
    interp.SAMPLER[th.single()] = sample
    interp.DOMAIN[th.single()] = None
    return th


def family():
    """model class, constructor extras, size of the parameter vector, order"""
    return (("CARp", [p], p + 3), ("ZCAR", [p], p + 3), ("CARMA", [p, q], p + q + 3), ("ZCARMA", [p], p + 4))


def coefs(sp, cls, th, data):
    """reference autoregressive roots and moving-average coefficients of a parameter vector"""
    ro = sp.call("ar_roots", [th, p], State())
    if cls == "CARp":
        ma = sp.call("ma_car", [th, p], State())
    elif cls == "CARMA":
        ma = sp.call("ma_carma", [th, p, q], State())
    else:
        kap = sp.call("kappa_fixed", [data[0]], State()) if cls == "ZCAR" else sp.call("kappa_free", [th, p, data[0]], State())
        ma = sp.call("ma_kappa", [kap, p], State())
    return ro, ma


def c05(run):
    run.rule("log-density equals the reference log-likelihood plus log-prior (value-number congruence, random interpretation)")
    run.assume("observation times strictly increasing (C16)", "real arithmetic", "n >= 3, p >= 2, q < p")
    sp = spec()

    @run.part("CAR1", at("CAR1", "LogDensity"))
    def _():
        m = machine(run)
        st = State()
        th = theta_of("theta1", None, T.const(4), t, y, 0.9)
        o = model(m, "CAR1", [t, y, yerr], [], st)
        T.LEAN[0] = 1
        got = m.call_method(o, "LogDensity", [th], st)
        b = sp.call("bounds", [t, y], State())
        run.eq("CAR1: log-density", lambda: (got, sp.call("log_density_car1", [th, t, y, yerr, part(b, 1), part(b, 2), part(b, 3)], State())), at("CAR1", "LogDensity"), m)
        run.eq("CAR1: log-density by the exported name", lambda: (m.call_method(o, "getLogDensity", [th], st), got), at("CAR1", "getLogDensity"), m)
        other = theta_of("theta1'", None, T.const(4), t, y, 0.9)
        m.call_method(o, "LogDensity", [other], st)
        run.eq("CAR1: log-density after another evaluation", lambda: (m.call_method(o, "LogDensity", [th], st),
               sp.call("log_density_car1", [th, t, y, yerr, part(b, 1), part(b, 2), part(b, 3)], State())), at("CAR1", "LogDensity"), m)
        run.eq("CAR1: log-prior by the exported name", lambda: (m.call_method(o, "getLogPrior", [th], st), sp.call("log_prior", [th], State())), at("CAR1", "getLogPrior"), m)

    for cls, extra, size in family():
        @run.part(cls, at(cls, "LogDensity"))
        def _():
            m = machine(run)
            st = State()
            th = theta_of("theta" + cls, p, size, t, y, 0.9)
            o = model(m, cls, [t, y, yerr], extra, st)
            T.LEAN[0] = 1
            m.call_method(o, "SetMLE", [T.ONE], st)
            m.call_method(o, "LogDensity", [theta_of("theta'" + cls, p, size, t, y, 0.9)], st)
            got = m.call_method(o, "LogDensity", [th], st)
            ro, ma = coefs(sp, cls, th, (t, y, yerr))
            prior = sp.call("log_prior_kappa", [th, p], State()) if cls == "ZCARMA" else sp.call("log_prior", [th], State())
            like = sp.call("log_like_carma", [th, t, y, yerr, ro, ma], State())
            ref = T.gapply(lambda a, b: a + b, like, prior)
            run.eq("%s: log-density without bounds" % cls, lambda: (got, ref), at(cls, "LogDensity"), m)
            run.eq("%s: log-prior by the exported name" % cls, lambda: (m.call_method(o, "getLogPrior", [th], st), prior), at(cls, "getLogPrior"), m)
            m.call_method(o, "SetMLE", [T.ZERO], st)
            got = m.call_method(o, "getLogDensity", [th], st)
            b = sp.call("bounds", [t, y], State())
            full = sp.call("within", [sp.call("support_carma", [th, ro, part(b, 1), part(b, 2), part(b, 3)], State()), ref], State())
            run.eq("%s: log-density" % cls, lambda: (got, full), at(cls, "LogDensity"), m)

    # failures of the linear algebra inside the filter
    for cls, extra, size in family():
        @run.part("%s: failing filter" % cls, at(cls, "LogDensity"))
        def _():
            m = machine(run, assume_no_throw=False)
            st = State()
            th = theta_of("theta" + cls, p, size, t, y, 0.9)
            o = model(m, cls, [t, y, yerr], extra, st)
            T.LEAN[0] = 1
            m.call_method(o, "SetMLE", [T.ONE], st)
            m.pend = []
            got = T.tog(m.call_method(o, "LogDensity", [th], st))
            escapes = [str(v) for c, s, v in m.pend if c is not T.FALSE]
            bad, sites = failing(got)
            name = "%s: minus infinity when the filter fails" % cls
            if escapes:
                run.holds(name, False, at(cls, "LogDensity"), "the failure leaves the log-density as an exception: %s" % escapes[:2])
            elif not sites:
                run.holds(name, None, at(cls, "LogDensity"), "no operation that can fail")
            else:
                run.holds(name, not bad, at(cls, "LogDensity"), bad and "value after a failure: %s" % str(bad[0])[:300] or "%d failing operations" % sites)


def failing(g):
    """leaves reached after a failed library operation other than minus infinity, and how many such operations there are"""
    bad, sites, seen = [], set(), set()

    def go(g, failed):
        if (g.uid, failed) in seen:
            return
        seen.add((g.uid, failed))
        if g.c is None:
            if failed and not (isinstance(g.v, R) and g.v is -T.INF):
                bad.append(g.v)
            return
        f = g.c.op.endswith("_fails")
        if f:
            sites.add(g.c)
        go(g.hi, failed or f)
        go(g.lo, failed)
    go(g, False)
    return bad, len(sites)


def c06(run):
    run.rule("set of parameter vectors accepted by the prior equals the documented set (value-number congruence, random interpretation)")
    run.assume("observation times strictly increasing (C16)", "real arithmetic", "n >= 2, p >= 2, q < p")
    sp = spec()
    limit = pos("limit")
    interp.SAMPLER[limit.single()] = lambda m, r: m.unit(r) * 3
    interp.DOMAIN[limit.single()] = lambda v: v > 0
    for own in (False, True):
        what = "bound set by the user" if own else "default bounds"

        @run.part("CAR1, %s" % what, at("CAR1", "CheckPriorBounds"))
        def _():
            m = machine(run)
            st = State()
            th = theta_of("theta1", None, T.const(4), t, y)
            o = model(m, "CAR1", [t, y, yerr], [], st)
            b = sp.call("bounds", [t, y], State())
            if own:
                m.call_method(o, "SetPrior", [limit], st)
            mx = limit if own else part(b, 1)
            run.eq("CAR1, %s: support" % what, lambda: (m.call_method(o, "CheckPriorBounds", [th], st), sp.call("support_car1", [th, mx, part(b, 2), part(b, 3)], State())),
                   at("CAR1", "CheckPriorBounds"), m)
        for cls, extra, size in family():
            @run.part("%s, %s" % (cls, what), at(cls, "CheckPriorBounds"))
            def _():
                m = machine(run)
                st = State()
                th = theta_of("theta" + cls, p, size, t, y)
                o = model(m, cls, [t, y, yerr], extra, st)
                T.LEAN[0] = 1
                b = sp.call("bounds", [t, y], State())
                if own:
                    m.call_method(o, "SetPrior", [limit], st)
                mx = limit if own else part(b, 1)
                ro = sp.call("ar_roots", [th, p], State())
                run.eq("%s, %s: support" % (cls, what), lambda: (m.call_method(o, "CheckPriorBounds", [th], st),
                       sp.call("support_carma", [th, ro, mx, part(b, 2), part(b, 3)], State())), at(cls, "CheckPriorBounds"), m)
                m.call_method(o, "SetMLE", [T.ONE], st)
                run.eq("%s, %s: no bounds in maximum-likelihood mode" % (cls, what), lambda: (m.call_method(o, "CheckPriorBounds", [th], st), T.TRUE),
                       at(cls, "CheckPriorBounds"), m)


def c07(run):
    run.rule("roots, moving-average coefficients and driving-noise variance of a parameter vector equal the reference (value-number congruence, random interpretation)")
    run.assume("real arithmetic", "p >= 2, q < p")
    sp = spec()

    @run.part("CAR1", at("CAR1", "ExtractAR"))
    def _():
        m = machine(run)
        st = State()
        th = theta_of("theta1", None, T.const(4), t, y)
        o = model(m, "CAR1", [t, y, yerr], [], st)
        run.eq("CAR1: decay rate", lambda: (m.call_method(o, "ExtractAR", [th], st), T.gapply(T.exp, T.tog(T.sel(th, T.const(3))))), at("CAR1", "ExtractAR"), m)
        run.eq("CAR1: driving-noise variance", lambda: (m.call_method(o, "ExtractSigsqr", [th], st), sp.call("sigsqr_car1", [th], State())), at("CAR1", "ExtractSigsqr"), m)
    for cls, extra, size in family():
        for inside in (0.5, 0.95):
            @run.part(cls, at(cls, "ExtractAR"))
            def _():
                m = machine(run)
                st = State()
                th = theta_of("theta%s%s" % (cls, "" if inside < 0.9 else "'"), p, size, t, y, inside)
                o = model(m, cls, [t, y, yerr], extra, st)
                if inside > 0.9:
                    T.LEAN[0] = 1
                    # nothing another evaluation leaves behind matters
                    m.call_method(o, "LogDensity", [theta_of("theta0" + cls, p, size, t, y, 0.9)], st)
                how = "" if inside < 0.9 else " after another evaluation"
                ro, ma = coefs(sp, cls, th, (t, y, yerr))
                run.eq("%s: autoregressive roots%s" % (cls, how), lambda: (m.call_method(o, "ExtractAR", [th], st), ro), at(cls, "ExtractAR"), m)
                run.eq("%s: roots by name%s" % (cls, how), lambda: (m.call_method(o, "ARRoots", [th], st), ro), at(cls, "ARRoots"), m)
                run.eq("%s: moving-average coefficients%s" % (cls, how), lambda: (m.call_method(o, "ExtractMA", [th], st), ma), at(cls, "ExtractMA"), m)
                run.eq("%s: driving-noise variance%s" % (cls, how), lambda: (m.call_method(o, "ExtractSigsqr", [th], st), sp.call("sigsqr_carma", [th, ro, ma], State())),
                       at(cls, "ExtractSigsqr"), m)

    @run.part("ZCARMA: bounds set by the user", at("ZCARMA", "SetKappaBounds"))
    def _():
        m = machine(run)
        st = State()
        th = theta_of("thetaZCARMA", p, p + 4, t, y)
        o = model(m, "ZCARMA", [t, y, yerr], [p], st)
        lo, hi = pos("kappa_low"), pos("kappa_high")
        m.call_method(o, "SetKappaBounds", [lo, hi], st)
        kap = sp.call("kappa_between", [th, p, lo, hi], State())
        run.eq("ZCARMA: moving-average coefficients with bounds set by the user",
               lambda: (m.call_method(o, "ExtractMA", [th], st), sp.call("ma_kappa", [kap, p], State())), at("ZCARMA", "ExtractMA"), m)


def c08(run):
    run.rule("autocovariance equals the residue formula in both languages (value-number congruence, random interpretation)")
    run.assume("real arithmetic", "distinct roots closed under conjugation")
    sp = spec()
    ro, sig, lag = roots("roots", p), T.sym("sigma"), pos("lag")
    s2 = pos("sigsqr")
    k = T.sym("nma", isint=True, nonneg=True)
    T.LOWER[k.single()] = 1
    interp.SAMPLER[k.single()] = lambda m, r: r.randint(1, interp.toint(m.ev(p, {})))
    for ma, how in ((vec("ma", p), "full-length coefficients"), (vec("mas", k), "at most as many coefficients")):
        @run.part("compiled, %s" % how, at("CARp", "Variance"))
        def _():
            m = machine(run)
            st = State()
            o = model(m, "CARp", [t, y, yerr], [p], st)
            run.eq("compiled: autocovariance, %s" % how, lambda: (m.call_method(o, "Variance", [ro, ma, sig, lag], st), sp.call("autocov", [ro, ma, sig, lag], State())),
                   at("CARp", "Variance"), m)
            run.eq("compiled: variance, %s" % how, lambda: (m.call_method(o, "Variance", [ro, ma, sig, T.ZERO], st), sp.call("autocov", [ro, ma, sig, T.ZERO], State())),
                   at("CARp", "Variance"), m)
        where = "src/carmcmc/carma_pack.py carma_variance"

        @run.part("Python, %s" % how, where)
        def _():
            m = repo_py(run)
            for lg, w in ((lag, "autocovariance"), (T.ZERO, "variance")):
                ref = sp.call("autocov", [ro, ma, T.sqrt(s2), lg], State())
                run.eq("Python: %s, %s" % (w, how), lambda: (m.call("carma_variance", [s2, ro], State(), {"ma_coefs": ma, "lag": lg}), ref), where, m)
    where = "src/carmcmc/carma_pack.py carma_variance"

    @run.part("Python, defaults", where)
    def _():
        m = repo_py(run)
        one = T.fill(T.ONE, T.ONE)
        ref = sp.call("autocov", [ro, one, T.sqrt(s2), T.ZERO], State())
        run.eq("Python: variance without moving average", lambda: (m.call("carma_variance", [s2, ro], State()), ref), where, m)
