"""Markov chain moves: Metropolis, adaptive Metropolis, exchange, Gibbs; proposals."""
import terms as T
import arrays as A
import effects
import interp
import judge
from core import State, Obj
from terms import R, leaf, ra, atom, gapply, gand, gite
from world import machine, spec, new, at, ctor, prog, pos, vec, part

VEC = "arma::Col<double>"


def par_obj(name, cls):
    return Obj(name, cls, symbolic=True, exact=True)


def unknown_density(m, seen, *classes, shared=None):
    """the log-density of the analysed parameter is an arbitrary function (one and the same for all chains if shared)"""
    def f(mm, this, args, st, node):
        v = mm.argval(args[0], st)
        seen.append(v)
        return gapply(lambda x: ra(atom("call", "LogDensity", T.sym("obj:" + (shared or this.name)), (x,), real=True, scalar=True)), v)
    for c in classes:
        m.stubs[c + "::LogDensity"] = f


def density(name, x):
    return gapply(lambda v: ra(atom("call", "LogDensity", T.sym("obj:" + name), (v,), real=True, scalar=True)), T.tog(x))


def uniform(k=T.ZERO):
    return ra(atom("draw", "uniform", (T.ZERO, T.ONE), k, real=True, scalar=True))


def uniforms_used(m, st):
    """number of uniform draws made so far"""
    return m.read(st, ("rng", "uniform", (T.ZERO, T.ONE)))


def accepts(d, k=T.ZERO):
    """the Metropolis rule for log ratio d, given the number of uniform draws made before"""
    return gapply(lambda x, k: gand(T.isfinite(x), T.lt(uniform(k), T.minmax("min", [T.exp(x), T.ONE]))), T.tog(d), T.tog(k))


def same_after(run, name, m, par, st, want_value, want_density, where):
    run.eq(name + ": value", lambda: (m.call_method(par, "Value", [], st), want_value), where, m)
    run.eq(name + ": log-density", lambda: (m.call_method(par, "GetLogDensity", [], st), want_density), where, m)


d = T.sym("d", isint=True, nonneg=True)
T.LOWER[d.single()] = 1
covar = T.sym("covar", scalar=False)
A.SHAPES[covar.single()] = (d, d)
rate, maxiter = T.sym("rate"), T.sym("maxiter", isint=True, nonneg=True)


def _covar(m, r):
    """a positive definite matrix"""
    k = interp.toint(m.ev(d, {}))
    b = [[m.unit(r) * r.choice((-1, 1)) for _ in range(k)] for _ in range(k)]
    return interp.V([sum(b[i][l] * b[j][l] for l in range(k)) + (1 if i == j else 0) for i in range(k) for j in range(k)], (k, k))


interp.SAMPLER[covar.single()] = _covar
interp.SAMPLER[rate.single()] = lambda m, r: m.unit(r)
interp.DOMAIN[rate.single()] = lambda v: 0 < v < 1
interp.DOMAIN[covar.single()] = lambda v: True
interp.DOMAIN[maxiter.single()] = lambda v: v >= 0
interp.SAMPLER[maxiter.single()] = lambda m, r: r.randint(0, 4)


def unit_draws(m, prop, k=0):
    """the k-th vector of independent draws of the unit proposal at zero"""
    i = A.idx_sym()
    return T.arr(i, d, ra(atom("draw", "call:Draw", (T.sym("obj:" + prop.name), T.ZERO), ra(i) + T.const(k) * d, real=True, scalar=True)))


def c09(run):
    run.rule("value and log-density after a move equal the Metropolis rule applied to the proposal (value-number congruence, random interpretation)")
    run.assume("the log-density and the proposal are arbitrary functions")
    for ty in (VEC, "double"):
        pc, sc, prc = "Parameter<%s>" % ty, "MetropStep<%s>" % ty, "Proposal<%s>" % ty
        x = vec("x", d) if ty == VEC else T.sym("xs")

        def world():
            m = machine(run)
            st = State()
            seen = []
            unknown_density(m, seen, pc)
            par = par_obj("par", pc)
            prop = Obj("prop", prc, symbolic=True, exact=False)
            m.call_method(par, "Save", [x], st)
            seen.clear()
            o = new(m, sc, [pc, prc, "int"], [par, prop, T.const(-1)], st)
            return m, st, o, par, prop, seen

        @run.part(sc, at(sc, "DoStep"))
        def _():
            m, st, o, par, prop, seen = world()
            tm = m.call_method(par, "GetTemperature", [], st)
            m.call_method(o, "DoStep", [], st)
            props = [v for v in seen if v is not T.tog(x)]
            if not props:
                run.holds("%s: move" % sc, None, at(sc, "DoStep"), "no proposal is evaluated")
                return
            z = props[0]
            old, nw = density("par", x), density("par", z)

            def q(a, b):
                return gapply(lambda u, v: ra(atom("call", "LogDensity", T.sym("obj:prop"), (u, v), real=True, scalar=True)), T.tog(a), T.tog(b))
            ratio = gapply(lambda a, b, c, e, f: (a - b) / f + c - e, nw, old, q(x, z), q(z, x), T.tog(tm))
            ok = accepts(ratio)
            where = at(sc, "DoStep")
            same_after(run, "%s: move" % sc, m, par, st, gite(ok, z, T.tog(x)), gite(ok, nw, old), where)
            got = m.call_method(prop, "Draw", [x], State())
            run.eq("%s: the proposal is drawn at the current value" % sc, lambda: (z, got), where, m)

        @run.part("%s: decision" % sc, at(sc, "Accept"))
        def _():
            m, st, o, par, prop, seen = world()
            tm = m.call_method(par, "GetTemperature", [], st)
            z = vec("z", d) if ty == VEC else T.sym("zs")
            got = m.call_method(o, "Accept", [z, x], st)
            q = lambda a, b: ra(atom("call", "LogDensity", T.sym("obj:prop"), (a, b), real=True, scalar=True))
            ratio = gapply(lambda a, b, f: (a - b) / f + q(x, z) - q(z, x), density("par", z), density("par", x), T.tog(tm))
            run.eq("%s: decision" % sc, lambda: (got, accepts(ratio)), at(sc, "Accept"), m)

    sc, pc, prc = "AdaptiveMetro", "Parameter<%s>" % VEC, "Proposal<double>"
    x = vec("x", d)

    @run.part(sc, at(sc, "DoStep"))
    def _():
        m = machine(run)
        st = State()
        seen = []
        unknown_density(m, seen, pc)
        par, prop = par_obj("par", pc), Obj("prop", prc, symbolic=True, exact=False)
        m.call_method(par, "Save", [x], st)
        o = new(m, sc, [pc, prc, "Mat", "double", "int"], [par, prop, covar, rate, maxiter], st)
        tm = m.call_method(par, "GetTemperature", [], st)
        cur, curl = T.tog(x), density("par", x)
        where = at(sc, "DoStep")
        for k in range(2):
            seen.clear()
            draws = uniforms_used(m, st)
            m.call_method(o, "DoStep", [], st)
            props = [v for v in seen if v is not cur]
            if not props:
                run.holds("%s: move" % sc, None, where, "no proposal is evaluated")
                return
            z = props[0]
            nw = density("par", z)
            ratio = gapply(lambda a, b, f: (a - b) / f, nw, curl, T.tog(tm))
            ok = accepts(ratio, draws)
            nx, nl = gite(ok, z, cur), gite(ok, nw, curl)
            same_after(run, "%s: move %d" % (sc, k + 1), m, par, st, nx, nl, where)
            if k == 0:
                run.eq("%s: proposal is the current value plus a scaled draw" % sc, lambda: (z, gapply(lambda v: v + T.matmul(T.transpose(A.chol(covar)), unit_draws(m, prop)), cur)), where, m)
            cur, curl = nx, nl

    @run.part("%s: decision" % sc, at(sc, "Accept"))
    def _():
        m = machine(run)
        st = State()
        unknown_density(m, [], pc)
        par, prop = par_obj("par", pc), Obj("prop", prc, symbolic=True, exact=False)
        m.call_method(par, "Save", [x], st)
        o = new(m, sc, [pc, prc, "Mat", "double", "int"], [par, prop, covar, rate, maxiter], st)
        tm = m.call_method(par, "GetTemperature", [], st)
        z = vec("z", d)
        got = m.call_method(o, "Accept", [z, x], st)
        run.eq("%s: decision" % sc, lambda: (got, accepts(gapply(lambda a, b, f: (a - b) / f, density("par", z), density("par", x), T.tog(tm)))), at(sc, "Accept"), m)


def ensemble(m, st, names, cls="CARp"):
    ens = m.construct("Ensemble<CARp>", ctor("Ensemble<CARp>", []), [], st)
    objs = [par_obj(k, cls) for k in names]
    for o in objs:
        m.call_method(ens, "AddObject", [o], st)
    return ens, objs


def c10(run):
    run.rule("values and log-densities of both chains after an exchange equal the replica-exchange rule (value-number congruence, random interpretation)")
    run.assume("values and temperatures of the chains and their common log-density function are arbitrary; the stored log-densities belong to the values (C13)")
    sc = "ExchangeStep<arma::Col<double>, CARp>"
    where = at(sc, "DoStep")
    for idx, size in ((1, 2), (1, 3), (2, 3)):
        @run.part("chain %d of %d" % (idx, size), where)
        def _():
            m = machine(run)
            st = State()
            unknown_density(m, [], *[c for c in prog()["classes"] if c.startswith(("CARMA_Base<", "Parameter<"))], shared="posterior")
            ens, objs = ensemble(m, st, ["walker%d" % k for k in range(size)])
            hot, cold = objs[idx], objs[idx - 1]
            step = new(m, sc, ["Parameter", "int", "Ensemble", "int"], [hot, T.const(idx), ens, T.const(-1)], st)
            val, den, tmp = [], [], []
            for k, o in enumerate(objs):
                m.call_method(o, "Save", [vec("x%d" % k, d)], st)
                m.call_method(o, "SetLogDensity", [density("posterior", vec("x%d" % k, d))], st)
            for o in objs:
                val.append(T.tog(m.call_method(o, "Value", [], st)))
                den.append(T.tog(m.call_method(o, "GetLogDensity", [], st)))
                tmp.append(T.tog(m.call_method(o, "GetTemperature", [], st)))
            i, j = idx, idx - 1
            for move in (1, 2):
                used = uniforms_used(m, st)
                m.call_method(step, "DoStep", [], st)
                ratio = gapply(lambda a, b, th, tc: (T.ONE / th - T.ONE / tc) * (b - a), den[i], den[j], tmp[i], tmp[j])
                ok = gapply(lambda r, k: gand(T.gnot(T.isnan(r)), T.lt(uniform(k), T.minmax("min", [T.exp(r), T.ONE]))), ratio, T.tog(used))
                val[i], val[j] = gite(ok, val[j], val[i]), gite(ok, val[i], val[j])
                den[i], den[j] = gite(ok, den[j], den[i]), gite(ok, den[i], den[j])
                for k, o in enumerate(objs):
                    who = "warm chain" if k == i else "cool neighbour" if k == j else "other chain"
                    same_after(run, "chain %d of %d, exchange %d: %s" % (idx, size, move, who), m, o, st, val[k], den[k], where)
                if idx == 2 or size == 3:
                    break


def outer(v, w):
    return T.matmul(v, T.transpose(w))


def c11(run):
    run.rule("proposal covariance after a move equals the covariance before plus the stochastic-approximation term (value-number congruence, random interpretation)")
    run.assume("log-density, unit proposal, target rate, decay rate, initial covariance and length of the adaptation period are arbitrary")
    import runs
    runs.adaptation(run)
    sc, pc, prc = "AdaptiveMetro", "Parameter<%s>" % VEC, "Proposal<double>"
    x = vec("x", d)
    where = at(sc, "DoStep")
    gamma = pos("gamma")
    for label, setup in (("", None), (" with decay rate set", gamma)):
        @run.part(sc + label, where)
        def _():
            m = machine(run)
            st = State()
            seen = []
            unknown_density(m, seen, pc)
            par, prop = par_obj("par", pc), Obj("prop", prc, symbolic=True, exact=False)
            m.call_method(par, "Save", [x], st)
            o = new(m, sc, [pc, prc, "Mat", "double", "int"], [par, prop, covar, rate, maxiter], st)
            if setup is not None:
                m.call_method(o, "SetDecayRate", [gamma], st)
            g = setup if setup is not None else T.const(2) / T.const(3)
            cov = T.tog(m.call_method(o, "GetCovariance", [], st))
            run.eq("%s%s: initial covariance" % (sc, label), lambda: (cov, covar), where, m)
            T.LEAN[0] = 1
            tm = T.tog(m.call_method(par, "GetTemperature", [], st))
            for k in range(3):
                before = T.tog(m.call_method(par, "Value", [], st))
                old = T.tog(m.call_method(par, "GetLogDensity", [], st))
                seen.clear()
                m.call_method(o, "DoStep", [], st)
                if not seen:
                    run.holds("%s%s: move %d" % (sc, label, k + 1), None, where, "no proposal is evaluated")
                    break
                new_value = T.tog(seen[0])
                w = gapply(lambda a, b: a - b, new_value, before)
                ratio = gapply(lambda a, b, f: (a - b) / f, density("par", new_value), old, tm)
                alpha = gapply(lambda r: gite(T.isfinite(r), leaf(T.minmax("min", [T.exp(r), T.ONE])), leaf(T.ZERO)), ratio)
                z = unit_draws(m, prop, k)
                zz = A.as_scalar(T.matmul(T.transpose(z), z))
                after = T.tog(m.call_method(o, "GetCovariance", [], st))
                eta = T.ONE if k == 0 else T.minmax("min", [T.ONE, d / T.rpow(T.const(k), g)])
                want = gapply(lambda c, a, w: gite(T.lt(T.const(k), maxiter), leaf(c + eta * (a - rate) / zz * outer(w, w)), leaf(c)), cov, alpha, w)
                run.eq("%s%s: covariance after move %d" % (sc, label, k + 1), lambda: (after, want), where, m)
                run.eq("%s%s: move %d is drawn with the current covariance" % (sc, label, k + 1),
                       lambda: (gapply(lambda c, w: A.as_scalar(T.matmul(T.transpose(w), A.inv(c), w)), cov, w), zz), where, m)
                cov = after

    fn = [f for f in prog()["functions"].values() if len(f["p"]) == 3 and f["q"] == "CholUpdateR1"]

    @run.part("rank-one update", "rank-one update of a Cholesky factor")
    def _():
        if not fn:
            raise judge.AnchorLost("rank-one update of a Cholesky factor")
        f = fn[0]
        here = "%s:%s %s" % (judge.rel(f["file"]), f["l"], f["q"])
        v = vec("v", d)
        for down in (False, True):
            m = machine(run)
            st = State()
            low, vv = ("key", ("v", "analysis", 0, "factor")), ("key", ("v", "analysis", 1, "vector"))
            st[low[1]], st[vv[1]] = leaf(A.chol(covar)), leaf(v)
            m.invoke(f, None, [low, vv, ("val", leaf(down))], st)
            r = T.tog(m.load(low, st))
            name = "rank-one %s" % ("downdate" if down else "update")
            run.eq(name, lambda: (gapply(lambda x: T.matmul(T.transpose(x), x), r), covar + (T.const(-1) if down else T.ONE) * outer(v, v)), here, m)
            run.eq(name + ": upper triangular", lambda: (gapply(lambda x: upper(x), r), T.ZERO), here, m)


def upper(x):
    """sum of the squares of the entries below the diagonal"""
    i, j = A.idx_sym(), A.idx_sym()
    return T.Sum(i, T.ZERO, d, T.Sum(j, T.ZERO, ra(i), T.sel(x, (ra(i), ra(j))) * T.sel(x, (ra(i), ra(j)))))


MODEL_CLASSES = ("CAR1", "CARp", "CARMA", "ZCAR", "ZCARMA")


def densities():
    """classes that (re)define the log-density of a parameter"""
    return [c for c in prog()["classes"] if c.startswith(("CARMA_Base<", "Parameter<")) or c in MODEL_CLASSES]


def abstract_parts():
    """classes with the methods that store and return values"""
    return [c for c in prog()["classes"] if c.startswith("Parameter<")] + [c for c in MODEL_CLASSES if c in prog()["classes"]]


def c13(run):
    run.rule("log-density kept or recorded equals the log-density function applied to the value kept or recorded (value-number congruence)",
             "no function outside construction changes only one of the two unless all its callers change both (effect analysis over the call graph)")
    run.assume("the log-density is an arbitrary function of the value")
    for cls in abstract_parts():
        scalar = cls == "Parameter<double>"
        x, x2 = (T.sym("xs"), T.sym("xs2")) if scalar else (vec("x", d), vec("x2", d))

        @run.part(cls, at(cls, "Save"))
        def _():
            m = machine(run)
            unknown_density(m, [], *densities(), shared="posterior")
            st = State()
            par = par_obj("par", cls)
            where = at(cls, "Save")
            for k, v in ((1, x), (2, x2)):
                m.call_method(par, "Save", [v], st)
                same_after(run, "%s: save %d" % (cls, k), m, par, st, v, density("posterior", v), where)
            records(run, cls, m, par, st, x, x2)

        if cls in MODEL_CLASSES:
            @run.part(cls + ": evaluation", at(cls, "LogDensity"))
            def _():
                for name, args in (("getLogDensity", None), ("getLogPrior", None), ("SetPrior", [pos("bound")]), ("SetMLE", [True]), ("LogPrior", [x2]), ("CheckPriorBounds", [x2])):
                    quiet(run, cls, name, args, x, x2)
    rules(run)
    after_moves(run)


def quiet(run, cls, name, args, x, x2):
    """evaluating or configuring a model does not change value or stored log-density"""
    m = machine(run)
    st = State()
    par = par_obj("par", cls)
    stubbed = dict(m.stubs)
    unknown_density(m, [], *densities(), shared="posterior")
    m.call_method(par, "Save", [x], st)
    m.stubs = stubbed
    try:
        m.call_method(par, name, args if args is not None else [vec("theta", d)], st)
    except (T.Opaque, judge.AnchorLost, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
        return
    same_after(run, "%s: after %s" % (cls, name), m, par, st, x, density("posterior", x), at(cls, name))


def records(run, cls, m, par, st, x, x2):
    where = at(cls, "AddToSample")
    size = T.sym("size", isint=True, nonneg=True)
    T.LOWER[size.single()] = 2
    m.call_method(par, "SetSampleSize", [size], st)
    m.call_method(par, "Save", [x], st)
    m.call_method(par, "AddToSample", [T.ZERO], st)
    m.call_method(par, "Save", [x2], st)
    m.call_method(par, "AddToSample", [T.ONE], st)
    got, dens = T.tog(m.call_method(par, "GetSamples", [], st)), T.tog(m.call_method(par, "GetLogLikes", [], st))
    for k, v in ((0, x), (1, x2)):
        i = T.const(k)
        run.eq("%s: recorded log-density %d" % (cls, k + 1), lambda: (gapply(lambda g: T.sel(g, i), dens), density("posterior", v)), where, m)
        run.eq("%s: recorded value %d" % (cls, k + 1), lambda: (gapply(lambda g: T.sel(g, i if v.scalar else (i, ":")), got), v), where, m)


def after_moves(run):
    """pairing survives every kind of move"""
    x = vec("x", d)
    pc = "Parameter<%s>" % VEC
    for sc, make in (("MetropStep<%s>" % VEC, lambda m, st, par: new(m, "MetropStep<%s>" % VEC, [pc, "Proposal", "int"], [par, Obj("prop", "Proposal<%s>" % VEC, symbolic=True, exact=False), T.const(-1)], st)),
                     ("AdaptiveMetro", lambda m, st, par: new(m, "AdaptiveMetro", [pc, "Proposal", "Mat", "double", "int"], [par, Obj("prop", "Proposal<double>", symbolic=True, exact=False), covar, rate, maxiter], st)),
                     ("GibbsStep<%s>" % VEC, lambda m, st, par: new(m, "GibbsStep<%s>" % VEC, [pc], [par], st))):
        @run.part(sc, at(sc, "DoStep"))
        def _():
            m = machine(run)
            unknown_density(m, [], *densities(), shared="posterior")
            st = State()
            par = par_obj("par", pc)
            o = make(m, st, par)
            m.call_method(par, "Save", [x], st)
            m.call_method(o, "DoStep", [], st)
            v = T.tog(m.call_method(par, "Value", [], st))
            run.eq("%s: pairing after a move" % sc, lambda: (m.call_method(par, "GetLogDensity", [], st), density("posterior", v)), at(sc, "DoStep"), m)
    sc = "ExchangeStep<arma::Col<double>, CARp>"

    @run.part(sc, at(sc, "DoStep"))
    def _():
        m = machine(run)
        unknown_density(m, [], *densities(), shared="posterior")
        st = State()
        ens, objs = ensemble(m, st, ["walker0", "walker1"])
        step = new(m, sc, ["Parameter", "int", "Ensemble", "int"], [objs[1], T.ONE, ens, T.const(-1)], st)
        for k, o in enumerate(objs):
            m.call_method(o, "Save", [vec("x%d" % k, d)], st)
        m.call_method(step, "DoStep", [], st)
        for k, o in enumerate(objs):
            v = T.tog(m.call_method(o, "Value", [], st))
            run.eq("%s: pairing of chain %d after a move" % (sc, k), lambda: (m.call_method(o, "GetLogDensity", [], st), density("posterior", v)), at(sc, "DoStep"), m)


def returned_field(e, cls, name):
    """fields a getter returns"""
    out = set()
    for c in [cls] + e.bases(cls):
        for mt in e.C.get(c, {"methods": []})["methods"]:
            if mt["n"] == name and mt["f"] in e.F:
                for n in effects.walk(e.F[mt["f"]]["s"]):
                    if n.get("k") == "ret":
                        for q in effects.walk(n):
                            if q.get("k") == "mem" and q.get("o") in e.C:
                                out.add((q["o"], q["n"]))
                return out
    return out


def rules(run):
    """writers of value or log-density"""
    e = effects.Effects(prog())
    groups = {}
    for cls in abstract_parts():
        val, den = returned_field(e, cls, "Value"), returned_field(e, cls, "GetLogDensity")
        if not val or not den:
            raise judge.AnchorLost("value and log-density of " + cls)
        groups.setdefault((frozenset(val), frozenset(den)), []).append(cls)
    vals, dens = set(), set()
    for v, q in groups:
        vals |= v
        dens |= q
    n = 0
    for u, f in sorted(e.F.items(), key=lambda k: k[1]["q"]):
        w = e.writes[u]
        hv, hd = any(k in vals for k in w), any(k in dens for k in w)
        if not (hv or hd) or f.get("ctor"):
            continue
        n += 1
        here = "%s:%s %s" % (judge.rel(f["file"]), f["l"], f["q"])
        if hv and hd:
            run.holds("%s changes both" % f["q"], True, here)
            continue
        both = e.transitive(u, vals) and e.transitive(u, dens)
        callers = [c for c in e.callers.get(u, ()) if c in e.F and c != u]
        bad = [] if both else [c for c in callers if not (e.transitive(c, vals) and e.transitive(c, dens))]
        for c in bad:
            g = e.F[c]
            run.holds("%s changes only the %s" % (g["q"], "value" if hv else "log-density"), False, "%s:%s %s" % (judge.rel(g["file"]), g["l"], g["q"]), "through %s" % f["q"])
        if not bad:
            run.holds("%s and its callers change both" % f["q"], True, here, "%d callers" % len(callers))
    if not n:
        raise judge.AnchorLost("writers of value and log-density")
