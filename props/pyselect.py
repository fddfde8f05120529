"""Maximum-likelihood fits and the choice of the order."""
from fractions import Fraction

import terms as T
import arrays as A
import interp
import judge
from core import State, Obj
from terms import leaf, ra
from world import n, t, y, yerr, vec, repo_py, spec, part
from pylayer import FILE, density, bounds_flag, num
from pyfit import call

judge.FREE |= {"short run", "fitted"}


def flat(m, v):
    return A.canon(num(m, v))


class Fits:
    """the optimiser and the short sampler runs, as the fitting code sees them"""

    def __init__(self, run):
        self.m = m = repo_py(run)
        m.unroll = 24
        self.objs = {}
        self.calls = []
        clock = ("xs", T.sym("fitclock"))

        def short(kind, width):
            def go(m, a, k, st):
                if k:
                    raise T.Opaque("keyword arguments of the compiled sampler")
                data = [flat(m, v) for v in a[2:5]]
                po, qo = [T.ungate(v) for v in a[5:7]] if kind == "carma" else (T.ONE, T.ZERO)
                c = m.read(st, clock)
                x = call("short run", [T.const(1 if kind == "carma" else 0), po, qo] + data)
                st[("xs", x)] = leaf(T.ZERO)
                self.sizes[x] = po + qo + T.const(3)
                return leaf(x)
            return go
        self.sizes = {}
        m.stubs["run_mcmc_car1"] = short("car1", 4)
        m.stubs["run_mcmc_carma"] = short("carma", None)

        def samples(m, x, a, k, st):
            w = self.sizes[x].const()
            tr = T.sym("shorttrace%d" % w, scalar=False)
            A.SHAPES[tr.single()] = (T.ONE, T.const(w))
            return leaf(tr)
        m.ext["getSamples"] = samples

        def setmle(m, x, a, k, st):
            st[("xs", x)] = leaf(T.ungate(T.gapply(lambda v: T.const(int(v)) if isinstance(v, bool) else v, a[0])))
            return leaf(None)
        m.ext["SetMLE"] = setmle
        m.ext["getLogDensity"] = lambda m, x, a, k, st: leaf(call("logdensity", [x, A.canon(num(m, a[0])), bounds_flag(m, st, x)]))

        def minimize(m, a, k, st):
            c = T.ungate(m.read(st, clock)) if clock in st else T.ZERO
            i = int(c.const())
            st[clock] = leaf(T.const(i + 1))
            o = self.objs.setdefault(i, Obj("fit%d" % i, None))
            st[("f", o, "fun")] = leaf(fun(i))
            st[("f", o, "x")] = leaf(where(i))
            st[("f", o, "message")] = leaf("")
            st[("f", o, "success")] = leaf(T.TRUE)
            self.calls.append((a, k, st.copy()))
            return leaf(o)
        m.stubs["minimize"] = minimize
        m.stubs["cpu_count"] = lambda m, a, k, st: leaf(T.const(4))

        def pooled(m, x, a, k, st):
            if a[0].v == ("builtin", "int"):
                return leaf(None)
            return m.mapped(a, st, None)
        m.ext["map"] = m.ext["imap"] = pooled
        m.ext["terminate"] = m.ext["close"] = m.ext["join"] = lambda m, x, a, k, st: leaf(None)

    def model(self, st):
        o = self.m.new("CarmaModel", [t, y, yerr], st)
        for f, v in (("time", t), ("y", y), ("ysig", yerr)):
            st[("f", o.v, f)] = leaf(v)
        return o


def fun(i):
    x = T.sym("fun.%d." % i)
    interp.SAMPLER.setdefault(x.single(), lambda mo, r: Fraction(r.randrange(-10 ** 9, 10 ** 9), 10 ** 7))     # no two fits tie
    return x


def where(i):
    return vec("fit.%d." % i, T.sym("nfit", isint=True, nonneg=True))


def field(m, g, name, st):
    return T.gapply(lambda o: T.ungate(m.read(st, ("f", o, name))), g)


def least(keys, vals):
    """the value that goes with the smallest key, for distinct keys"""
    def at(i, best, v):
        if i == len(keys):
            return leaf(v)
        return T.gite(T.lt(keys[i], best), at(i + 1, keys[i], vals[i]), at(i + 1, best, v))
    return at(1, keys[0], vals[0])


def chosen(run, name, code, keys, vals, where, m):
    run.eq(name, lambda: (code(), least(keys, vals)), where, m)


def objective(m, fit, po, qo):
    """the function handed to the optimiser, and the one expected for the given orders"""
    a, k, st = fit
    th = vec("thetafit%d" % (po + qo), T.const(po + qo + 3))
    extra = k.get("args") or (a[2] if len(a) > 2 else leaf(("tup",)))
    extra = extra.v[1:] if isinstance(extra.v, tuple) and extra.v and extra.v[0] in ("tup", "lst") else [extra.v]
    v = m.apply((k.get("fun") or a[0]).v, [(leaf(x), None, None, None) for x in [th] + list(extra)], {}, st.copy(), None)
    ref = call("short run", [T.const(int(po > 1)), T.const(po), T.const(qo), A.canon(t), A.canon(y), A.canon(yerr)])
    return v, -call("logdensity", [ref, A.canon(th), T.const(int(po > 1))])


def c20(run):
    run.rule("the returned fit, order list, criterion and stored orders equal the reference ones for explicit trial and order counts (value-number congruence, random interpretation)")
    run.assume("the optimiser's result is an arbitrary function value and position per trial", "trial counts 1 to 3, order limits 1 to 3")
    W = lambda f: FILE + f
    sp = spec()
    for ntrials in (1, 2, 3):
        for njobs in (1, 2, -1):
            what = "%d trials, %d jobs" % (ntrials, njobs)

            @run.part("best fit: " + what, W("CarmaModel.get_mle"))
            def _():
                fs, st = Fits(run), State()
                o = fs.model(st)
                g = fs.m.call_method(o, "get_mle", [T.const(2), T.ONE], st, {"ntrials": T.const(ntrials), "njobs": T.const(njobs)})
                run.eq("one fit per trial: " + what, lambda: (leaf(T.const(len(fs.calls))), leaf(T.const(ntrials))), W("CarmaModel.get_mle"), fs.m)
                ks = [fun(i) for i in range(ntrials)]
                run.eq("smallest value: " + what, lambda: (field(fs.m, g, "fun", st), T.minmax("min", tuple(ks)) if len(ks) > 1 else ks[0]), W("CarmaModel.get_mle"), fs.m)
                chosen(run, "position of the smallest value: " + what, lambda: field(fs.m, g, "x", st), ks, [where(i) for i in range(ntrials)], W("CarmaModel.get_mle"), fs.m)

    for po, qo in ((1, 0), (2, 0), (2, 1), (3, 2)):
        what = "order (%d, %d)" % (po, qo)

        @run.part("fitted function: " + what, W("_get_mle_single"))
        def _():
            fs, st = Fits(run), State()
            m = fs.m
            o = fs.model(st)
            m.call_method(o, "get_mle", [T.const(po), T.const(qo)], st, {"ntrials": T.ONE})
            (a, k, s2), = fs.calls
            run.eq("minus the log-density of the requested model and data is minimised: " + what, lambda: objective(m, fs.calls[0], po, qo), W("_carma_loglik"), m)
            b = k.get("bounds")
            if b is not None:
                run.eq("one bound per parameter: " + what, lambda: (m.builtin("len", [(b, None, None, None)], {}, s2, None), T.const(po + qo + 3)), W("_get_mle_single"), m)
            run.eq("one starting value per parameter: " + what, lambda: (T.gapply(lambda x: A.n_elem(m.num(x)), k.get("x0") or a[1]), T.const(po + qo + 3)), W("_get_mle_single"), m)

    grids = [("limit %d" % pm, {"pmax": pm}, [(a, b) for a in range(1, pm + 1) for b in range(a)]) for pm in (1, 2, 3)]
    grids += [("limits %d, %d" % (pm, qm), {"pmax": pm, "qmax": qm}, [(a, b) for a in range(1, pm + 1) for b in range(min(a, qm + 1))]) for pm, qm in ((1, 0), (2, 0), (3, 0), (3, 1))]
    grids += [("listed orders", {"pmax": 7, "pqlist": [(3, 1), (1, 0), (2, 1)]}, [(3, 1), (1, 0), (2, 1)])]
    for what, kw, pairs in grids:
        @run.part("choice of the order: " + what, W("CarmaModel.choose_order"))
        def _():
            fs, st = Fits(run), State()
            m = fs.m
            o = fs.model(st)
            args = {"ntrials": T.ONE}
            for key, v in kw.items():
                args[key] = T.const(v) if isinstance(v, int) else ("lst",) + tuple(("tup", T.const(a), T.const(b)) for a, b in v)
            g = m.call_method(o, "choose_order", [args.pop("pmax")], st, args)
            best, lst, crit = part(g, 1), part(g, 2), part(g, 3)
            A_ = W("CarmaModel.choose_order")
            run.eq("orders tried: " + what, lambda: (T.gapply(lambda l: A.explicit([x for z in l[1:] for x in z[1:]]), lst),
                   A.explicit([T.const(x) for pq in pairs for x in pq])), A_, m)
            run.eq("one fit per order: " + what, lambda: (leaf(T.const(len(fs.calls))), leaf(T.const(len(pairs)))), A_, m)
            for i, (a, b) in enumerate(pairs[:len(fs.calls)]):
                run.eq("fit %d is of order (%d, %d): %s" % (i + 1, a, b, what), lambda: objective(m, fs.calls[i], a, b), A_, m)
            ref = [T.ungate(sp.call("aicc", [fun(i), T.const(a), T.const(b), n], State(), mod="select")) for i, (a, b) in enumerate(pairs)]
            run.eq("criterion of every order: " + what, lambda: (T.gapply(lambda l: A.canon(m.num(l)), crit), A.explicit(ref)), A_, m)
            chosen(run, "value of the chosen fit: " + what, lambda: field(m, best, "fun", st), ref, [fun(i) for i in range(len(pairs))], A_, m)
            chosen(run, "position of the chosen fit: " + what, lambda: field(m, best, "x", st), ref, [where(i) for i in range(len(pairs))], A_, m)
            for f, j in (("p", 0), ("q", 1)):
                chosen(run, "stored %s: %s" % (f, what), lambda: m.field(o, f, st), ref, [T.const(pq[j]) for pq in pairs], A_, m)
