"""Posterior summaries and information criteria."""
from fractions import Fraction

import terms as T
import arrays as A
import interp
import judge
from core import State, Obj
from terms import leaf, ra
from world import spec, repo_py
from pylayer import FILE, N, table, replace, carma_sample, num
from pyfit import call

judge.FREE |= {"autocorrelation time", "second of acor", "third of acor"}
SFILE = "src/carmcmc/samplers.py MCMCSample."


def column(x, i):
    v = A.idx_sym(N)
    return A.canon(T.arr(v, N, T.sel(x, (ra(v), T.const(i)))))


def acor(m, a, k, st):
    v = A.canon(num(m, a[0]))
    return leaf(("tup", call("autocorrelation time", [v]), call("second of acor", [v]), call("third of acor", [v])))


def holder(run, st, values):
    """a sample object holding the given values under one name"""
    m = repo_py(run)
    m.stubs["acor"] = acor
    o = m.new("MCMCSample", [], st)
    d = m.field(o, "_samples", st).v
    st[("dk", d)] = leaf(("keys", "par"))
    st[("d", d, "par")] = leaf(values)
    return m, o


def labelled(printed, word):
    """values printed after a text containing the word"""
    out = []
    for vs in printed:
        text = " ".join(v.v for v in vs if v.c is None and isinstance(v.v, str))
        if word in text.lower():
            vals = [v for v in vs if not (v.c is None and (isinstance(v.v, str) or v.v is None))]
            if vals:
                out.append(vals[-1])
    return out


def c28(run):
    run.rule("printed and returned statistics equal the reference ones, element by element (value-number congruence, random interpretation)")
    run.assume("autocorrelation time is the function of one series the acor module computes", "parameters of one to three elements", "real-valued samples")
    sp = spec()
    S = lambda f, *a: sp.call(f, list(a), State(), mod="summary")
    for width in (1, 2, 3):
        x = table("par%d columns" % width, T.const(width))
        what = "%d element%s" % (width, "s" if width > 1 else "")

        @run.part("effective number of samples, " + what, SFILE + "effective_samples")
        def _():
            st = State()
            m, o = holder(run, st, x)
            m.unroll = 4
            g = m.call_method(o, "effective_samples", ["par"], st)
            for i in range(width):
                run.eq("effective number of samples, %s, element %d" % (what, i), lambda: (T.gapply(lambda v: T.sel(m.num(v), T.const(i)), g), N / call("autocorrelation time", [column(x, i)])),
                       SFILE + "effective_samples", m)

        @run.part("printed summary, " + what, SFILE + "posterior_summaries")
        def _():
            st = State()
            m, o = holder(run, st, x)
            m.unroll = 4
            printed = []
            m.stubs["print"] = lambda m, vs, k, st: (printed.append(vs), leaf(None))[1]
            m.call_method(o, "posterior_summaries", ["par"], st)
            for word, ref in (("median", lambda c: S("median", c)), ("deviation", lambda c: S("deviation", c)), ("effective number of independent", lambda c: N / call("autocorrelation time", [c])),
                              ("68%", lambda c: S("interval", c, T.const(16), T.const(84))), ("95%", lambda c: S("interval", c, T.const(Fraction(5, 2)), T.const(Fraction(195, 2)))),
                              ("99%", lambda c: S("interval", c, T.const(Fraction(1, 2)), T.const(Fraction(199, 2))))):
                vals = labelled(printed, word)
                if not vals:
                    raise judge.AnchorLost("printed value labelled '%s'" % word)
                run.holds("%s: one %s per element" % (what, word), len(vals) == width, SFILE + "posterior_summaries", "%d values printed" % len(vals))
                for i, v in enumerate(vals[:width]):
                    if "%" in word:
                        for k in (0, 1):
                            run.eq("%s: %s interval of element %d, %s end" % (what, word, i, ("lower", "upper")[k]),
                                   lambda: (T.gapply(lambda z: m.item(z, k), v), T.gapply(lambda z: z[1 + k], ref(column(x, i)))), SFILE + "posterior_summaries", m)
                    else:
                        run.eq("%s: %s of element %d" % (what, word, i), lambda: (v, ref(column(x, i))), SFILE + "posterior_summaries", m)

    lik = table("logliks", T.ONE)

    @run.part("deviance information criterion", FILE + "CarmaSample.DIC")
    def _():
        st = State()
        m, o, _ = carma_sample(run, st)
        replace(m, o, st, loglik=lik)
        g = m.call_method(o, "DIC", [], st)
        run.eq("deviance information criterion", lambda: (T.gapply(lambda z: z if z.scalar else T.sel(z, T.ZERO), g), S("dic", column(lik, 0))), FILE + "CarmaSample.DIC", m)
