"""Random variates and proposal kernels."""
import terms as T
import arrays as A
import effects
import interp
import judge
from cxx import GENERATOR
from core import State, Obj
from terms import leaf, ra, atom, gapply, gite, gand
from world import machine, new, at, prog, pos, vec, ctor

VEC = "arma::Col<double>"
GEN = "RandomGenerator"
d = T.sym("d", isint=True, nonneg=True)


def draw(dist, *params, k=T.ZERO):
    return ra(atom("draw", dist, tuple(params), k, real=True, scalar=True))


def normals(size, k=0):
    i = A.idx_sym()
    return T.arr(i, size, draw("normal", T.ZERO, T.ONE, k=ra(i) + T.const(k)))


Z, U = draw("normal", T.ZERO, T.ONE), draw("uniform", T.ZERO, T.ONE)
a, b, s, lo, hi, mu, x = T.sym("a"), T.sym("b"), pos("s"), pos("lo"), T.sym("hi"), T.sym("mu"), T.sym("xs")
slope, dof, k = T.sym("slope"), pos("dof"), T.sym("k", isint=True, nonneg=True)
T.LOWER[k.single()] = 1
interp.SAMPLER[hi.single()] = lambda m, r: m.ev(lo, {}) + m.unit(r)


def pick(run, cls, name, types):
    """the overload of a method with the given parameter types"""
    for mt in prog()["classes"].get(cls, {"methods": []})["methods"]:
        if mt["n"] == name and len(mt["pt"]) == len(types) and all(t in u for t, u in zip(types, mt["pt"])):
            f = prog()["functions"].get(mt["f"])
            if f is not None:
                return f
    raise judge.AnchorLost("%s::%s(%s)" % (cls, name, ", ".join(types)))


def covariance(name):
    c = T.sym(name, scalar=False)
    A.SHAPES[c.single()] = (d, d)
    T.LOWER[d.single()] = 1

    def f(m, r):
        n = interp.toint(m.ev(d, {}))
        b = [[m.unit(r) * r.choice((-1, 1)) for _ in range(n)] for _ in range(n)]
        return interp.V([sum(b[i][l] * b[j][l] for l in range(n)) + (1 if i == j else 0) for i in range(n) for j in range(n)], (n, n))
    interp.SAMPLER[c.single()] = f
    return c


def laws():
    """routine, parameter types, arguments, admissible values (equal in law to the documented distribution);
    D(law, parameters) is the next draw of a law"""
    two = T.const(2)

    def power(lo, hi, c, u):
        q = c + T.ONE
        return T.rpow((T.rpow(hi, q) - T.rpow(lo, q)) * u + T.rpow(lo, q), T.ONE / q)
    N = lambda D: D("normal", T.ZERO, T.ONE)
    U = lambda D: D("uniform", T.ZERO, T.ONE)
    yield "exp", ["double"], [s], lambda D, s: [D("exponential", s), D("exponential", T.ONE) / s, -T.log(U(D)) / s, -T.log(T.ONE - U(D)) / s]
    yield "normal", ["double", "double"], [mu, s], lambda D, mu, s: [mu + s * N(D), mu - s * N(D)]
    yield "lognormal", ["double", "double"], [mu, s], lambda D, mu, s: [T.exp(mu + s * N(D)), T.exp(mu - s * N(D)), D("lognormal", mu, s)]
    yield "uniform", ["double", "double"], [lo, hi], lambda D, lo, hi: [lo + (hi - lo) * U(D), hi - (hi - lo) * U(D)]
    yield "uniform", ["int", "int"], [a, b], lambda D, a, b: [D("uniform_int", a, b), a + D("uniform_int", T.ZERO, b - a), b - D("uniform_int", T.ZERO, b - a)]
    yield "powerlaw", ["double", "double", "double"], [lo, hi, slope], lambda D, lo, hi, c: [power(lo, hi, c, U(D)), power(lo, hi, c, T.ONE - U(D))]
    yield "tdist", ["double", "double", "double"], [dof, mu, s], lambda D, dof, mu, s: [mu + s * D("student", dof), mu - s * D("student", dof)]
    yield "chisqr", ["int"], [k], lambda D, k: [D("chisq", k), D("gamma", k / two, two), two * D("gamma", k / two, T.ONE)]
    yield "scaled_inverse_chisqr", ["int", "double"], [k, s], lambda D, k, s: [k * s / D("chisq", k), k * s / D("gamma", k / two, two)]
    yield "gamma", ["double", "double"], [dof, s], lambda D, a, b: [D("gamma", a, b), b * D("gamma", a, T.ONE)]
    yield "invgamma", ["double", "double"], [dof, s], lambda D, a, b: [T.ONE / D("gamma", a, T.ONE / b), b / D("gamma", a, T.ONE)]


def next_draw(m, st):
    """draws of the laws that follow those already made in st"""
    st = st.copy()

    def D(dist, *params):
        c = m.read(st, ("rng", dist, tuple(params)))
        return gapply(lambda c: draw(dist, *params, k=c), T.tog(c)).v
    return D


def fresh(args):
    """a second set of arguments"""
    out = []
    for v in args:
        o = T.sym("second_" + str(v.single().args[0]), isint=v.isint, nonneg=v is k)
        out.append(o)
        if v.single() in A.POSITIVE:
            A.POSITIVE.add(o.single())
        if v is k:
            T.LOWER[o.single()] = 1
        if v is hi:
            interp.SAMPLER[o.single()] = lambda m, r, l=out[args.index(lo)]: m.ev(l, {}) + m.unit(r)
    return out


def c17(run):
    run.rule("value returned by each variate routine is the documented transformation of draws of the named law (value-number congruence, random interpretation)",
             "every use of a random source in the library refers to the one global generator (effect query over all call sites)")
    run.assume("the library's distribution objects produce the laws they are named after")
    for name, types, args, law in laws():
        label = name + (" (integers)" if types[0] == "int" and name == "uniform" else "")

        @run.part(label, GEN + "::" + name)
        def _():
            f = pick(run, GEN, name, types)
            here = "%s:%s %s" % (judge.rel(f["file"]), f["l"], f["q"])
            m = machine(run)
            g = Obj("gen", GEN, symbolic=True, exact=True)
            st = State()
            for which, values in (("", args), (": second draw", fresh(args))):
                D = next_draw(m, st)
                got = m.invoke(f, leaf(g), [("val", leaf(v)) for v in values], st)
                if len([q for q in judge.atoms_of(got) if q.op == "draw"]) > 1:
                    run.holds(label + which, None, here, "made from several draws")
                    continue
                run.eq_any(label + which, [lambda w=w: (got, w) for w in law(D, *values)], here, m)

    @run.part("one generator", GEN + "::SetSeed")
    def _():
        one_generator(run)

    @run.part("multivariate normal", GEN + "::normal")
    def _():
        f = pick(run, GEN, "normal", ["Mat"])
        here = "%s:%s %s" % (judge.rel(f["file"]), f["l"], f["q"])
        c = covariance("covar")
        m = machine(run)
        g = Obj("gen", GEN, symbolic=True, exact=True)
        got = m.invoke(f, leaf(g), [("val", leaf(c))], State())
        z = normals(d)
        run.eq_any("multivariate normal", [lambda: (got, T.matmul(T.transpose(A.chol(c)), z)), lambda: (got, -T.matmul(T.transpose(A.chol(c)), z))], here, m)




DENIED = {"rand", "srand", "random", "srandom", "rand_r", "drand48", "lrand48", "mrand48", "erand48", "srand48", "getrandom", "getentropy",
          "randu", "randn", "randi", "randg", "shuffle", "random_shuffle", "set_seed", "set_seed_random"}
CLOCKS = {"time", "clock", "gettimeofday", "now", "getpid", "clock_gettime"}


def site(f, n):
    return "%s:%s %s" % (judge.rel(f["file"]), n.get("l", f["l"]), f["q"])


def sources(f):
    """random sources used in a function: (name, node)"""
    alias = {p["id"] for p in f.get("p", []) if p.get("t", "").strip().endswith(("&", "*"))}
    for n in effects.walk(f.get("s")):
        if n.get("k") == "decl":
            alias |= {v.get("id") for v in n.get("a") or n.get("v") or [] if str(v.get("t") or "").strip().endswith(("&", "*"))}
    for n in effects.walk([f.get("s"), [i.get("e") for i in f.get("inits") or []]]):
        k, t = n.get("k"), str(n.get("t") or "")
        if k in ("call", "mcall") and n.get("n") in DENIED and n.get("f") not in prog()["functions"]:
            yield "library source " + (n.get("q") or n["n"]), n
        elif k == "ctor" and any("fill_class" in str(x) and "rand" in str(x) for x in n.get("at") or []):
            yield "random fill", n
        elif k == "ref" and n.get("d") == "glob" and GENERATOR.search(t) and "distribution" not in t:
            yield "generator " + n["q"], n
        elif k == "ref" and n.get("id") in alias:
            pass                          # stands for the object it was bound to, which is examined there
        elif k in ("ref", "mem") and GENERATOR.search(t) and "distribution" not in t:
            yield "generator object " + n["n"], n
        elif k == "ctor" and GENERATOR.search(str(n.get("o") or "")) and "distribution" not in str(n.get("o")):
            yield "generator made here", n


def one_generator(run):
    F = prog()["functions"]
    gens = sorted(q for q, v in prog()["vars"].items() if GENERATOR.search(v.get("t") or ""))
    if not gens:
        raise judge.AnchorLost("global generator")
    e = effects.Effects(prog())
    seeder = [f for f in F.values() if f["q"] == GEN + "::SetSeed"]
    if not seeder:
        raise judge.AnchorLost(GEN + "::SetSeed")
    m = machine(run)
    st = State()
    seed = T.sym("seed", isint=True, nonneg=True)
    here = site(seeder[0], {})
    m.invoke(seeder[0], leaf(Obj("gen", GEN, symbolic=True, exact=True)), [("val", leaf(seed))], st)
    v = st.get(("seed",))
    if v is None:
        run.holds("setting the seed reaches the generator", False, here, "the generator is not seeded")
    else:
        syms = {a for a in judge.atoms_of(v) if a.op not in judge.KNOWN or a.op == "sym"}
        run.holds("setting the seed reaches the generator", seed.single() in syms and all(a is seed.single() for a in syms), here, "state becomes %s" % judge.short(v, 100))
    main = gens[0]
    targets = {n["q"] for f in seeder for n in effects.walk(f["s"]) if n.get("k") == "ref" and n.get("d") == "glob" and n.get("q") in gens}
    if len(targets) == 1:
        main = targets.pop()
    uses = 0
    bad = []
    for f in F.values():
        for what, n in sources(f):
            uses += 1
            if what != "generator " + main:
                bad.append((what, f, n))
    run.extra["generator_uses"] = uses
    if not uses:
        raise judge.AnchorLost("uses of the generator")
    for what, f, n in bad:
        run.holds("one generator: %s in %s" % (what, f["q"]), False, site(f, n), "randomness from %s, not from the global generator" % what)
    if not bad:
        run.holds("one generator", True, "%d uses in %d functions" % (uses, len(F)), "all uses refer to one global object")
    entries = [u for u, f in F.items() if f["q"] in ("RunCarmaSampler", "RunCar1Sampler")]
    if not entries:
        raise judge.AnchorLost("sampling entry points")
    reach, todo = {}, [(u, None) for u in entries]
    while todo:
        u, via = todo.pop()
        if u in reach or u not in F:
            continue
        reach[u] = via
        todo += [(c, u) for c in e.calls.get(u, ())]
    bad = []
    for u in reach:
        f = F[u]
        for n in effects.walk(f.get("s")):
            if n.get("k") == "call" and n.get("n") in CLOCKS and n.get("f") not in F:
                bad.append(("clock", f, n))
            elif n.get("k") == "mcall" and n.get("n") == "seed" and GENERATOR.search(str(n.get("bt") or n.get("o") or "")):
                bad.append(("reseeding", f, n))
    for what, f, n in bad:
        run.holds("%s during sampling" % what, False, site(f, n), "reached from a sampling run")
    if not bad:
        run.holds("no reseeding and no clock during sampling", True, "%d functions reachable from a sampling run" % len(reach))
    run.extra["functions_reachable_from_sampling"] = len(reach)


def kernel(m, cls, types, args, st):
    return new(m, cls, types, args, st)


def c26(run):
    run.rule("proposal drawn equals the documented transformation of the draws; antisymmetric part of the reported log-density equals the kernel's (value-number congruence, random interpretation)")
    z = T.sym("zs")
    for cls, types, args, value, ratio in (
            ("NormalProposal", ["double"], [s], lambda D: [x + s * D("normal", T.ZERO, T.ONE), x - s * D("normal", T.ZERO, T.ONE)], T.ZERO),
            ("StudentProposal", ["double", "double"], [dof, s], lambda D: [x + s * D("student", dof), x - s * D("student", dof)], T.ZERO),
            ("LogNormalProposal", ["double"], [s], lambda D: [lo * T.exp(s * D("normal", T.ZERO, T.ONE)), lo * T.exp(-s * D("normal", T.ZERO, T.ONE))], T.log(hi) - T.log(lo))):
        cur, prop = (lo, hi) if cls.startswith("Log") else (x, z)

        @run.part(cls, at(cls, "Draw"))
        def _():
            m = machine(run)
            st = State()
            o = kernel(m, cls, types, args, st)
            for which in ("", ": second draw"):
                D = next_draw(m, st)
                got = m.call_method(o, "Draw", [cur], st)
                run.eq_any(cls + which, [lambda w=w: (got, w) for w in value(D)], at(cls, "Draw"), m)
            a_, b_ = m.call_method(o, "LogDensity", [cur, prop], st), m.call_method(o, "LogDensity", [prop, cur], st)
            run.eq(cls + ": correction", lambda: (gapply(lambda u, v: u - v, T.tog(a_), T.tog(b_)), ratio), at(cls, "LogDensity"), m)

    @run.part("MultiNormalProposal", at("MultiNormalProposal", "Draw"))
    def _():
        cls = "MultiNormalProposal"
        c = covariance("covar")
        v, w = vec("v", d), vec("w", d)
        m = machine(run)
        st = State()
        o = kernel(m, cls, ["Mat"], [c], st)
        L = T.transpose(A.chol(c))
        got = m.call_method(o, "Draw", [v], st)
        run.eq_any(cls, [lambda: (got, v + T.matmul(L, normals(d))), lambda: (got, v - T.matmul(L, normals(d)))], at(cls, "Draw"), m)
        again = m.call_method(o, "Draw", [w], st)
        i = A.idx_sym()
        z2 = T.arr(i, d, draw("normal", T.ZERO, T.ONE, k=ra(i) + d))
        run.eq_any(cls + ": second draw", [lambda: (again, w + T.matmul(L, z2)), lambda: (again, w - T.matmul(L, z2))], at(cls, "Draw"), m)
        a_, b_ = m.call_method(o, "LogDensity", [v, w], st), m.call_method(o, "LogDensity", [w, v], st)
        run.eq(cls + ": correction", lambda: (gapply(lambda p, q: p - q, T.tog(a_), T.tog(b_)), T.ZERO), at(cls, "LogDensity"), m)
    stretch(run)


def power(lo, hi, u):
    """density proportional to one over the square root on [lo, hi]"""
    r = T.sqrt(lo) + (T.sqrt(hi) - T.sqrt(lo)) * u
    return r * r


def stretch(run):
    import steps
    cls = "StretchProposal<CARp>"
    supp = pos("support")
    interp.SAMPLER[supp.single()] = lambda m, r: 1 + m.unit(r)
    interp.DOMAIN[supp.single()] = lambda v: v > 1
    for idx, size in ((0, 2), (1, 2), (0, 3), (1, 3), (2, 3)):
        name = "stretch move of walker %d of %d" % (idx, size)

        @run.part(name, at(cls, "Draw"))
        def _():
            m = machine(run)
            st = State()
            steps.unknown_density(m, [], *[c for c in prog()["classes"] if c.startswith(("CARMA_Base<", "Parameter<"))], shared="posterior")
            ens, objs = steps.ensemble(m, st, ["walker%d" % k for k in range(size)])
            xs = [vec("x%d" % k, d) for k in range(size)]
            for o, v in zip(objs, xs):
                m.call_method(o, "Save", [v], st)
            prop = new(m, cls, ["Ensemble", "int", "double"], [ens, T.const(idx), supp], st)
            D = next_draw(m, st)
            got = T.tog(m.call_method(prop, "Draw", [xs[idx]], st))
            us = [D("uniform", T.ZERO, T.ONE), T.ONE - D("uniform", T.ZERO, T.ONE)]
            scales = [power(T.ONE / supp, supp, u) for u in us]
            partners = list(partner(D, idx, size))

            def move(j, w):
                g = leaf(xs[-1])
                for k in reversed(range(size - 1)):
                    g = gite(T.eq(j, T.const(k)), leaf(xs[k]), g)
                return gapply(lambda o: o + w * (xs[idx] - o), g)
            run.eq_any(name, [lambda j=j, w=w: (got, move(j, w)) for j in partners for w in scales], at(cls, "Draw"), m)
            a_, b_ = T.tog(m.call_method(prop, "LogDensity", [xs[idx], got], st)), T.tog(m.call_method(prop, "LogDensity", [got, xs[idx]], st))
            i = A.idx_sym()
            near = gapply(lambda g: T.lt(T.Sum(i, T.ZERO, d, T.rabs(T.sel(g, ra(i)) - T.sel(xs[idx], ra(i)))), T.const(1) / T.const(10 ** 6)), got)
            diff = gite(near, leaf(T.ZERO), gapply(lambda u, v: u - v, a_, b_))
            run.eq_any(name + ": correction", [lambda w=w: (diff, gite(near, leaf(T.ZERO), leaf((d - T.ONE) * T.log(w)))) for w in scales], at(cls, "LogDensity"), m)


def partner(D, idx, size):
    """admissible ways of choosing uniformly among the other walkers"""
    own = T.const(idx)
    b = A.idx_sym()
    n = T.const(size)
    top = T.const(size - 1)
    c = T.first(b, T.INF, T.gnot(T.eq(draw_int(T.ZERO, top, ra(b)), own)))
    yield draw_int(T.ZERO, top, c)
    u = draw_int(T.ZERO, T.const(size - 2), T.ZERO)
    yield T.ungate(gite(T.lt(u, own), leaf(u), leaf(u + T.ONE)))
    yield T.imod(own + T.ONE + u, n)
    yield T.imod(own + draw_int(T.ONE, top, T.ZERO), n)


def draw_int(lo, hi, k):
    return ra(atom("draw", "uniform_int", (lo, hi), k, real=True, scalar=True, isint=True))
