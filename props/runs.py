"""Sampling runs: schedule, temperature ladder, starting values."""
import terms as T
import arrays as A
import interp
import judge
from core import State, Obj
from terms import leaf, ra, atom, gand, gapply, gite
from world import STD, n, p, t, y, yerr, machine, spec, new, at, prog, pos, vec, part
import steps as S

size, burnin, thin = [T.sym(k, isint=True, nonneg=True) for k in ("size", "burnin", "thin")]
for k_ in (size, burnin, thin):
    interp.SAMPLER[k_.single()] = lambda m, r: r.randint(0, 3)
init = vec("init", T.sym("ninit", isint=True, nonneg=True))
W = ("world", "chains")


def rec_key(k):
    return ("world", "records", k)


def init_key(k):
    return ("world", "initialised", k)


def label(i):
    return ra(atom("str", str(i), real=True, scalar=True))


def do(i, w, ready=True):
    return ra(atom("event", "do", w, label(i), (T.const(int(ready)) if isinstance(ready, bool) else ready,), real=True, scalar=True))


def keep(k, r, s, w):
    return ra(atom("event", "keep", r, label(k), (s, w), real=True, scalar=True))


def chain_of(m, step, st):
    """parameter object a step moves"""
    return m.referent(T.tog(m.call_method(step, "GetParPointer", [], st)), st)


def drawn_by(o):
    return ra(atom("call", "StartingValue", T.sym("obj:" + o.name), (), real=True, scalar=False, size=S.d))


def set_by(o, x):
    return ra(atom("call", "SetStartingValue", T.sym("obj:" + o.name), (x,), real=True, scalar=False, size=S.d))


def observe(m, steps_of, order=None, labels=True):
    """replace what steps and parameters do by observable events; steps_of: object name -> (step number, parameter name)"""
    def handler(f):
        return lambda mm, this, args, st, node: f(this, [mm.argval(a, st) for a in args], st) or leaf(None)

    def dostep(o, args, st):
        i, k = steps_of.get(o.name, (o.name, o.name))
        if order is not None:
            if o not in order:
                order.append(o)
            par = chain_of(m, o, st)
            k = par.name if par else None
        st[W] = gapply(lambda w, ready: do(i, w, ready), m.read(st, W), st.get(init_key(k), leaf(T.ZERO)))

    def save(o, args, st):
        st[init_key(o.name)] = leaf(T.ONE)
        st[("world", "start", o.name)] = args[0]

    def keepit(o, args, st):
        st[rec_key(o.name)] = gapply(lambda r, s, w: keep(o.name, r, s if isinstance(s, T.R) else T.sym("undefined slot"), w), m.read(st, rec_key(o.name)), args[0], m.read(st, W))

    def resize(o, args, st):
        st[rec_key(o.name)] = gapply(lambda s: room(o.name, s), args[0])

    def start(mm, this, args, st, node):
        # a vector of another length is not used
        x = mm.argval(args[0], st)
        nn = gapply(A.n_elem, T.tog(m.call_method(this, "Value", [], st)))
        return gite(gapply(lambda x, k: T.eq(A.n_elem(x), k), x, nn), gapply(lambda x: set_by(this, x), x), leaf(drawn_by(this)))

    m.unroll = 12
    for c in prog()["classes"]:
        for name, f in (("DoStep", dostep), ("Save", save), ("AddToSample", keepit), ("SetSampleSize", resize)):
            m.stubs[c + "::" + name] = handler(f)
        m.stubs[c + "::StartingValue"] = lambda mm, this, args, st, node: leaf(drawn_by(this))
        m.stubs[c + "::SetStartingValue"] = start
        if labels:
            m.stubs[c + "::Label"] = lambda mm, this, args, st, node: leaf(label(this.name))


def arbitrary(m, o, st):
    """numbers the constructor leaves uninitialised may hold anything"""
    o = o.v
    for f in prog()["classes"][o.cls]["fields"]:
        key = ("f", o, o.cls, f["n"])
        if f["t"] in ("int", "unsigned int", "double", "long", "unsigned long") and key not in st:
            st[key] = leaf(T.sym("garbage " + f["n"], isint=f["t"] != "double"))


def room(k, n=size):
    return ra(atom("event", "room", label(k), (n,), real=True, scalar=True))


def schedule(w, r, k, steps):
    """(state of the chains, record of parameter k) the specified schedule ends in"""
    sp = spec()

    def sweep(mm, args, kwargs, st):
        w = args[0]
        for i in steps:
            w = gapply(lambda x, i=i: do(i, x), w)
        return w
    sp.stubs["sweep"] = sweep
    sp.stubs["keep"] = lambda mm, args, kwargs, st: gapply(lambda r, s, w: keep(k, r, s, w), *args)
    v = sp.call("schedule", [w, r, size, burnin, thin], State(), mod="runs")
    return v.v[1:]


def c12(run):
    run.rule("sequence of sweeps and recordings, as a chain of events, equals the schedule (value-number congruence, random interpretation of the chains)")
    run.assume("what a step does is an arbitrary function of the state of all chains")
    where = at("Sampler", "Run")
    for tracked in ((True,), (True, True), (False, True, True), (True, False)):
        name = "%d steps, tracked %s" % (len(tracked), [k for k, t in enumerate(tracked) if t])

        @run.part(name, where)
        def _():
            m = machine(run)
            st = State()
            pars, objs, number = [], [], {}
            prop = Obj("prop", "Proposal<double>", symbolic=True, exact=False)
            for i, t in enumerate(tracked):
                par = S.par_obj("par%d" % i, "CARp")
                m.call_method(par, "SetTracking", [t], st)
                o = new(m, "AdaptiveMetro", ["Parameter", "Proposal", "Mat", "double", "int"], [par, prop, S.covar, S.rate, S.maxiter], st, "step%d" % i)
                number["step%d" % i] = (i, par.name)
                pars.append(par)
                objs.append(o)
            observe(m, number)
            for i, par in enumerate(pars):
                st[init_key(par.name)] = leaf(T.ZERO)
                st[rec_key(par.name)] = leaf(T.sym("rec%d" % i))
            st[W] = leaf(T.sym("chains0"))
            sampler = new(m, "Sampler", ["int", "int", "int"], [size, burnin, thin], st)
            arbitrary(m, sampler, st)
            for o in objs:
                m.call_method(sampler, "AddStep", [o], st)
            m.call_method(sampler, "Run", [init], st)
            for i, (par, t) in enumerate(zip(pars, tracked)):
                w, r = schedule(T.sym("chains0"), room(par.name), par.name, range(len(tracked)))
                if not i:
                    run.eq(name + ": final state of the chains", lambda: (m.read(st, W), w), where, m)
                run.eq("%s: record of parameter %d" % (name, i), lambda: (m.read(st, rec_key(par.name)), r if t else leaf(T.sym("rec%d" % i))), where, m)
            m.call_method(sampler, "Run", [init], st)
            w1 = w
            for i, (par, t) in enumerate(zip(pars, tracked)):
                w, r = schedule(w1, room(par.name), par.name, range(len(tracked)))
                if not i:
                    run.eq(name + ": final state of the chains, second run", lambda: (m.read(st, W), w), where, m)
                if t:
                    run.eq("%s: record of parameter %d, second run" % (name, i), lambda: (m.read(st, rec_key(par.name)), r), where, m)


def same_object(run, name, m, st, a, b, where, seen):
    """every datum of object a equals that of object b"""
    if (a, b) in seen:
        return
    seen.add((a, b))
    for key in [k for k in st if k[0] == "f" and k[1] is b]:
        va, vb = st.get(("f", a) + key[2:]), st[key]
        nm = "%s: %s" % (name, key[-1])
        if va is None:
            run.holds(nm, False, where, "not set")
            continue
        la, lb = T.tog(va), T.tog(vb)
        if la.c is None and lb.c is None and isinstance(la.v, Obj) and isinstance(lb.v, Obj):
            same_object(run, nm, m, st, la.v, lb.v, where, seen)
        elif any(not isinstance(x, (T.R, bool)) for x in la.leaves() + lb.leaves()):
            continue
        else:
            run.eq(nm, lambda: (la, lb), where, m)


def changed(m, objs, step, st):
    """values of the chains after one step from unknown values: chain -> set of chains its value may come from ("new" for others)"""
    stubs, unroll = m.stubs, m.unroll
    m.stubs, m.unroll = {}, 0
    S.unknown_density(m, [], *S.densities(), shared="posterior")
    st = st.copy()
    vals = [vec("v%d" % k, S.d) for k in range(len(objs))]
    try:
        for o, v in zip(objs, vals):
            m.call_method(o, "Save", [v], st)
        m.call_method(step, "DoStep", [], st)
        out = []
        for o in objs:
            g = T.tog(m.call_method(o, "Value", [], st))
            out.append({vals.index(l) if l in vals else "new" for l in g.leaves()})
        return out
    finally:
        m.stubs, m.unroll = stubs, unroll


def c14(run):
    run.rule("chains built, steps added and chain recorded and returned for each number of walkers (exact abstract interpretation of construction; objects compared datum by datum)")
    run.assume("numbers of walkers 1 to 4", "observation times strictly increasing")
    sp = spec()
    for cls, zc, qq, walkers in (("CAR1", False, None, [1]), ("CARp", False, T.ZERO, [1, 2, 3, 4]), ("CARMA", False, T.ONE, [1, 2, 3, 4]), ("ZCAR", True, T.ZERO, [1, 2, 3, 4])):
        fname = "RunCar1Sampler" if cls == "CAR1" else "RunCarmaSampler"
        where = next(("%s:%d %s" % (judge.rel(f["file"]), f["l"], fname) for f in prog()["functions"].values() if f["q"] == fname and f.get("s")), None)
        if where is None:
            raise judge.AnchorLost(fname)
        extra = {"CAR1": [], "CARMA": [p, qq]}.get(cls, [p])
        for k in walkers:
            name = "%s, %d walkers" % (cls, k)

            @run.part(name, where)
            def _():
                m = machine(run)
                st = State()
                st[W] = leaf(T.sym("chains0"))
                order = []
                observe(m, {}, order, False)
                m.numbered = 1
                how = [] if cls == "CAR1" else [p, qq, T.const(k), T.const(int(zc))]
                r = m.invoke(m.find(fname)[0], None, [("val", leaf(x)) for x in [size, burnin, t, y, yerr] + how + [thin, init]], st)
                chains = []
                for o in order:
                    c = chain_of(m, o, st)
                    if c is None:
                        raise T.Opaque("chain moved by a step")
                    if c not in chains:
                        chains.insert(0, c)
                run.holds(name + ": one chain per walker", len(chains) == k, where, "%d chains" % len(chains))
                if len(chains) != k:
                    return
                kinds = {}
                for o in order:
                    i = chains.index(chain_of(m, o, st))
                    eff = changed(m, chains, o, st)
                    if eff == [{j} | ({"new"} if j == i else set()) for j in range(k)]:
                        kinds.setdefault("move", []).append(i)
                    elif i and eff == [{i, i - 1} if j in (i, i - 1) else {j} for j in range(k)]:
                        kinds.setdefault("swap", []).append(i)
                    else:
                        kinds.setdefault("other", []).append((i, eff))
                run.holds(name + ": every chain moves once a sweep, hottest first", kinds.get("move") == list(range(k - 1, -1, -1)), where, kinds)
                run.holds(name + ": every hot chain is exchanged with the next cooler one, hottest first", kinds.get("swap", []) == list(range(k - 1, 0, -1)), where, kinds)
                run.holds(name + ": no other step", "other" not in kinds, where, kinds)
                w, rec = schedule(T.sym("chains0"), room(chains[0].name), chains[0].name, [o.name for o in order])
                run.eq(name + ": record of the coolest chain", lambda: (m.read(st, rec_key(chains[0].name)), rec), where, m)
                for i in range(1, k):
                    run.holds("%s: chain %d is not recorded" % (name, i), rec_key(chains[i].name) not in st, where)
                bound = sp.call("prior_bound", [y], State())
                for i in range(k):
                    temp = T.exp(T.const(i) * T.log(T.const(100)) / T.const(k - 1)) if i else T.ONE
                    types = ["bool", "string"] + [STD] * 3 + ["int"] * len(extra) + ["double"]
                    ref = new(m, cls, types, [T.const(int(not i)), T.tog(m.call_method(chains[i], "Label", [], st)).v, t, y, yerr] + extra + [temp], st)
                    m.call_method(ref, "SetPrior", [bound.v], st)
                    run.holds("%s: kind of chain %d" % (name, i), chains[i].cls == cls, where, chains[i].cls)
                    same_object(run, "%s: chain %d" % (name, i), m, st, chains[i], ref.v, where, set())
                ret = m.referent(T.tog(r), st)
                if ret is None:
                    raise T.Opaque("object returned")
                run.holds(name + ": kind of the returned object", ret.cls == cls, where, ret.cls)
                same_object(run, name + ": returned object", m, st, ret, chains[0], where, set())


def around(name, nn):
    """unknown length, in the models mostly the right one or nearly so"""
    k = T.sym(name, isint=True, nonneg=True)
    interp.SAMPLER[k.single()] = lambda m, r: max(0, interp.toint(m.ev(nn, {})) + r.choice((-1, 0, 0, 1, 2)))
    return k


def cubes(g, path=()):
    """conditions (atom, truth) along each way a gate can be true"""
    if g.c is None:
        if g.v is True:
            yield path
        return
    yield from cubes(g.hi, path + ((g.c, True),))
    yield from cubes(g.lo, path + ((g.c, False),))


def density_of(a):
    return [x for x in judge.atoms_of(ra(a)) if x.op == "call" and x.args[0] == "LogDensity"]


def ends_finite(run, name, m, v, where):
    """what ended the search for a starting value implies that its log-density is finite"""
    v = T.tog(v)
    if any(a.opaque for l in v.leaves() for a in judge.atoms_of(l)):
        return run.holds(name, None, where, "value not summarised")
    d = S.density("posterior", v)
    bad = gand(m.lastpass[0], T.gnot(gapply(T.isfinite, d)))
    if bad is T.FALSE:
        return run.holds(name, True, where, "loop exit implies a finite log-density")
    calls = {l.single() for l in d.leaves()}
    for path in cubes(bad):
        about = set()
        for c, truth in path:
            if c.op == "isfinite" and c.args[0].single() in calls and not truth:
                continue
            about |= {x for x in density_of(c) if x in calls}
            if not density_of(c) and c.op == "isfinite" and yerr.single() in c.syms:
                about.add(c)
        if not about:
            return run.holds(name, False, where, "can end with a log-density that is not finite: %s" % ", ".join(("" if b else "not ") + str(c)[:80] for c, b in path[:6]))
    return run.holds(name, None, where, "condition on the log-density not understood")


def c15(run):
    run.rule("condition that ends the search for a starting value implies a finite log-density (Hoare-style exit condition of the loop)",
             "value returned for a supplied start equals the supplied start exactly when its length is right and its log-density finite")
    run.assume("the log-density is an arbitrary function of the parameter vector", "observation times strictly increasing")
    from models import MODELS, model, q
    npar = {"CAR1": T.const(4), "CARp": p + 3, "ZCAR": p + 3, "CARMA": p + q + 3, "ZCARMA": p + 4}
    for cls, extra in MODELS:
        where = at(cls, "StartingValue")

        @run.part(cls, where)
        def _():
            m = machine(run)
            st = State()
            o = model(m, cls, [t, y, yerr], extra, st)
            S.unknown_density(m, [], *S.densities(), shared="posterior")
            T.LEAN[0] = 1
            m.lastpass = [T.TRUE]
            v = m.call_method(o, "StartingValue", [], st)
            ends_finite(run, "%s: drawn starting value" % cls, m, v, where)
            run.eq("%s: length of a drawn starting value" % cls, lambda: (gapply(A.n_elem, T.tog(v)), npar[cls]), where, m)
        where = at(cls, "SetStartingValue")

        @run.part("%s: supplied start" % cls, where)
        def _():
            m = machine(run)
            st = State()
            o = model(m, cls, [t, y, yerr], extra, st)
            run.eq("%s: length of the value before the first move" % cls, lambda: (gapply(A.n_elem, T.tog(m.call_method(o, "Value", [], st))), npar[cls]), at(cls, cls), m)
            S.unknown_density(m, [], *S.densities(), shared="posterior")
            drawn = vec("drawn" + cls, npar[cls])
            for c in prog()["classes"]:
                m.stubs[c + "::StartingValue"] = lambda mm, this, args, s, node: leaf(drawn)
            T.LEAN[0] = 1
            for nn, how in ((npar[cls], "right length"), (around("ninit " + cls, npar[cls]), "any length")):
                x = vec("supplied %s %s" % (cls, how), nn)
                got = m.call_method(o, "SetStartingValue", [x], st)
                want = gite(gand(T.eq(nn, npar[cls]), gapply(T.isfinite, S.density("posterior", x))), T.tog(x), T.tog(drawn))
                run.eq("%s: supplied start of %s" % (cls, how), lambda: (got, want), where, m)
    for cls, zc, qq, k in (("CAR1", False, None, 1), ("CARp", False, T.ZERO, 3), ("CARMA", False, T.ONE, 3), ("ZCAR", True, T.ZERO, 3)):
        fname = "RunCar1Sampler" if cls == "CAR1" else "RunCarmaSampler"
        where = at("Sampler", "Run")

        @run.part("run of %s" % cls, where)
        def _():
            m = machine(run)
            st = State()
            st[W] = leaf(T.sym("chains0"))
            order = []
            observe(m, {}, order, False)
            m.numbered = 1
            how = [] if cls == "CAR1" else [p, qq, T.const(k), T.const(int(zc))]
            nn = T.const(4) if cls == "CAR1" else p + 3 + (T.ONE if cls == "CARMA" else T.ZERO)
            init = vec("init of " + cls, around("ninit of " + cls, nn))
            m.invoke(m.find(fname)[0], None, [("val", leaf(x)) for x in [size, burnin, t, y, yerr] + how + [thin, init]], st)
            chains = []
            for o in order:
                c = chain_of(m, o, st)
                if c is not None and c not in chains:
                    chains.insert(0, c)
            for i, c in enumerate(chains):
                want = gite(T.eq(A.n_elem(init), nn), T.tog(set_by(c, init)), T.tog(drawn_by(c)))
                run.eq("%s: start of chain %d" % (cls, i), lambda: (st.get(("world", "start", c.name), leaf(T.sym("never set"))), want), where, m)


def adaptation(run):
    """every adaptive step of a run adapts during burn-in only"""
    prop = Obj("prop", "Proposal<double>", symbolic=True, exact=False)
    for cls, zc, qq, k in (("CAR1", False, None, 1), ("CARMA", False, T.ONE, 2)):
        fname = "RunCar1Sampler" if cls == "CAR1" else "RunCarmaSampler"
        where = next(("%s:%d %s" % (judge.rel(f["file"]), f["l"], fname) for f in prog()["functions"].values() if f["q"] == fname and f.get("s")), None)

        @run.part("run of %s" % cls, where)
        def _():
            m = machine(run)
            st = State()
            st[W] = leaf(T.sym("chains0"))
            order = []
            observe(m, {}, order, False)
            m.numbered = 1
            how = [] if cls == "CAR1" else [p, qq, T.const(k), T.const(int(zc))]
            m.invoke(m.find(fname)[0], None, [("val", leaf(x)) for x in [size, burnin, t, y, yerr] + how + [thin, init]], st)
            for j, o in enumerate(x for x in order if "AdaptiveMetro" in m.bases(x.cls)):
                refs = [new(m, "AdaptiveMetro", ["Parameter", "Proposal", "Mat", "double", "int"], [chain_of(m, o, st), prop, S.covar, S.rate, T.sym(x, isint=True, nonneg=True)], st).v
                        for x in ("stop1", "stop2")]
                keys = [key[2:] for key in st if key[0] == "f" and key[1] is refs[0] and st[key] is not st.get(("f", refs[1]) + key[2:])]
                if not keys:
                    raise T.Opaque("adaptation period")
                for key in keys:
                    want = T.replace_atom(T.ungate(st[("f", refs[0]) + key]), T.sym("stop1", isint=True, nonneg=True).single(), burnin)
                    run.eq("run of %s: adaptation period of step %d" % (cls, j), lambda: (st[("f", o) + key], want), where, m)
