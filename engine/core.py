"""Abstract store, joins and loop summarisation shared by the C++ and Python front ends.

A program point is described by one abstract store (location -> gated value).  Branches are
joined, never enumerated; loops are replaced by closed forms: induction variables, reductions,
quantified array updates, first-exit indices and, for what is left, recurrences that are
identified up to congruence (two recurrences with equal initial values whose updates are equal
when congruent variables are identified denote the same sequence).
"""
import itertools
import os, re
import terms as T
import arrays as A
from terms import (R, G, Atom, Opaque, leaf, gite, gnode, gapply, gand, gor, gnot, TRUE, FALSE, ZERO, ONE, ra, const, atom,
                   subst, ungate, sel, store, eq, lt)

_fresh = itertools.count()


class Undef:
    def __repr__(self):
        return "undef"

    def __hash__(self):
        return 1

    def __eq__(self, o):
        return isinstance(o, Undef)


UNDEF = leaf(Undef())


class Exc:
    """a path that ended in an exception"""
    def __init__(self, what):
        self.what = what

    def __hash__(self):
        return hash(self.what)

    def __eq__(self, o):
        return isinstance(o, Exc) and o.what == self.what

    def __repr__(self):
        return "raise(%s)" % self.what


class Obj:
    """identity of an object in the abstract heap"""
    def __init__(self, name, cls=None, symbolic=False, **kw):
        self.oid = next(_fresh)
        self.name, self.cls, self.symbolic = name, cls, symbolic
        self.info = kw

    def __repr__(self):
        return "<%s:%s>" % (self.name, self.cls)


def lean(g):
    """values with many terms get a name when they are stored"""
    k = T.LEAN[0]
    if not isinstance(g, G) or not any(isinstance(l, R) and len(l.terms) > k for l in g.leaves()):
        return g
    return T.gapply(lambda x: T.let(x, k) if isinstance(x, R) else x, g)


class State(dict):
    naming = None            # names given to the values stored in chosen locations (see Naming)

    def copy(self):
        return State(self)

    def __setitem__(self, key, v):
        if State.naming is not None and key in State.naming.keys:
            v = State.naming.name(key, v)
        elif T.LEAN[0] is not None:
            v = lean(v)
        dict.__setitem__(self, key, v)


class Naming:
    """Let-bind what a pass of a loop stores in the given locations.

    Values computed later in the same pass are then expressions in the new contents of those
    locations, which exposes carried values that are functions of other carried values.
    """
    def __init__(self, keys):
        self.keys, self.val, self.n = keys, {}, 0

    def name(self, key, g):
        ls = list(g.leaves())
        if not ls or not all(isinstance(l, R) for l in ls):
            return g
        if g.c is None and g.v.single() in self.val:
            return g
        self.n += 1
        r = ungate(g)
        x = atom("mu", "named", _kname(key), self.n, real=r.real, scalar=r.scalar, isint=r.isint, size=T.size_of(r))
        d = A.dims(r)
        if not r.scalar and T.size_of(r) is None and d is not None and d[0] == "mat":
            A.SHAPES[x] = d[1:]
        self.val[x] = g
        return leaf(ra(x))


class Outs(dict):
    """kind -> (cond, state, value)"""

    def add(self, m, kind, c, st, v=None):
        if c is FALSE:
            return
        if kind not in self:
            self[kind] = (c, st, v)
            return
        c0, st0, v0 = self[kind]
        if v is not None or v0 is not None:
            nv = gite(c0, v0 if v0 is not None else leaf(None), v if v is not None else leaf(None))
        else:
            nv = None
        self[kind] = (gor(c0, c), m.merge(c0, st0, st), nv)


class Machine:
    """store operations common to both front ends"""

    def __init__(self):
        self.depth = 0
        self.notes = []
        self.trace = []

    # -- store ------------------------------------------------------------
    def default(self, key):
        """initial value of a location that was not written yet, or None"""
        if key[0] == "rng":
            return leaf(ZERO)
        if key[0] == "world":
            return leaf(T.sym("world0", scalar=True))
        return None

    def read(self, st, key):
        v = st.get(key)
        if v is None:
            v = self.default(key)
            if v is None:
                return UNDEF
        return v

    def merge(self, c, a, b):
        if a is b:
            return a
        out = State(a)
        for k, vb in b.items():
            va = a.get(k)
            if va is vb:
                continue
            if va is None:
                va = self.default(k)
                if va is None:
                    out[k] = vb
                    continue
            out[k] = gite(c, va, vb)
        for k, va in a.items():
            if k not in b:
                vb = self.default(k)
                if vb is not None and va is not vb:
                    out[k] = gite(c, va, vb)
        return out

    # -- random draws -------------------------------------------------------
    def draw(self, st, dist, params, size=None):
        """the next draw with this law: an atom identified by law, parameters and occurrence"""
        params = [T.tog(p) for p in params]

        def one(*ps):
            key = ("rng", dist, tuple(ps)) + ((size,) if size is not None else ())
            n = self.read(st, key)
            nn = ungate(n)
            isint = dist in ("uniform_int",)
            a = ra(atom("draw", dist, tuple(ps), nn, *((size,) if size is not None else ()), real=True, scalar=size is None, isint=isint,
                        size=size if isinstance(size, R) else None))
            upd.append((key, nn + ONE))
            return a
        upd = []
        v = gapply(one, *params)
        for key, n in upd:
            st[key] = leaf(n)
        return v

    # -- sequencing ---------------------------------------------------------
    def run_seq(self, stmts, st, ex):
        outs = Outs()
        outs["next"] = (TRUE, st, None)
        for s in stmts:
            if "next" not in outs:
                break
            c, cur, _ = outs.pop("next")
            o = ex(s, cur)
            for kind, (c2, s2, v2) in o.items():
                outs.add(self, kind, gand(c, c2), s2, v2)
        return outs

    # -- loops ----------------------------------------------------------------
    lastpass = None     # [condition]: summarise loops without closed form by their last pass; condition: what ended them
    unroll = 0          # loops whose tests are constants are followed exactly up to this many passes

    def run_exact(self, st, head, body, inc, post_test):
        """passes of a loop whose test is a known constant every time; None when it is not"""
        outs = Outs()
        cond = TRUE
        first = True
        for _ in range(self.unroll + 1):
            if first and post_test:
                h = TRUE
                st = st.copy()
            else:
                h, st = head(st.copy())
            first = False
            if h is FALSE:
                outs.add(self, "next", cond, st)
                return outs
            if h is not TRUE:
                return None
            nx = Outs()
            for kind, (c, s, v) in body(st).items():
                if kind in ("next", "continue"):
                    nx.add(self, "next", c, s)
                else:
                    outs.add(self, "next" if kind == "break" else kind, gand(cond, c), s, v)
            if "next" not in nx:
                return outs
            c, s, _ = nx["next"]
            cond = gand(cond, c)
            s = s.copy()
            st = inc(s) or s
        return None

    def run_loop(self, st, head, body, inc, post_test=False):
        if self.unroll:
            outs = self.run_exact(st, head, body, inc, post_test)
            if outs is not None:
                return outs
        try:
            return LoopSolver(self, st, head, body, inc, post_test).solve()
        except RecursionError:
            if os.environ.get("ENGINE_DEBUG"):
                raise
            raise Opaque("recursion")


class LoopSolver:
    def __init__(self, m, st, head, body, inc, post_test):
        self.m, self.st, self.head, self.body, self.inc, self.post = m, st, head, body, inc, post_test
        self.lid = next(_fresh)
        self.attrs = {}
        self.mu = {}

    # one abstract iteration from the generic state
    def iterate(self):
        m = self.m
        s0 = self.st.copy()
        for key, g in self.mu.items():
            s0[key] = g
        if self.post:
            h = TRUE
            s1 = s0.copy()
        else:
            h, s1 = self.head(s0.copy())
        outs = self.body(s1)
        nx = Outs()
        for kind in ("next", "continue"):
            if kind in outs:
                c, s, v = outs[kind]
                nx.add(m, "next", c, s)
        rest = {k: v for k, v in outs.items() if k not in ("next", "continue")}
        if "next" not in nx:
            return s0, h, None, None, rest
        c, s2, _ = nx["next"]
        s2 = s2.copy()
        s2 = self.inc(s2) or s2
        if self.post:
            h2, s2 = self.head(s2)
            self.posth = h2
        return s0, h, c, s2, rest

    def make_mu(self, key, init):
        ls = [l for l in init.leaves() if not isinstance(l, (Undef,))]
        at = self.attrs.get(key)
        if at is None:
            if ls and all(isinstance(l, bool) for l in ls):
                at = ("bool",)
            elif ls and all(isinstance(l, R) for l in ls):
                sizes = {T.size_of(l) for l in ls}
                at = ("num", all(l.real for l in ls), all(l.scalar for l in ls), all(l.isint for l in ls), sizes.pop() if len(sizes) == 1 else None)
            elif not ls:
                at = ("undef",)
            else:
                at = ("other",)
            self.attrs[key] = at
        if at[0] == "bool":
            return gnode(atom("mu", self.lid, "b", _kname(key), real=True, scalar=True), TRUE, FALSE)
        if at[0] == "num":
            x = atom("mu", self.lid, _kname(key), at[1:4] + (at[4] is not None,), real=at[1], scalar=at[2], isint=at[3], size=at[4])
            if not at[2] and at[4] is None and ls:
                d = A.dims(ls[0])
                if d is not None and d[0] == "mat":
                    A.SHAPES[x] = d[1:]
            return leaf(ra(x))
        if at[0] == "undef":
            return UNDEF
        return leaf(MuOther(self.lid, key))

    def weaken(self, key, upd):
        """make the generic value of a location general enough for the update; True if changed"""
        at = self.attrs[key]
        ls = [l for l in upd.leaves() if not isinstance(l, (Undef, MuOther))]
        if not ls:
            return False
        if at[0] == "num":
            if not all(isinstance(l, (R, bool)) for l in ls):
                na = ("other",)
            else:
                ls = [const(int(l)) if isinstance(l, bool) else l for l in ls]
                sizes = {T.size_of(l) for l in ls if not l.scalar}
                sz = at[4]
                if sz is not None and any(s is not sz for s in sizes):
                    sz = None
                na = ("num", at[1] and all(l.real for l in ls), at[2] and all(l.scalar for l in ls), at[3] and all(l.isint for l in ls), sz)
        elif at[0] == "bool":
            if all(isinstance(l, bool) for l in ls):
                na = at
            elif all(isinstance(l, (R, bool)) for l in ls):
                na = ("num", True, True, False, None)
            else:
                na = ("other",)
        elif at[0] == "undef":
            if all(isinstance(l, bool) for l in ls):
                na = at
            else:
                na = at
        else:
            na = at
        if na != at:
            self.attrs[key] = na
            return True
        return False

    def solve(self):
        m = self.m
        for _ in range(15):
            s0, h, c, s2, rest = self.iterate()
            if s2 is None:
                # the body never reaches the back edge: at most one pass
                outs = Outs()
                for kind, (c2, sx, v) in rest.items():
                    outs.add(m, "next" if kind == "break" else kind, gand(h, c2), sx, v)
                outs.add(m, "next", gnot(h), s0.copy())
                return outs
            changed = []
            for key, v in s2.items():
                v0 = s0.get(key)
                if v0 is None:
                    v0 = m.default(key)
                    if v0 is None:
                        continue
                if v is not v0 and key not in self.mu:
                    if key[0] == "rng" and self._depends(key):
                        continue
                    changed.append((key, v0))
            again = False
            for key, v0 in changed:
                self.mu[key] = self.make_mu(key, m.read(self.st, key))
                again = True
            for key in list(self.mu):
                v = s2.get(key)
                if v is not None and self.weaken(key, v):
                    self.mu[key] = self.make_mu(key, m.read(self.st, key))
                    again = True
            if not again:
                break
        else:
            raise Opaque("loop does not stabilise")
        self.s0, self.h, self.cnext, self.s2, self.rest = s0, h, c, s2, rest
        if m.lastpass is not None:
            try:
                return self.close()
            except Opaque:
                return self.last()
        return self.close()

    def last(self):
        """store after the last pass of a loop without closed form, started from an arbitrary store; what must hold for the loop to end there
        is added to the assumptions of the machine"""
        m = self.m
        outs = Outs()
        exits = [("next" if kd == "break" else kd, gand(self.h, c), s, v) for kd, (c, s, v) in self.rest.items()]
        if self.post:
            h0, h2, s2 = TRUE, self.posth, self.s2
        else:
            h0, s = self.head(self.st.copy())
            outs.add(m, "next", gnot(h0), s)
            h2, s2 = self.head(self.s2.copy())
        exits.append(("next", gand(gand(self.h, self.cnext), gnot(h2)), s2, None))
        left = h0
        for i, (kd, c, s, v) in enumerate(exits):
            b = TRUE if i == len(exits) - 1 else gnode(atom("sym", "exit %d of loop %d" % (i, self.lid), real=True, scalar=True), TRUE, FALSE)
            here = gand(left, b)
            m.lastpass[0] = gand(m.lastpass[0], gor(gnot(here), c))
            outs.add(m, kd, here, s, v)
            left = gand(left, gnot(b))
        return outs

    def _depends(self, key):
        def dep(x):
            if isinstance(x, (R, Atom, G)):
                return any(a.op == "mu" and a.args[0] == self.lid for a in x.syms)
            if isinstance(x, tuple):
                return any(dep(y) for y in x)
            return False
        return dep(key)

    # -- closed forms ------------------------------------------------------
    def close(self):
        m = self.m
        keys = [k for k in self.mu]
        init = {k: m.read(self.st, k) for k in keys}
        upd = {k: self.s2.get(k, self.mu[k]) for k in keys}
        # locations that turned out unchanged
        keys = [k for k in keys if upd[k] is not self.mu[k]]
        self.musym = {}
        for k in keys:
            at = self.attrs[k]
            if at[0] == "bool":
                self.musym[k] = self.mu[k].c
            elif at[0] == "num":
                self.musym[k] = self.mu[k].v.single()
        base = {}
        for k in self.mu:
            if k not in keys:
                g = self.mu[k]
                at = self.attrs[k]
                if at[0] == "bool":
                    base[g.c] = init[k]
                elif at[0] == "num":
                    base[g.v.single()] = ungate(init[k])
        self.base = base
        self.keys, self.init, self.upd = keys, init, upd
        # phase A: trip count from the induction variables alone
        kA = T.sym("k%d" % next(_fresh), isint=True, nonneg=True).single()
        clA = self.solve_vars(kA, quick=True)
        hA = subst(self.h, clA) if clA else self.h
        TA, _ = trip(hA, kA)
        kB = T.sym("k%d" % next(_fresh), isint=True, nonneg=True).single()
        if TA is not None and not T.contains_inf(TA) and not (TA.syms & set(self.musym.values())):
            T.RANGES[kB] = (ZERO, TA - ONE)
            # inside the body the trip count is at least one
        self.k = kB
        cl = self.solve_vars(kB)
        return self.finish(cl)

    def unsolved(self, x, cl):
        return [a for a in x.syms if a in self.allmu and a not in cl]

    def solve_vars(self, k, quick=False):
        kr = ra(k)
        cl = dict(self.base)
        self.allmu = set(self.musym.values())
        todo = [x for x in self.keys if x in self.musym]
        self.k0 = k
        progress = True
        self.outputs = {}
        rounds = 0
        while progress:
            progress = False
            rounds += 1
            for x in list(todo):
                a = self.musym[x]
                u = subst(self.upd[x], cl) if cl else self.upd[x]
                at = self.attrs[x]
                if at[0] == "bool":
                    f = self.solve_bool(a, u, x, k, cl)
                else:
                    f = self.solve_num(a, u, x, k, cl, quick)
                if f is not None:
                    cl[a] = f
                    todo.remove(x)
                    progress = True
            if quick:
                continue
            if not progress and todo:
                if self.solve_arrays(todo, cl, k):
                    progress = True
                elif self.solve_rec(todo, cl, k):
                    progress = True
        return cl

    def solve_bool(self, a, u, x, k, cl):
        u1 = subst(u, {a: TRUE})
        u0 = subst(u, {a: FALSE})
        if self.unsolved(u1, cl) or self.unsolved(u0, cl):
            return None
        init = T.truth(self.init[x]) if self.init[x] is not UNDEF else FALSE
        kr = ra(k)
        j = T.sym("j%d" % next(_fresh), isint=True, nonneg=True).single()
        if u0 is FALSE:
            return gand(init, T.quant("All", j, kr, subst(u1, {k: ra(j)})))
        if u1 is TRUE:
            return gor(init, T.quant("Any", j, kr, subst(u0, {k: ra(j)})))
        if u1 is u0:
            return gite(eq(kr, ZERO), init, subst(u1, {k: kr - ONE}))
        return None

    def solve_num(self, a, u, x, k, cl, quick):
        m = ra(a)
        kr = ra(k)
        init = self.init[x]
        if any(isinstance(l, Undef) for l in init.leaves()):
            init_r = None
        else:
            init_r = ungate(init)
        if not all(isinstance(l, (R, bool)) for l in u.leaves()):
            return None
        # additive
        try:
            d = gapply(lambda l: T.tor(l) - m, u)
        except Opaque:
            return None
        if init_r is None:
            return None
        if a not in d.syms and not self.unsolved(d, cl):
            dr = ungate(d)
            if k not in dr.syms:
                return init_r + dr * kr
            if quick:
                return None
            j = T.sym("j%d" % next(_fresh), isint=True, nonneg=True).single()
            return init_r + T.Sum(j, ZERO, kr, subst(dr, {k: ra(j)}))
        if quick:
            return None
        if not self.unsolved(u, cl):
            # does not depend on any carried value: the value of the previous pass
            ur = ungate(u)
            prev = subst(ur, {k: kr - ONE})
            if subst(ur, {k: const(-1)}) is init_r:
                return prev
            return ungate(gite(eq(kr, ZERO), leaf(init_r), leaf(prev)))
        # multiplicative
        if self.attrs[x][2]:
            try:
                q = gapply(lambda l: l / m, u)
            except Opaque:
                q = None
            if q is not None and a not in q.syms and not self.unsolved(q, cl) and a in u.syms:
                qr = ungate(q)
                if k not in qr.syms:
                    return init_r * T.rpow(qr, kr)
                j = T.sym("j%d" % next(_fresh), isint=True, nonneg=True).single()
                return init_r * T.Prod(j, ZERO, kr, subst(qr, {k: ra(j)}))
            # minimum / maximum
            l = u.v if u.c is None else None
            s = l.single() if isinstance(l, R) else None
            if s is not None and s.op in ("min", "max") and m in s.args[0]:
                others = [y for y in s.args[0] if y is not m]
                f = others[0] if len(others) == 1 else T.minmax(s.op, tuple(others))
                if a not in f.syms and not self.unsolved(f, cl):
                    j = T.sym("j%d" % next(_fresh), isint=True, nonneg=True).single()
                    v2, b2 = T.canon_binder(j, subst(f, {k: ra(j)}))
                    over = ra(atom("MinOver" if s.op == "min" else "MaxOver", v2, kr, b2, real=True, scalar=True, binders=(v2,)))
                    return T.minmax(s.op, (init_r, over))
        return None

    # arrays written at indices that move with the iteration --------------------
    def chain(self, u, m):
        """u as writes on top of m: list of (binders, cond, idx, val) in program order, or None"""
        out = []
        while u is not m:
            a = u.single()
            if a is None:
                return None
            if a.op == "store":
                base, i, v = a.args
                out.append(((), None, i, v))
                u = base
            elif a.op == "qupd":
                base, bnds, cond, i, v = a.args
                out.append((bnds, cond, i, v))
                u = base
            elif a.op == "append":
                base, v = a.args
                out.append(("append", None, None, v))
                u = base
            else:
                return None
        return list(reversed(out))

    def array_update(self, x, cl):
        """(write list) of the update of array location x, conditions folded into values"""
        a = self.musym[x]
        m = ra(a)
        u = subst(self.upd[x], cl) if cl else self.upd[x]
        if u.c is None:
            return self.chain(u.v, m) if isinstance(u.v, R) else None
        # gated: every leaf writes the same cells or nothing
        idxs = None
        chains = {}
        for l in u.leaves():
            if not isinstance(l, R):
                return None
            c = self.chain(l, m)
            if c is None or any(w[0] for w in c):
                return None
            chains[l] = c
            if c:
                ii = tuple(w[2] for w in c)
                if idxs is None:
                    idxs = ii
                elif idxs != ii:
                    return None
        if idxs is None:
            return None
        out = []
        for p, i in enumerate(idxs):
            g = gapply(lambda l: chains[l][p][3] if chains[l] else sel(m, i), u)
            out.append(((), None, i, ungate(g)))
        return out

    def solve_arrays(self, todo, cl, k):
        kr = ra(k)
        for x in list(todo):
            at = self.attrs[x]
            if at[0] != "num":
                continue
            a = self.musym[x]
            m = ra(a)
            ws = self.array_update(x, cl)
            if ws is None or not ws:
                continue
            if ws[0][0] == "append":
                if len(ws) == 1:
                    v = ws[0][3]
                    if a in v.syms or self.unsolved(v, cl) or self.reads_elsewhere(x, cl, todo):
                        continue
                    j = T.sym("j%d" % next(_fresh), isint=True, nonneg=True).single()
                    body = subst(v, {k: ra(j)})
                    if v.scalar:
                        cl[a] = T.concat((ungate(self.init[x]), T.arr(j, kr, body)))
                    else:
                        continue
                    todo.remove(x)
                    return True
                continue
            if len(ws) != 1:
                if not self.lanes(ws) or any(a in w[3].syms or self.unsolved(w[3], cl) or self.unsolved_idx(w[2], cl) or not self.monotone(w[2], k) for w in ws):
                    continue
                if self.reads_elsewhere(x, cl, todo):
                    continue
                out = ungate(self.init[x])
                for w in ws:
                    out = self.written(out, (), None, w[2], w[3], k, at, None)
                cl[a] = out
                todo.remove(x)
                return True
            bnds, cond, i, v = ws[0]
            if self.unsolved_idx(i, cl) or any(self.unsolved(t, cl) for b, t in bnds):
                continue
            # strictly monotone in k in some component
            if not self.monotone(i, k):
                continue
            # current-element reads
            cur = sel(m, i)
            ca = cur.single()
            if a in v.syms and ca is not None and ca.op == "sel":
                v = T.replace_atom(v, ca, sel(ungate(self.init[x]), i))
                for y in todo:
                    if y != x:
                        self.upd[y] = map_g(self.upd[y], lambda r: T.replace_atom(subst(r, cl), ca, sel(ungate(self.init[x]), i)))
            # previous-element reads
            prev_idx = subst_idx(i, {k: kr - ONE})
            pa = sel(m, prev_idx).single()
            uses_prev = pa is not None and pa.op == "sel" and not bnds and (
                (a in v.syms and T.contains_atom(v, pa)) or any(contains_g(subst(self.upd[y], cl), pa) for y in todo if y != x)
                or contains_g(subst(self.h, cl), pa) or any(contains_g(subst(cc, cl), pa) for cc, _, _ in self.rest.values()))
            if uses_prev:
                nk = ("aux", self.lid, _kname(x), "prev")
                if nk not in self.musym:
                    ymu = ra(atom("mu", self.lid, "prev", _kname(x), real=at[1], scalar=True, isint=at[3]))
                    self.musym[nk] = ymu.single()
                    self.allmu.add(ymu.single())
                    self.attrs[nk] = ("num", at[1], True, at[3], None)
                    self.mu[nk] = leaf(ymu)
                    self.init[nk] = leaf(sel(ungate(self.init[x]), subst_idx(prev_idx, {k: ZERO})))
                    v2 = T.replace_atom(v, pa, ymu)
                    self.upd[nk] = leaf(v2)
                    self.keys.append(nk)
                    todo.append(nk)
                    for y in todo:
                        if y not in (nk,):
                            self.upd[y] = map_g(self.upd[y], lambda r: T.replace_atom(subst(r, cl), pa, ymu))
                    rep = lambda g: map_g(g, lambda r: T.replace_atom(subst(r, cl), pa, ymu)) if contains_g(subst(g, cl), pa) else g
                    self.h = rep(self.h)
                    self.rest = {kk: (rep(cc), ss, vv) for kk, (cc, ss, vv) in self.rest.items()}
                    self.prevs = getattr(self, "prevs", {})
                    self.prevs[a] = (pa, ymu.single(), nk)
                    return True
            if a in v.syms or self.reads_elsewhere(x, cl, todo):
                continue
            if self.unsolved(v, cl):
                continue
            cl[a] = self.written(ungate(self.init[x]), bnds, cond, i, v, k, at, x)
            todo.remove(x)
            return True
        return False

    def written(self, base, bnds, cond, i, v, k, at, x):
        """array value at the start of pass k"""
        j = T.sym("j%d" % next(_fresh), isint=True, nonneg=True).single()
        kr = ra(k)
        nk = ("aux", self.lid, _kname(x), "prev") if x is not None else None
        if nk in self.musym and not bnds and not isinstance(i, tuple):
            # the previous-element sequence extends the written range by its initial cell
            i0 = subst_idx(subst_idx(i, {k: kr - ONE}), {k: ra(j)})
            seq = self.recval(nk, ra(j))
            if seq is not None:
                return T.qupd(base, ((j, kr + ONE),), cond, i0, seq)
        ext = self.written_named(x, i, k, base) if not bnds and cond is None and not isinstance(i, tuple) else None
        if ext is not None:
            i0 = subst_idx(subst_idx(i, {k: kr - ONE}), {k: ra(j)})
            return T.qupd(base, ((j, kr + ONE),), cond, i0, subst(ext, {k: ra(j)}))
        mm = {k: ra(j)}
        nb = ((j, kr),) + tuple((b, subst(t, mm)) for b, t in bnds)
        ii = subst_idx(i, mm)
        nb = order_binders(nb, ii)
        return T.qupd(base, nb, subst(cond, mm) if cond is not None else None, ii, subst(v, mm))

    def written_named(self, x, i, k, base):
        """the cell written before pass k as a function of the carried values at pass k, when the cell
        before the first write has that form too"""
        if not hasattr(self, "named") or not hasattr(self, "closed_of"):
            return None
        nm, s2, final = self.named
        v = self.named_update(("aux", self.lid, _kname(x), "prev"), nm, s2, final, self.base)
        if v is None:
            return None
        kr = ra(k)
        mp = {}
        for z, a in final.items():
            f = self.closed_of.get(self.musym[z])
            if f is not None:
                mp[a] = f
        if not any(a in v.syms for a in mp):
            return None
        f = subst(subst(v, {k: kr - ONE}), mp)
        f = subst(f, {a: g for a, g in self.closed_of.items() if g.syms.isdisjoint(self.allmu)}) if f.syms & self.allmu else f
        if f.syms & self.allmu or any(a in nm.val for a in f.syms):
            return None
        c0 = sel(base, subst_idx(subst_idx(i, {k: kr - ONE}), {k: ZERO}))
        if A.canon(subst(f, {k: ZERO})) is not A.canon(c0):
            return None
        return f

    def recval(self, nk, idx):
        f = self.closed_of.get(self.musym[nk]) if hasattr(self, "closed_of") else None
        if f is None:
            return None
        return subst(f, {self.k0: idx})

    def reads_elsewhere(self, x, cl, todo):
        a = self.musym[x]
        for y in todo:
            if y != x and a in subst(self.upd[y], cl).syms:
                return True
        return False

    def unsolved_idx(self, i, cl):
        if isinstance(i, tuple):
            return any(self.unsolved_idx(y, cl) for y in i if not isinstance(y, str))
        return bool(self.unsolved(i, cl))

    def monotone(self, i, k):
        comps = i if isinstance(i, tuple) else (i,)
        for c in comps:
            if isinstance(c, R) and k in c.syms:
                d = subst(c, {k: ra(k) + ONE}) - c
                dc = d.const()
                if dc is not None and dc != 0:
                    return True
                # a permutation applied to a moving position
                q = c.single()
                if q is not None and q.op == "sel" and isinstance(q.args[1], R):
                    o = q.args[0].single()
                    if o is not None and o.op in ("argsort", "argsortd") and k not in o.syms and self.monotone(q.args[1], k):
                        return True
        return False

    def lanes(self, ws):
        """writes of one pass that never meet those of another: some position is a different constant in each"""
        if any(w[0] or not isinstance(w[2], tuple) for w in ws) or len({len(w[2]) for w in ws}) != 1:
            return False
        for c in range(len(ws[0][2])):
            vals = [w[2][c].const() if isinstance(w[2][c], R) else None for w in ws]
            if None not in vals and len(set(vals)) == len(vals):
                return True
        return False

    # recurrences -------------------------------------------------------------
    def solve_rec(self, todo, cl, k):
        kr = ra(k)
        nums = [x for x in todo if self.attrs[x][0] in ("num", "bool")]
        if not nums:
            return False
        upd = {x: subst(self.upd[x], cl) for x in nums}
        # drop locations nobody reads inside the loop (pure outputs)
        read = {x: any(self.musym[x] in upd[y].syms for y in nums if y != x) or self.musym[x] in upd[x].syms for x in nums}
        hx = subst(self.h, cl)
        for x in nums:
            a = self.musym[x]
            if a in hx.syms or any(a in subst(cc, cl).syms for cc, _, _ in self.rest.values()):
                read[x] = True
        arrays = [x for x in nums if self.attrs[x][0] == "num" and not self.attrs[x][2]]
        # arrays that are only written (their cells read through 'previous' auxiliaries) come later
        wonly = [x for x in arrays if not read[x] or (self._only_self(x, nums, upd, hx))]
        outs = [x for x in nums if not read[x] and x not in wonly]
        sysv = [x for x in nums if x not in outs and x not in wonly]
        # iterate: variables read only by outputs/wonly are not part of the system
        if not sysv:
            if outs or wonly:
                return self.close_outputs(outs, wonly, upd, cl, k, todo)
            return False
        # accumulators over the system are closed afterwards as sums
        acc = []
        for x in list(sysv):
            if self.attrs[x][0] != "num" or not self.attrs[x][2]:
                continue
            a = self.musym[x]
            others = [y for y in nums if y != x and a in upd[y].syms]
            if others or a in hx.syms or any(a in subst(cc, cl).syms for cc, _, _ in self.rest.values()):
                continue
            try:
                d = gapply(lambda l: T.tor(l) - ra(a), upd[x])
            except Opaque:
                continue
            if a not in d.syms and len(sysv) > 1:
                acc.append(x)
        core = [x for x in sysv if x not in acc]
        if not core:
            return False
        # every symbol used by the core must be in the core
        inits, ups = {}, {}
        for x in core:
            if self.attrs[x][0] == "bool":
                raise Opaque("boolean recurrence")
            if any(isinstance(l, Undef) for l in self.init[x].leaves()):
                # never read before written: value of first pass unknown
                inits[x] = ra(atom("undef", real=True, scalar=True))
            else:
                inits[x] = ungate(self.init[x])
            ups[x] = ungate(upd[x])
            for a in ups[x].syms:
                if a in self.allmu and a not in cl and a not in [self.musym[y] for y in core]:
                    raise Opaque("recurrence over unsupported location")
        # hermitian matrices stay hermitian
        # derived scalars
        subs = self.eliminate(core, inits, ups, k)
        for x in subs:
            core.remove(x)
        for x, f in self.eliminate_named(core, inits, ups, k, cl).items():
            core.remove(x)
            ax = {self.musym[x]: f}
            for y in core:
                ups[y] = subst(ups[y], ax)
            subs = {y: subst(g, ax) for y, g in subs.items()}
            subs[x] = f
        ids = REC.register([(self.musym[x], inits[x], ups[x], self.attrs[x]) for x in core], k)
        self.closed_of = getattr(self, "closed_of", {})
        newcl = {}
        for x in core:
            a = self.musym[x]
            newcl[a] = REC.value(ids[a][0], kr, ids[a][1])
        for x, f in subs.items():
            newcl[self.musym[x]] = subst(f, newcl)
        for a, f in newcl.items():
            cl[a] = f
            self.closed_of[a] = f
        for x in list(core) + list(subs):
            todo.remove(x)
        return True

    def _only_self(self, x, nums, upd, hx):
        """array whose update is a single moving write and which nobody else reads"""
        a = self.musym[x]
        if a in hx.syms or any(a in upd[y].syms for y in nums if y != x):
            return False
        u = upd[x]
        if u.c is not None or not isinstance(u.v, R):
            return False
        c = self.chain(u.v, ra(a))
        if not c or len(c) != 1 or c[0][0] == "append":
            return False
        return a not in c[0][3].syms

    def close_outputs(self, outs, wonly, upd, cl, k, todo):
        kr = ra(k)
        done = False
        for x in outs:
            u = upd[x]
            if self.unsolved(u, cl):
                continue
            a = self.musym[x]
            if not all(isinstance(l, R) for l in u.leaves()):
                continue
            prev = subst(ungate(u), {k: kr - ONE})
            if any(isinstance(l, Undef) for l in self.init[x].leaves()):
                cl[a] = prev
            else:
                cl[a] = ungate(gite(eq(kr, ZERO), self.init[x], leaf(prev)))
            todo.remove(x)
            done = True
        return done

    def eliminate(self, core, inits, ups, k):
        """scalars that are a fixed combination of another carried value and the pass number"""
        out = {}
        kr = ra(k)
        for x in list(core):
            ax = self.musym[x]
            if not self.attrs[x][2]:
                continue
            for y in core:
                if y == x or y in out or not self.attrs[y][2]:
                    continue
                ay = self.musym[y]
                hit = None
                for s in (1, -1):
                    d = ups[x] - const(s) * ups[y]
                    if not (d.syms & self.allmu):
                        f = const(s) * ra(ay) + subst(d, {k: kr - ONE})
                        if inits[x] is const(s) * inits[y] + subst(d, {k: const(-1)}):
                            hit = f
                            break
                if hit is not None:
                    # never eliminate in favour of something already expressed through x
                    if any(ax in f2.syms for f2 in out.values()):
                        continue
                    out[x] = hit
                    for z in core:
                        if z != x:
                            ups[z] = subst(ups[z], {ax: hit})
                    ups[x] = subst(ups[x], {ax: hit})
                    break
            if len(core) - len(out) <= 1:
                break
        return out

    def named_pass(self, core):
        """one more abstract pass with the values stored in the carried locations let-bound"""
        keys = {x for x in core if x[0] != "aux"}
        if not keys or State.naming is not None:
            return None
        nm = State.naming = Naming(keys)
        try:
            s0, h, c, s2, rest = self.iterate()
        except (Opaque, RecursionError):
            return None
        finally:
            State.naming = None
        if s2 is None:
            return None
        final = {}
        for x in keys:
            g = s2.get(x)
            a = g.v.single() if g is not None and g.c is None and isinstance(g.v, R) else None
            if a in nm.val:
                final[x] = a
        return nm, s2, final

    def eliminate_named(self, core, inits, ups, k, cl):
        """scalars that are a function of other carried values and the pass number at every pass"""
        if not any(self.attrs[x][2] for x in core) or len(core) < 2:
            return {}
        r = self.named_pass(core)
        if r is None:
            return {}
        nm, s2, final = r
        self.named = (nm, s2, final)
        kr = ra(k)
        back = {a: ra(self.musym[x]) for x, a in final.items()}
        fin = {a: x for x, a in final.items()}
        out, pinned = {}, set()
        for x in core:
            if not self.attrs[x][2] or x in pinned:
                continue
            u = self.named_update(x, nm, s2, final, cl)
            if u is None:
                continue
            used = {a for a in u.syms if a in nm.val}
            if not used <= set(fin) or any(fin[a] == x or fin[a] in out for a in used) or u.syms & self.allmu:
                continue
            f = subst(u, {**back, k: kr - ONE})
            f0 = subst(f, {**{self.musym[y]: inits[y] for y in core}, k: ZERO})
            if A.canon(f0) is not A.canon(inits[x]):
                continue
            out[x] = f
            pinned |= {fin[a] for a in used}
        return out

    def named_update(self, x, nm, s2, final, cl):
        if x[0] == "aux":
            base = next((y for y in self.keys if y[0] != "aux" and _kname(y) == x[2]), None)
            g = s2.get(base) if base is not None else None
            if g is None or g.c is not None or not isinstance(g.v, R):
                return None
            ws = self.chain(g.v, ra(self.musym[base]))
            if not ws or len(ws) != 1 or ws[0][0]:
                return None
            v = ws[0][3]
        else:
            if x not in final:
                return None
            v = ungate(nm.val[final[x]])
        v = subst(v, cl)
        for pa, ymu, nk in getattr(self, "prevs", {}).values():
            v = T.replace_atom(v, pa, ra(ymu))
        return v

    # -- loop exit ---------------------------------------------------------------
    def finish(self, cl):
        m = self.m
        # the pass number here ranges over all naturals: the head test must not be simplified away
        k = T.sym("k%d" % next(_fresh), isint=True, nonneg=True).single()
        kr = ra(k)
        cl = {a: subst(f, {self.k: kr}) for a, f in cl.items()}
        missing = [x for x in self.keys if x in self.musym and self.musym[x] not in cl]
        for x in missing:
            # give up on this location only
            why = "loop-carried value %s" % _kname(x)
            if self.attrs[x][0] == "bool":
                cl[self.musym[x]] = gnode(atom("opaquec", next(_fresh), opaque=True), TRUE, FALSE)
            else:
                at = self.attrs[x]
                cl[self.musym[x]] = ra(atom("opaque", why, next(_fresh), opaque=True, real=at[1], scalar=at[2], isint=at[3], size=at[4]))
            m.notes.append(why)

        def at(st, idx, extra=None):
            """store st (over generic values) at pass idx"""
            out = State()
            mp = dict(cl)
            sub = {k: idx}
            for key, v in st.items():
                if key[0] == "rng" and (self._depends(key) or k in _sy(key)):
                    continue
                if v.syms and (v.syms & set(mp) or k in v.syms):
                    v = subst(subst(v, mp), sub)
                out[key] = v
            for key in self.mu:
                if self.attrs[key][0] in ("undef", "other"):
                    v = out.get(key)
                    if v is not None and any(isinstance(l, MuOther) for l in v.leaves()):
                        out[key] = leaf(T.opaque("carried reference"))
            return out

        def G_at(g, idx):
            return subst(subst(g, cl), {k: idx})

        def value_at_head(idx):
            st = self.st.copy()
            for key in self.mu:
                if key[0] == "aux":
                    continue
                if self.attrs[key][0] in ("undef", "other"):
                    # value left by the previous pass
                    u = self.s2.get(key)
                    if u is not None:
                        v = subst(subst(u, cl), {k: idx - ONE})
                        st[key] = v if not any(isinstance(l, MuOther) for l in v.leaves()) else leaf(T.opaque("carried reference"))
                    continue
                st[key] = subst(subst(self.mu[key], cl), {k: idx})
            return st

        if m.lastpass is not None and (self.post or trip(G_at(self.h, kr), k)[1] is not TRUE or self.rest):
            raise Opaque("unbounded")
        exits = {kd: (G_at(c, kr), s, v) for kd, (c, s, v) in self.rest.items()}
        hk = G_at(self.h, kr)
        if self.post:
            # do { body } while (c): one pass plus a loop on the post condition
            pk = G_at(self.posth, kr)
            if exits:
                raise Opaque("exit from a do-while loop")
            tb, rest = trip(pk, k)
            if rest is TRUE and tb is not None:
                n = tb + ONE
            else:
                n = T.first(k, tb if tb is not None else T.INF, gnot(rest)) + ONE
            outs = Outs()
            outs["next"] = (TRUE, value_at_head(n), None)
            return outs
        E = FALSE            # exits that leave the store as at the head of the pass
        other = {}
        for kd, (c, s, v) in exits.items():
            if kd == "break":
                same = all(s.get(key, self.mu[key]) is self.mu[key] for key in self.mu if key[0] != "aux")
                same = same and all(s.get(key) is not None or True for key in ())
                rngsame = all(v2 is self.st.get(key, m.default(key)) for key, v2 in s.items() if key[0] == "rng" and key not in self.mu)
                if same and rngsame:
                    E = gor(E, c)
                    continue
                # tail break: the store equals the one reached by continuing
                tail = all(s.get(key, self.mu[key]) is self.s2.get(key, self.mu[key]) for key in self.mu if key[0] != "aux")
                if tail:
                    sh = subst(c, {k: kr - ONE})
                    if subst(c, {k: const(-1)}) is FALSE:
                        # h(k-1) held when the tail test ran: c was computed under h
                        E = gor(E, sh)
                        continue
            other[kd] = (c, s, v)
        cont = gand(hk, gnot(E)) if E is not FALSE else hk
        tb, rest = trip(cont, k)
        outs = Outs()
        if not other:
            if rest is TRUE and tb is not None:
                n = tb
            else:
                n = T.first(k, tb if tb is not None else T.INF, gnot(rest))
            outs["next"] = (TRUE, value_at_head(n), None)
            return outs
        # abnormal exits
        bound = tb if tb is not None else T.INF
        ev = FALSE
        for kd, (c, s, v) in other.items():
            ev = gor(ev, c)
        if rest is TRUE:
            if tb is None:
                n = T.first(k, T.INF, ev)
                found = TRUE
            else:
                found = T.quant("Any", k, bound, ev)
                n = T.first(k, bound, ev)
            notfound_state = value_at_head(bound) if tb is not None else None
        else:
            stop = gor(gnot(rest), ev)
            ev = gand(rest, ev)
            n = T.first(k, bound, stop)
            found = gand(G_at2(ev, k, n), T.lt(n, bound) if tb is not None else TRUE)
            notfound_state = value_at_head(n)
        if found is not TRUE and notfound_state is not None:
            outs.add(m, "next", gnot(found), notfound_state)
        evn = G_at2(ev, k, n)
        many = len(other) > 1
        for kd, (c, s, v) in other.items():
            cc = gand(found, G_at2(c, k, n)) if many else found
            outs.add(m, "next" if kd == "break" else kd, cc, at(s, n), subst(subst(v, cl), {k: n}) if v is not None else None)
        return outs


def G_at2(g, k, n):
    return subst(g, {k: n})


def _sy(x):
    if isinstance(x, (R, Atom, G)):
        return x.syms
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s = s | _sy(y)
        return s
    return frozenset()


class MuOther:
    def __init__(self, lid, key):
        self.t = (lid, key)

    def __hash__(self):
        return hash(str(self.t))

    def __eq__(self, o):
        return isinstance(o, MuOther) and o.t == self.t


def _kname(key):
    return "/".join(str(getattr(x, "oid", x)) if not isinstance(x, tuple) else str(tuple(str(y) for y in x)) for x in key)


def map_g(g, f):
    """apply f to the value at each leaf and to the operands of the conditions"""
    memo = {}

    def go(n):
        if n.uid in memo:
            return memo[n.uid]
        if n.c is None:
            r = leaf(f(n.v)) if isinstance(n.v, R) else n
        else:
            c = n.c
            if c.op == "lt0":
                cc = lt(f(c.args[0]), ZERO)
            elif c.op == "eq0":
                cc = eq(f(c.args[0]), ZERO)
            elif c.op == "isfinite":
                cc = T.isfinite(f(c.args[0]))
            else:
                cc = gnode(c, TRUE, FALSE)
            r = gite(cc, go(n.hi), go(n.lo))
        memo[n.uid] = r
        return r
    return go(g)


def contains_g(g, a):
    for l in g.leaves():
        if isinstance(l, R) and T.contains_atom(l, a):
            return True
    for c in g.conds():
        if T.contains_atom(c, a):
            return True
    return False


def subst_idx(i, m):
    if isinstance(i, tuple):
        return tuple(x if isinstance(x, str) else subst_idx(x, m) for x in i)
    return subst(i, m)


def order_binders(bnds, idx):
    """binders in the order of the index components they appear in (when independent)"""
    comps = idx if isinstance(idx, tuple) else (idx,)

    def pos(b):
        for p, c in enumerate(comps):
            if isinstance(c, R) and b in c.syms:
                return p
        return 99
    ds = {b for b, t in bnds}
    if any(t.syms & ds for b, t in bnds):
        return bnds
    return tuple(sorted(bnds, key=lambda bt: pos(bt[0])))


def trip(h, k):
    """(T, rest): the loop continues at pass k iff k < T and rest; T None if unbounded"""
    kr = ra(k)
    if h is TRUE:
        return None, TRUE
    tb, rest = None, TRUE
    for cl in T.clauses(h):
        t = _bound(cl, k)
        if t is None:
            rest = gand(rest, cl)
            continue
        tb = t if tb is None else T.minmax("min", (tb, t))
    return tb, rest


def _bound(cl, k):
    if cl.c is None or cl.hi.c is not None or cl.lo.c is not None:
        return None
    pos = cl.hi is TRUE
    c = cl.c
    if c.op not in ("lt0", "eq0"):
        return None
    d = c.args[0]
    if not d.isint:
        return None
    b = subst(d, {k: ZERO})
    a = (subst(d, {k: ONE}) - b)
    if (d - b - a * ra(k)).terms:
        return None
    ac = a.const()
    if ac is None or ac == 0:
        return None
    if c.op == "lt0":
        if pos and ac > 0:               # a k + b < 0
            n = -b
            n = n if ac == 1 else T.idiv(n + const(ac - 1), const(ac))
        elif not pos and ac < 0:         # b - |a| k >= 0
            n = b + ONE if ac == -1 else T.idiv(b, const(-ac)) + ONE
        else:
            return None
    else:
        if pos or abs(ac) != 1:
            return None
        n = -b / a
        return n                         # first crossing of an exact bound
    if T.sign_of(n) in ("+", "0", "+0"):
        return n
    return T.minmax("max", (n, ZERO))


# ---------------------------------------------------------------------------------
# recurrences up to congruence

class RecTable:
    """Systems of recurrences x_i(0) = init_i, x_i(k+1) = update_i(x(k), k), up to congruence.

    Values of enclosing loops occurring free in a system become parameters p0, p1, ...
    """
    def __init__(self):
        self.vars = []       # (atom, init, update, attrs, sysid)
        self.kc = T.sym("krec", isint=True, nonneg=True).single()
        self.nsys = 0
        self.memo = {}
        self.keep = []

    def params(self, sysvars, k):
        own = {a for a, i, u, at in sysvars} | {k}
        out = set()
        for a, i, u, at in sysvars:
            for b in i.syms | u.syms:
                if b in own:
                    continue
                if b.op == "mu" or b.op == "sym" and isinstance(b.args[0], str) and LOOPSYM.match(b.args[0]):
                    out.add(b)
        return sorted(out, key=lambda b: b.uid)

    def register(self, sysvars, k):
        """sysvars: [(mu atom, init, update, attrs)] -> {mu atom: (id, params)}; congruent to known ones where possible"""
        ps = self.params(sysvars, k)
        best = None
        perms = list(itertools.permutations(ps)) if len(ps) <= 3 else [tuple(ps)]
        for perm in perms:
            ids, new, names = self.match(sysvars, k, perm)
            if best is None:
                best = (perm, ids, new, names)
            if all(v is not None for v in ids.values()):
                best = (perm, ids, new, names)
                break
        perm, ids, new, names = best
        for v in new:
            if ids[v[0]] is None:
                dup = None
                for idx, w in enumerate(self.vars):
                    if w[4] == v[4] and names[(w[0], w[4])] == names[(v[0], v[4])]:
                        dup = idx
                self.vars.append(v)
                ids[v[0]] = dup if dup is not None else len(self.vars) - 1
            else:
                self.vars.append(v)
        pr = tuple(ra(b) for b in perm)
        return {a: (rid, pr) for a, rid in ids.items()}

    def match(self, sysvars, k, perm):
        sid = self.nsys
        self.nsys += 1
        pm = {}
        for n, b in enumerate(perm):
            pm[b] = ra(atom("sym", "p%d" % n, b.real, b.scalar, b.isint, real=b.real, scalar=b.scalar, isint=b.isint, nonneg=b.nonneg, size=None))
        pm2 = dict(pm)
        pm2[k] = ra(self.kc)
        new = [(a, A.canon(subst(i, pm)), A.canon(subst(u, pm2)), at, sid) for a, i, u, at in sysvars]
        allv = self.vars + new
        # partition refinement over all recurrences seen so far
        color = {}
        for n, (a, i, u, at, s) in enumerate(allv):
            color[(a, s)] = ("i", i.uid, at[1], at[2], at[3])
        names = _rank(color)
        attrs = {(v[0], v[4]): v[3] for v in allv}
        for _ in range(50):
            nc = {}
            for a, i, u, at, s in allv:
                mp = {}
                mine = [b for b in u.syms if (b, s) in names]
                key = (u.uid, s, tuple(sorted((b.uid, names[(b, s)]) for b in mine)))
                if key in self.memo:
                    nc[(a, s)] = (names[(a, s)], self.memo[key])
                    continue
                for b in mine:
                    if True:
                        at2 = attrs[(b, s)]
                        x = atom("mu", "cls", names[(b, s)], at2[1:4] + (at2[4] is not None,), real=at2[1], scalar=at2[2], isint=at2[3], size=at2[4])
                        if b in A.SHAPES:
                            A.SHAPES[x] = A.SHAPES[b]
                        mp[b] = ra(x)
                uu = subst(u, mp) if mp else u
                nc[(a, s)] = (names[(a, s)], uu.uid)
                self.memo[key] = uu.uid
                self.keep.append((u, uu))
            n2 = _rank(nc)
            if len(set(n2.values())) == len(set(names.values())):
                break
            names = n2
        ids = {}
        for a, i, u, at, s in new:
            rep = None
            for idx, v in enumerate(self.vars):
                if names[(v[0], v[4])] == names[(a, s)]:
                    rep = idx
                    break
            ids[a] = rep
        return ids, new, names

    def psub(self, x, params):
        m = {}
        for b in x.syms:
            if b.op == "sym" and isinstance(b.args[0], str) and len(b.args) == 4 and b.args[0][0] == "p":
                m[b] = params[int(b.args[0][1:])]
        return subst(x, m) if m else x

    def value(self, rid, idx, params=()):
        a, i, u, at, s = self.vars[rid]
        c = idx.const()
        if c == 0:
            return self.psub(i, params)
        sz = at[4]
        return ra(atom("rec", rid, idx, tuple(params), real=at[1], scalar=at[2], isint=at[3], size=sz))

    def shape(self, a):
        return A.dims(self.vars[a.args[0]][1])


LOOPSYM = re.compile(r"^(k|j|o|ix|c0_|c1_|w|lb)\d+$")


def _rank(color):
    tab = {}
    out = {}
    for k, c in color.items():
        out[k] = tab.setdefault(c, len(tab))
    return out


REC = RecTable()
T.REBUILD["rec"] = lambda rid, idx, params: REC.value(rid, idx, params)
A.RECSHAPE = REC.shape
