"""Python front end: abstract evaluation of Python syntax trees into gated value numbers.

Arrays have value semantics plus explicit sharing links: binding one name to another array name (or to a
parameter) links the two locations, and an in-place write through one of them updates all linked locations.
Nothing is executed: the syntax tree is interpreted over the value-number domain.
"""
import ast
from fractions import Fraction
import terms as T
import arrays as A
from terms import (R, G, Atom, Opaque, leaf, gite, gnode, gapply, gand, gor, gnot, TRUE, FALSE, ZERO, ONE, ra, const, atom, subst, ungate, sel,
                   eq, lt)
from core import Machine, Obj, Outs, State, Undef, UNDEF, MuOther

EMPTY = T.fill(ZERO, ZERO)
NP_NAMES = {"numpy"}
PURE_EXT = {"Predict", "getLogDensity", "getLogPrior", "GetLogLikes", "getSamples", "GetMean", "GetVar", "GetMeanSvec", "GetVarSvec"}
PLAIN1 = {"exp", "log", "sqrt", "sin", "cos", "tan", "floor", "ceil", "log10", "log2", "log1p", "expm1", "tanh", "sinh", "cosh", "square", "arctan"}


class Frame:
    n = 0

    def __init__(self, fn, mod, parent=None):
        Frame.n += 1
        self.fid = Frame.n
        self.fn, self.mod, self.parent = fn, mod, parent
        self.names = {}


class Fn:
    """a function value"""
    def __init__(self, node, mod, cls=None, frame=None):
        self.node, self.mod, self.cls, self.frame = node, mod, cls, frame


def fn_hashable(x):
    return x


class Py(Machine):
    def __init__(self, modules):
        """modules: name -> (path, ast.Module)"""
        Machine.__init__(self)
        self.mods = modules
        self.table = {}
        self.classes = {}
        self.origin = {}
        self.inlined = set()
        self.shown = []           # values handed to plotting functions
        self.externals = set()
        self.sites = 0
        self.frame = None
        self.objs = {}
        self.deadline = None
        self.stubs = {}          # function name -> handler(machine, args, kwargs, st)
        self.ext = {}            # method of a compiled object -> handler(machine, object, args, kwargs, st)
        self.mx, self.dt = False, None
        self.events = 0
        for mn, (path, tree) in modules.items():
            tb = self.table[mn] = {}
            for s in tree.body:
                if isinstance(s, ast.FunctionDef):
                    tb[s.name] = ("fn", Fn(s, mn))
                elif isinstance(s, ast.ClassDef):
                    ci = {"name": s.name, "mod": mn, "bases": [self.dotted(b) for b in s.bases], "methods": {}, "node": s}
                    for t in s.body:
                        if isinstance(t, ast.FunctionDef):
                            ci["methods"][t.name] = Fn(t, mn, s.name)
                    self.classes[s.name] = ci
                    tb[s.name] = ("cls", s.name)
                elif isinstance(s, ast.Import):
                    for al in s.names:
                        if al.asname:
                            tb[al.asname] = ("mod", al.name)
                        else:
                            top = al.name.split(".")[0]
                            tb[top] = ("mod", top)
                elif isinstance(s, ast.ImportFrom):
                    base = ("." * s.level) + (s.module or "")
                    for al in s.names:
                        tb[al.asname or al.name] = ("imp", base, al.name)
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    tb[s.targets[0].id] = ("const", s.value)

    # -- structure ---------------------------------------------------------------
    def dotted(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            return self.dotted(e.value) + "." + e.attr
        return "?"

    def mro(self, cls):
        out = []
        while cls and cls.split(".")[-1] in self.classes:
            c = cls.split(".")[-1]
            if c in out:
                break
            out.append(c)
            bs = self.classes[c]["bases"]
            cls = bs[0] if bs else None
        return out

    def lookup_method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in self.classes[c]["methods"]:
                return self.classes[c]["methods"][name]
        return None

    def func(self, name, mod=None):
        for mn, tb in self.table.items():
            if (mod is None or mn == mod) and name in tb and tb[name][0] == "fn":
                return tb[name][1]
        return None

    # -- store ---------------------------------------------------------------------
    def default(self, key):
        v = Machine.default(self, key)
        if v is not None:
            return v
        if key[0] == "xs":
            return leaf(T.sym("fresh"))
        if key[0] in ("share", "mt", "dt"):
            return leaf(None)
        return self.objs.get(key)

    def flags(self, key, st):
        m, d = self.read(st, ("mt", key)), self.read(st, ("dt", key))
        mv = m.v if m.c is None and not isinstance(m.v, (Undef, MuOther)) else None
        dv = d.v if d.c is None and not isinstance(d.v, (Undef, MuOther)) else None
        return bool(mv), dv

    def bind(self, key, v, st, mx=False, dt=None, share=None):
        """rebinding of a location"""
        for k in list(st):
            if k[0] == "share" and st[k].c is None and st[k].v == ("ref", key):
                st[k] = leaf(None)
        st[key] = v
        for nm, val in (("mt", True if mx else None), ("dt", dt)):
            kk = (nm, key)
            if val is not None or kk in st:
                st[kk] = leaf(val)
        if share is not None and share != key:
            st[("share", key)] = leaf(("ref", share))
        elif ("share", key) in st:
            st[("share", key)] = leaf(None)
        self.note_origin(v)

    def root(self, key, st):
        for _ in range(20):
            s = st.get(("share", key))
            if s is None or s.c is not None or not isinstance(s.v, tuple):
                return key
            key = s.v[1]
        return key

    def write_inplace(self, key, v, st):
        r = self.root(key, st)
        st[key] = v
        self.note_origin(v)
        if r != key:
            self.write_key(r, v, st)
        for k in list(st):
            if k[0] == "share" and k[1] != key and st[k].c is None and isinstance(st[k].v, tuple) and self.root(k[1], st) == r:
                self.write_key(k[1], v, st)

    def write_key(self, key, v, st):
        st[key] = v

    def note_origin(self, v):
        if self.frame is None:
            return
        for l in v.leaves():
            if isinstance(l, R) and l.uid not in self.origin:
                self.origin[l.uid] = (self.mods[self.frame.mod][0], getattr(self, "line", 0), self.frame.fn)

    # -- invocation -----------------------------------------------------------------
    def call_fn(self, fn, args, kwargs, st, selfobj=None):
        """args: list of (G, mx, dt, key or None)"""
        node = fn.node
        if self.depth > 40:
            raise Opaque("recursion in %s" % getattr(node, "name", "lambda"))
        name = getattr(node, "name", "<lambda>")
        self.inlined.add((fn.mod, (fn.cls + "." if fn.cls else "") + name, node.lineno))
        old, oldline = self.frame, getattr(self, "line", 0)
        fr = Frame((fn.cls + "." if fn.cls else "") + name, fn.mod, fn.frame)
        self.depth += 1
        self.frame = fr
        try:
            a = node.args
            params = [p.arg for p in a.posonlyargs + a.args]
            vals = list(args)
            if selfobj is not None:
                vals = [(selfobj, False, None, None)] + vals
            defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                params.append(p.arg)
                if d is not None:
                    defaults[p.arg] = d
            bound = {}
            npos = len(a.posonlyargs) + len(a.args)
            for p, v in zip(params[:npos], vals):
                bound[p] = v
            if a.vararg:
                rest = [v[0] for v in vals[npos:]]
                bound[a.vararg.arg] = (gapply(lambda *xs: ("tup",) + xs, *rest) if rest else leaf(("tup",)), False, None, None)
            elif len(vals) > npos:
                raise Opaque("too many arguments to %s" % name)
            for k, v in kwargs.items():
                bound[k] = v
            for p in params:
                if p not in bound:
                    if p not in defaults:
                        raise Opaque("missing argument %s of %s" % (p, name))
                    self.line = node.lineno
                    v = self.ev(defaults[p], st)
                    bound[p] = (v, self.mx, self.dt, None)
            for p, (v, mx, dt, key) in bound.items():
                fr.names[p] = True
                self.bind(("pv", fr.fid, p), v, st, mx, dt, key)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, st)
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    fr.names[x.id] = True
                elif isinstance(x, (ast.FunctionDef,)) and x is not node:
                    fr.names[x.name] = True
            outs = self.run_seq(node.body, st.copy(), self.ex)
            res = Outs()
            for kind in ("ret", "next"):
                if kind in outs:
                    c, s, v = outs[kind]
                    res.add(self, "ret", c, s, v if v is not None else leaf(None))
            if "ret" not in res:
                raise Opaque("%s never returns" % name)
            c, s, v = res["ret"]
            mx, dt = False, None
            if self.retflags:
                mx, dt = self.retflags.get(fr.fid, (False, None))
            # propagate through sharing to the callers' locations happened at each write
            st.clear()
            st.update(s)
            if not any(isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not node for x in ast.walk(node)):
                self.drop_frame(fr.fid, st)
            self.mx, self.dt = mx, dt
            return v
        finally:
            self.depth -= 1
            self.frame = old
            self.line = oldline

    retflags = {}

    def drop_frame(self, fid, st):
        """forget the locals of a finished call that nothing else refers to"""
        mine = lambda k: isinstance(k, tuple) and len(k) > 1 and k[:2] == ("pv", fid)
        held = set()
        for k, v in st.items():
            if k[0] == "share" and not mine(k[1]):
                for l in v.leaves():
                    if isinstance(l, tuple) and l and l[0] == "ref" and mine(l[1]):
                        held.add(l[1])
        if held:
            return
        for k in [k for k in st if mine(k) or k[0] in ("share", "mt", "dt") and mine(k[1])]:
            del st[k]

    def construct(self, cls, args, kwargs, st):
        o = Obj(cls.lower(), cls)
        init = self.lookup_method(cls, "__init__")
        if init is not None:
            self.call_fn(init, args, kwargs, st, leaf(o))
        return leaf(o)

    def new(self, cls, args, st, kwargs=None):
        """client-style construction"""
        if self.lookup_method(cls, "__init__") is None:
            raise KeyError(cls)
        return self.construct(cls, [self.client(a, st) for a in args], {k: self.client(v, st) for k, v in (kwargs or {}).items()}, st)

    def field(self, obj, name, st):
        """attribute of an object, for clients"""
        return T.tog(self.getattr(obj.v, name, st))

    def call_method(self, obj, name, args, st, kwargs=None):
        """client-style call with plain values"""
        o = obj.v
        fn = self.lookup_method(o.cls, name)
        if fn is None:
            raise KeyError(name)
        return self.call_fn(fn, [self.client(a, st) for a in args], {k: self.client(v, st) for k, v in (kwargs or {}).items()}, st, obj)

    def call(self, name, args, st, kwargs=None, mod=None):
        fn = self.func(name, mod)
        if fn is None:
            raise KeyError(name)
        return self.call_fn(fn, [self.client(a, st) for a in args], {k: self.client(v, st) for k, v in (kwargs or {}).items()}, st)

    def client(self, a, st):
        if not isinstance(a, G):
            a = leaf(a)
        return (a, False, None, None)

    # -- statements -------------------------------------------------------------------
    def ex(self, s, st):
        import time
        if self.deadline and time.time() > self.deadline:
            raise Opaque("time limit")
        self.line = getattr(s, "lineno", 0)
        h = getattr(self, "s_" + type(s).__name__, None)
        if h is None:
            raise Opaque("statement %s" % type(s).__name__)
        return h(s, st)

    def nxt(self, st):
        o = Outs()
        o["next"] = (TRUE, st, None)
        return o

    def s_Pass(self, s, st):
        return self.nxt(st)

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Assert = s_Pass

    def s_Expr(self, s, st):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, st)
        return self.nxt(st)

    def s_FunctionDef(self, s, st):
        fn = Fn(s, self.frame.mod, None, self.frame)
        st[("pv", self.frame.fid, s.name)] = leaf(("fn", fn))
        return self.nxt(st)

    def s_Assign(self, s, st):
        # parallel tuple assignment evaluates the right side first
        v = self.ev(s.value, st)
        mx, dt = self.mx, self.dt
        share = self.loc(s.value, st) if isinstance(s.value, (ast.Name, ast.Attribute, ast.Subscript)) else None
        for t in s.targets:
            self.assign(t, v, st, mx, dt, share)
        return self.nxt(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            self.assign(s.target, v, st, self.mx, self.dt, None)
        return self.nxt(st)

    def s_AugAssign(self, s, st):
        op = s.op
        cur = self.ev(s.target, st)
        mx0, dt0 = self.mx, self.dt
        y = self.ev(s.value, st)
        mx1 = self.mx
        v = self.listop(op, cur, y, dt0, self.dt)
        if v is None:
            v = self.binop(op, cur, y, mx0, mx1, st, "c" in (dt0, self.dt))
        arrays = any(isinstance(l, R) and not l.scalar for l in cur.leaves())
        lst = any(isinstance(l, tuple) and l and l[0] == "lst" for l in cur.leaves())
        if isinstance(s.target, ast.Subscript):
            self.assign(s.target, v, st, mx0 or mx1, dt0, None)
            return self.nxt(st)
        key = self.loc(s.target, st)
        if arrays or lst:
            if dt0 == "f":
                v = gapply(lambda x: T.real(x) if isinstance(x, R) else x, v)
            self.write_inplace(key, v, st)
        else:
            self.bind(key, v, st, mx0 or mx1, None)
        return self.nxt(st)

    def assign(self, t, v, st, mx=False, dt=None, share=None):
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    raise Opaque("starred target")
                self.assign(x, gapply(lambda y: self.item(y, i, n), v), st, mx if False else False, None)
            return
        if isinstance(t, (ast.Name, ast.Attribute)):
            key = self.loc(t, st)
            arr = any(isinstance(l, R) and not l.scalar for l in v.leaves())
            self.bind(key, v, st, mx, dt, share if arr else None)
            return
        if isinstance(t, ast.Subscript):
            self.assign_item(t, v, st)
            return
        raise Opaque("target %s" % type(t).__name__)

    def item(self, y, i, n=None):
        if isinstance(y, tuple) and y and y[0] in ("tup", "lst"):
            return y[1 + i] if i >= 0 else y[i]
        if isinstance(y, tuple) and y and y[0] == "pair":
            return y[1 + i]
        if isinstance(y, R):
            if not y.scalar:
                if A.dims(y) is not None and A.dims(y)[0] == "mat":
                    return sel(y, (const(i), ":"))
                return sel(y, const(i))
            return ra(atom("item", y, const(i), real=True, scalar=True))
        raise Opaque("item of %r" % (y,))

    def assign_item(self, t, v, st):
        chain = []
        e = t
        while isinstance(e, ast.Subscript):
            base = e.value
            if isinstance(base, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
                if self.is_dict(base, st):
                    break
            chain.append(e.slice)
            e = base
        if isinstance(e, ast.Subscript):        # dictionary element
            key = self.dict_key(e, st)
        else:
            key = self.loc(e, st)
        if not chain:
            mx, dt = False, None
            self.bind(key, v, st, mx, dt)
            o, kn = key[1], key[2]
            ks = self.read(st, ("dk", o))
            ks = ks.v if ks is not UNDEF and ks.c is None and isinstance(ks.v, tuple) else ()
            if kn not in ks:
                st[("dk", o)] = leaf(tuple(ks) + (kn,))
            return
        cur = self.read(st, key)
        mx, dt = self.flags(key, st)
        if dt == "f":
            v = gapply(lambda x: T.real(x) if isinstance(x, R) else x, v)
        idx = [self.index(c, st) for c in reversed(chain)]
        if len(idx) == 2 and not isinstance(idx[0], tuple) and not isinstance(idx[1], tuple):
            idx = [(idx[0], idx[1])]
        if len(idx) != 1:
            raise Opaque("nested item store")
        i = idx[0]

        def f(x, y):
            if isinstance(x, tuple) and x and x[0] == "lst":
                c = i.v.const() if isinstance(i, G) and i.c is None and isinstance(i.v, R) else None
                if c is None:
                    raise Opaque("symbolic store into a list")
                x = list(x)
                x[1 + int(c)] = y
                return tuple(x)
            return self.store_index(self.num(x), i, self.num(y))
        self.write_inplace(key, gapply(f, cur, v), st)

    # subscripts ----------------------------------------------------------------------------
    # an evaluated index is G | ("slice", lo, hi, step) with G-or-None parts | tuple of those | "newaxis"
    def index(self, e, st):
        if isinstance(e, ast.Tuple):
            return tuple(self.index(x, st) for x in e.elts)
        if isinstance(e, ast.Slice):
            return ("slice", *[self.ev(x, st) if x is not None else None for x in (e.lower, e.upper, e.step)])
        v = self.ev(e, st)
        return v

    def as_one(self, g, why="index"):
        """gated scalar as one value"""
        if g.c is None:
            return g.v if not isinstance(g.v, bool) else const(int(g.v))
        return ungate(g)

    def pos(self, i, n):
        """python index to offset from the start"""
        c = i.const()
        if c is not None and c < 0:
            return n + i
        return i

    def slice_bounds(self, s, n):
        lo, hi, step = s[1:]
        stp = self.as_one(step) if step is not None else ONE
        sc = stp.const() if isinstance(stp, R) else None
        if sc is None:
            raise Opaque("symbolic slice step")
        if sc == -1 and lo is None and hi is None:
            return None
        if sc != 1:
            raise Opaque("strided slice")
        l = self.pos(self.as_one(lo), n) if lo is not None and lo.v is not None else ZERO
        h = self.pos(self.as_one(hi), n) if hi is not None and hi.v is not None else n
        return l, h

    def is_full(self, s):
        return isinstance(s, tuple) and s and s[0] == "slice" and all(x is None or (isinstance(x, G) and x.v is None) for x in s[1:3]) and (s[3] is None or s[3].v is None)

    def getitem(self, x, i, st):
        if isinstance(x, tuple) and x and x[0] in ("tup", "lst", "pair"):
            if isinstance(i, tuple) and i[0] == "slice":
                lo, hi, step = i[1:]
                def cc(z, d):
                    if z is None or z.v is None:
                        return d
                    c = z.v.const()
                    if c is None:
                        raise Opaque("symbolic slice of a tuple")
                    return int(c)
                items = x[1:][cc(lo, None):cc(hi, None):cc(step, None)]
                return (x[0],) + tuple(items)
            v = self.as_one(i)
            c = v.const() if isinstance(v, R) else None
            if c is None:
                if all(isinstance(y, R) and y.scalar for y in x[1:]) and len(x) > 1:
                    return sel(A.explicit(x[1:]), v)
                if isinstance(v, R) and 1 < len(x) < 10:
                    g = T.tog(x[-1])
                    for k in range(len(x) - 3, -1, -1):
                        g = T.gite(eq(v, const(k)), T.tog(x[k + 1]), g)
                    return g
                raise Opaque("symbolic index into a tuple")
            c = int(c)
            y = x[1:]
            return y[c]
        if isinstance(x, Obj) and x.info.get("dict"):
            raise Opaque("dict read")
        if not isinstance(x, R):
            raise Opaque("subscript of %r" % (x,))
        if x.scalar:
            a = x.single()
            if a is not None and a.op in ("xcall", "call", "extobj", "item", "attr"):
                return ra(atom("item", x, self.as_one(i), real=a.real, scalar=True))
            raise Opaque("subscript of a scalar")
        d = A.dims(x)
        mat = d is not None and d[0] == "mat"
        if isinstance(i, tuple) and i and i[0] == "slice":
            if mat:
                return self.getitem(x, (i, ("slice", None, None, None)), st)
            n = A.n_elem(x)
            b = self.slice_bounds(i, n)
            if b is None:
                v = A.idx_sym(n)
                return T.arr(v, n, sel(x, n - ONE - ra(v)))
            return T.slice_(x, b[0], b[1])
        if isinstance(i, tuple):
            if any(isinstance(y, G) and y.c is None and y.v == "newaxis" for y in i):
                if len(i) == 2 and self.is_full(i[0]):
                    n = A.n_elem(x)
                    v, w = A.idx_sym(n), A.idx_sym(ONE)
                    return arr2_of(n, ONE, lambda p, q: sel(x, p))
                if len(i) == 2 and self.is_full(i[1]):
                    n = A.n_elem(x)
                    return arr2_of(ONE, n, lambda p, q: sel(x, q))
                raise Opaque("newaxis")
            if len(i) != 2:
                raise Opaque("index of rank %d" % len(i))
            nr, nc = (d[1], d[2]) if mat else (A.nrows(x), A.ncols(x))
            r, c = i
            fr, fc = self.is_full(r), self.is_full(c)
            if isinstance(r, G) and isinstance(c, G):
                rv, cv = self.as_one(r), self.as_one(c)
                if not rv.scalar or not cv.scalar:
                    raise Opaque("fancy index")
                return sel(x, (self.pos(rv, nr), self.pos(cv, nc)))
            if fr and isinstance(c, G):
                cv = self.as_one(c)
                if not cv.scalar:
                    raise Opaque("fancy index")
                return self.column(x, self.pos(cv, nc), nr)
            if fc and isinstance(r, G):
                rv = self.as_one(r)
                if rv.scalar:
                    return self.rowof(x, self.pos(rv, nr), nc)
                raise Opaque("fancy index")
            if fr and fc:
                return x
            rb = (ZERO, nr) if fr else self.slice_bounds(r, nr) if isinstance(r, tuple) else None
            cb = (ZERO, nc) if fc else self.slice_bounds(c, nc) if isinstance(c, tuple) else None
            if isinstance(r, tuple) and isinstance(c, tuple) and rb and cb:
                return arr2_of(rb[1] - rb[0], cb[1] - cb[0], lambda p, q: sel(x, (p + rb[0], q + cb[0])))
            if isinstance(r, G) and cb:
                return T.slice_(self.rowof(x, self.pos(self.as_one(r), nr), nc), *cb)
            if isinstance(c, G) and rb:
                return T.slice_(self.column(x, self.pos(self.as_one(c), nc), nr), *rb)
            raise Opaque("index")
        v = self.as_one(i)
        if not isinstance(v, R):
            raise Opaque("index %r" % (v,))
        if not v.scalar:
            a = v.single()
            if mat:
                n = A.n_elem(v)
                return arr2_of(n, d[2], lambda p, q: sel(x, (sel(v, p), q)))
            return A.gather(x, v)
        if mat:
            return self.rowof(x, self.pos(v, d[1]), d[2])
        return sel(x, self.pos(v, A.n_elem(x)))

    def column(self, x, j, nr):
        v = A.idx_sym(nr)
        return T.arr(v, nr, sel(x, (ra(v), j)))

    def rowof(self, x, i, nc):
        v = A.idx_sym(nc)
        return T.arr(v, nc, sel(x, (i, ra(v))))

    def store_index(self, x, i, y):
        d = A.dims(x)
        mat = d is not None and d[0] == "mat"
        if isinstance(i, G):
            v = self.as_one(i)
            if not v.scalar:
                return A.scatter(x, v, y)
            if mat:
                return self.store_row(x, self.pos(v, d[1]), y)
            return A.store_elem(x, self.pos(v, A.n_elem(x)), self.cell(y))
        if i[0] == "slice":
            if self.is_full(i):
                if mat:
                    return T.fill2(y, d[1], d[2]) if y.scalar else y
                return T.fill(y, A.n_elem(x)) if y.scalar else y
            b = self.slice_bounds(i, A.n_elem(x))
            return A.store_slice(x, b[0], b[1], y)
        if len(i) == 2:
            r, c = i
            nr, nc = A.nrows(x), A.ncols(x)
            if isinstance(r, G) and isinstance(c, G):
                return T.store(x, (self.pos(self.as_one(r), nr), self.pos(self.as_one(c), nc)), self.cell(y))
            if self.is_full(r) and isinstance(c, G):
                return self.store_col(x, self.pos(self.as_one(c), nc), y)
            if self.is_full(c) and isinstance(r, G):
                return self.store_row(x, self.pos(self.as_one(r), nr), y)
        raise Opaque("item store")

    def cell(self, y):
        """what a single cell holds after an array of one element is assigned to it"""
        if y.scalar or A.n_elem(y) is not ONE:
            return y
        d = A.dims(y)
        return sel(y, (ZERO, ZERO) if d is not None and d[0] == "mat" else ZERO)

    def store_col(self, x, j, y):
        b = A.idx_sym(A.nrows(x))
        return T.qupd(x, ((b, A.nrows(x)),), None, (ra(b), j), y if y.scalar else sel(y, ra(b)))

    def store_row(self, x, i, y):
        b = A.idx_sym(A.ncols(x))
        if not y.scalar and A.dims(y) is not None and A.dims(y)[0] == "row":
            y = T.transpose(y)
        return T.qupd(x, ((b, A.ncols(x)),), None, (i, ra(b)), y if y.scalar else sel(y, ra(b)))

    # locations ---------------------------------------------------------------------------------
    def loc(self, e, st):
        if isinstance(e, ast.Name):
            f = self.frame
            while f is not None:
                if e.id in f.names:
                    return ("pv", f.fid, e.id)
                f = f.parent
            return ("pg", self.frame.mod, e.id)
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, st)
            if o.c is None and isinstance(o.v, Obj):
                return ("f", o.v, e.attr)
            return None
        if isinstance(e, ast.Subscript):
            if self.is_dict(e.value, st):
                return self.dict_key(e, st)
            return None
        return None

    def is_dict(self, e, st):
        try:
            v = self.ev(e, st)
        except Opaque:
            return False
        return v.c is None and isinstance(v.v, Obj) and bool(v.v.info.get("dict"))

    def dict_key(self, e, st):
        o = self.ev(e.value, st).v
        k = self.ev(e.slice, st)
        if k.c is not None or not isinstance(k.v, str):
            raise Opaque("dictionary key")
        return ("d", o, k.v)

    # control --------------------------------------------------------------------------------------
    def s_If(self, s, st):
        c = self.cond(s.test, st)
        outs = Outs()
        if c is not FALSE:
            o = self.run_seq(s.body, st.copy(), self.ex)
            for k, (c2, s2, v2) in o.items():
                outs.add(self, k, gand(c, c2), s2, v2)
        nc = gnot(c)
        if nc is not FALSE:
            o = self.run_seq(s.orelse, st.copy(), self.ex)
            for k, (c2, s2, v2) in o.items():
                outs.add(self, k, gand(nc, c2), s2, v2)
        return outs

    def s_Return(self, s, st):
        o = Outs()
        v = self.ev(s.value, st) if s.value is not None else leaf(None)
        self.retflags = dict(self.retflags)
        self.retflags[self.frame.fid] = (self.mx, self.dt)
        o["ret"] = (TRUE, st, v)
        return o

    def s_Raise(self, s, st):
        o = Outs()
        o["throw"] = (TRUE, st, leaf(("exc", ast.dump(s.exc)[:80] if s.exc is not None else "re-raise")))
        return o

    def s_Break(self, s, st):
        o = Outs()
        o["break"] = (TRUE, st, None)
        return o

    def s_Continue(self, s, st):
        o = Outs()
        o["continue"] = (TRUE, st, None)
        return o

    def s_Try(self, s, st):
        outs = self.run_seq(s.body, st, self.ex)
        if s.orelse and "next" in outs:
            c, cur, _ = outs.pop("next")
            for k, (c2, s2, v2) in self.run_seq(s.orelse, cur, self.ex).items():
                outs.add(self, k, gand(c, c2), s2, v2)
        if s.finalbody:
            raise Opaque("finally")
        return outs

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.run_seq(s.body, st, self.ex)

    def s_Delete(self, s, st):
        return self.nxt(st)

    def s_While(self, s, st):
        def head(x):
            c = self.cond(s.test, x)
            return c, x
        outs = self.run_loop(st, head, lambda x: self.run_seq(s.body, x, self.ex), lambda x: x)
        return outs

    def s_For(self, s, st):
        it = self.iterable(s.iter, st)
        if it[0] == "items":
            # statically known elements: straight-line repetition
            seq = []
            outs = Outs()
            outs["next"] = (TRUE, st, None)
            for v in it[1]:
                if "next" not in outs:
                    break
                c, cur, _ = outs.pop("next")
                cur = cur.copy()
                self.assign(s.target, v, cur)
                o = self.run_seq(s.body, cur, self.ex)
                for k, (c2, s2, v2) in o.items():
                    if k == "continue":
                        k = "next"
                    outs.add(self, k, gand(c, c2), s2, v2)
            if "break" in outs:
                c, s2, v2 = outs.pop("break")
                outs.add(self, "next", c, s2, v2)
            return outs
        _, n, elem = it
        key = ("pv", self.frame.fid, "#%d_%d" % (s.lineno, s.col_offset))
        st[key] = leaf(ZERO)

        def head(x):
            return gapply(lambda k: lt(k, n), self.read(x, key)), x

        def body(x):
            k = self.read(x, key)
            self.assign(s.target, gapply(elem, k), x)
            return self.run_seq(s.body, x, self.ex)

        def inc(x):
            x[key] = gapply(lambda k: k + ONE, self.read(x, key))
            return x
        outs = self.run_loop(st, head, body, inc)
        for k, (c, s2, v) in outs.items():
            s2.pop(key, None)
        return outs

    def iterable(self, e, st):
        """("items", [G]) or ("index", n, elem)"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("range", "xrange"):
            a = [self.intval(self.ev(x, st)) for x in e.args]
            lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
            sc = step.const()
            if sc is None or sc == 0:
                raise Opaque("range step")
            if sc > 0:
                n = hi - lo if sc == 1 else T.idiv(hi - lo + step - ONE, step)
            else:
                n = lo - hi if sc == -1 else T.idiv(lo - hi - step - ONE, -step)
            s = T.sign_of(n)
            if s not in ("+", "0", "+0"):
                n = T.minmax("max", (n, ZERO)) if s != "-" else ZERO
            return ("index", n, lambda k: lo + k * step)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("zip", "enumerate", "reversed"):
            its = [self.iterable(x, st) for x in e.args[:1 if e.func.id != "zip" else None]]
            if e.func.id == "zip":
                if all(i[0] == "items" for i in its):
                    k = min(len(i[1]) for i in its)
                    return ("items", [gapply(lambda *xs: ("tup",) + xs, *[i[1][j] for i in its]) for j in range(k)])
                its = [("index", const(len(i[1])), self.pick(i[1])) if i[0] == "items" else i for i in its]
                n = its[0][1]
                for i in its[1:]:
                    if i[1] is not n:
                        n = T.minmax("min", (n, i[1]))
                return ("index", n, lambda k: ("tup",) + tuple(i[2](k) for i in its))
            it = its[0]
            if e.func.id == "enumerate":
                s0 = self.intval(self.ev(e.args[1], st)) if len(e.args) > 1 else ZERO
                if it[0] == "items":
                    return ("items", [gapply(lambda x: ("tup", const(j) + s0, x), v) for j, v in enumerate(it[1])])
                return ("index", it[1], lambda k: ("tup", k + s0, it[2](k)))
            if it[0] == "items":
                return ("items", list(reversed(it[1])))
            return ("index", it[1], lambda k: it[2](it[1] - ONE - k))
        v = self.ev(e, st)
        if v.c is not None:
            ls = v.leaves()
            if all(isinstance(x, R) and not x.scalar for x in ls):
                ds = [A.dims(x) for x in ls]
                if all(d is not None and d[0] == "mat" for d in ds) and all(d[1] is ds[0][1] and d[2] is ds[0][2] for d in ds):
                    return ("index", ds[0][1], lambda k: ungate(gapply(lambda x: self.rowof(x, k, ds[0][2]), v)))
                ns = [A.n_elem(x) for x in ls]
                if not any(d is not None and d[0] == "mat" for d in ds) and all(k is ns[0] for k in ns):
                    return ("index", ns[0], lambda k: ungate(gapply(lambda x: sel(x, k), v)))
            if all(isinstance(x, tuple) and x and x[0] in ("tup", "lst") and len(x) == len(ls[0]) for x in ls):
                return ("items", [gapply(lambda x: x[1 + i], v) for i in range(len(ls[0]) - 1)])
            raise Opaque("iteration over a gated value")
        x = v.v
        if isinstance(x, tuple) and x and x[0] in ("tup", "lst"):
            return ("items", [leaf(y) for y in x[1:]])
        if isinstance(x, tuple) and x and x[0] == "keys":
            return ("items", [leaf(y) for y in x[1:]])
        if isinstance(x, Obj) and x.info.get("dict"):
            ks = self.read(st, ("dk", x))
            return ("items", [leaf(y) for y in ks.v])
        if isinstance(x, R) and not x.scalar:
            d = A.dims(x)
            if d is not None and d[0] == "mat":
                return ("index", d[1], lambda k: self.rowof(x, k, d[2]))
            return ("index", A.n_elem(x), lambda k: sel(x, k))
        if isinstance(x, R):
            n = ra(atom("n", x, real=True, scalar=True, isint=True, nonneg=True))
            return ("index", n, lambda k: ra(atom("item", x, k, real=True, scalar=True)))
        raise Opaque("iteration over %r" % (x,))

    def pick(self, items):
        def f(k):
            c = k.const()
            if c is None:
                raise Opaque("symbolic index into a list")
            return items[int(c)].v
        return f

    def intval(self, g):
        v = self.as_one(g)
        if not isinstance(v, R):
            raise Opaque("not an integer")
        return v

    # expressions --------------------------------------------------------------------------------
    def cond(self, e, st):
        return T.truth(self.ev(e, st))

    def ev(self, e, st):
        h = getattr(self, "e_" + type(e).__name__, None)
        if h is None:
            raise Opaque("expression %s" % type(e).__name__)
        self.mx, self.dt = False, None
        return h(e, st)

    def num(self, x):
        if isinstance(x, R):
            return x
        if isinstance(x, bool):
            return const(int(x))
        if isinstance(x, tuple) and x and x[0] in ("lst", "tup") and len(x) == 1:
            return EMPTY
        if isinstance(x, tuple) and x and x[0] in ("lst", "tup") and all(isinstance(y, (R, bool)) for y in x[1:]):
            ys = [self.num(y) for y in x[1:]]
            return A.explicit(ys)
        raise Opaque("not numeric: %r" % (x,))

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return leaf(v)
        if isinstance(v, int):
            return leaf(const(v))
        if isinstance(v, float):
            import math
            if abs(v - math.pi) < 1e-12:
                return leaf(T.PI)
            if v == float("inf"):
                return leaf(T.INF)
            return leaf(const(Fraction(repr(v))))
        if isinstance(v, complex):
            self.dt = "c"
            return leaf(T.const(Fraction(repr(v.real))) + T.I * T.const(Fraction(repr(v.imag))))
        raise Opaque("constant %r" % (v,))

    def e_JoinedStr(self, e, st):
        return leaf("")

    def e_Name(self, e, st):
        key = self.loc(e, st)
        if key[0] == "pv":
            v = self.read(st, key)
            if v is UNDEF:
                raise Opaque("unbound %s" % e.id)
            self.mx, self.dt = self.flags(key, st)
            return v
        v = st.get(key)
        if v is not None:
            return v
        return self.glob(e.id, self.frame.mod, st)

    def glob(self, name, mod, st):
        tb = self.table.get(mod, {})
        if name in tb:
            x = tb[name]
            if x[0] == "fn":
                return leaf(x)
            if x[0] in ("cls",):
                return leaf(x)
            if x[0] == "mod":
                return leaf(("mod", x[1]))
            if x[0] == "imp":
                base, nm = x[1], x[2]
                m2 = (nm if base.strip(".") == "" else base.strip(".").split(".")[-1])
                if m2 in self.table and base.strip(".") == "":
                    return leaf(("mod", m2))
                if m2 in self.table and nm in self.table[m2]:
                    return self.glob(nm, m2, st)
                return leaf(("mod", (base + "." + nm).strip(".") if base.strip(".") else nm))
            if x[0] == "const":
                return self.ev(x[1], st)
        if name in ("True", "False", "None"):
            return leaf({"True": True, "False": False, "None": None}[name])
        return leaf(("builtin", name))

    def e_Attribute(self, e, st):
        v = self.ev(e.value, st)
        mx, dt = self.mx, self.dt
        r = gapply(lambda x: self.getattr(x, e.attr, st, mx), v)
        if e.attr in ("T", "H", "real", "imag"):
            self.mx = mx
        elif v.c is None and isinstance(v.v, Obj):
            self.mx, self.dt = self.flags(("f", v.v, e.attr), st)
        return r

    def getattr(self, x, a, st, mx=False):
        if isinstance(x, Obj):
            v = self.read(st, ("f", x, a))
            if v is not UNDEF:
                return v
            fn = self.lookup_method(x.cls, a) if x.cls else None
            if fn is not None:
                return ("bound", x, fn)
            if x.info.get("dict"):
                return ("dictm", x, a)
            raise Opaque("attribute %s of %r" % (a, x))
        if isinstance(x, tuple) and x and x[0] == "mod":
            m = x[1]
            if m in self.table:
                if a in self.table[m]:
                    return self.glob(a, m, st)
            if m in NP_NAMES:
                if a == "pi":
                    return T.PI
                if a == "inf":
                    return T.INF
                if a == "nan":
                    return T.NAN
                if a == "newaxis":
                    return "newaxis"
                if a == "e":
                    return T.exp(ONE)
            return ("mod", m + "." + a)
        if isinstance(x, tuple) and x and x[0] == "super":
            fn = self.lookup_method(x[1].cls, a, x[2])
            if fn is None:
                return ("builtin", "noop")
            return ("bound", x[1], fn)
        if isinstance(x, tuple) and x and x[0] == "cls":
            fn = self.lookup_method(x[1], a)
            if fn is not None:
                return ("fn", fn)
        if isinstance(x, R):
            if a == "size":
                return A.n_elem(x)
            if a == "shape":
                d = A.dims(x)
                if d is not None and d[0] == "mat":
                    return ("tup", A.nrows(x), A.ncols(x))
                if mx:
                    return ("tup", A.nrows(x), A.ncols(x))
                return ("tup", A.n_elem(x)) if not x.scalar else ("tup",)
            if a == "ndim":
                d = A.dims(x)
                return const(0 if x.scalar else 2 if (mx or d is not None and d[0] == "mat") else 1)
            if a == "real":
                return T.real(x)
            if a == "imag":
                return T.imag(x)
            if a == "T":
                d = A.dims(x)
                return T.transpose(x) if mx or (d is not None and d[0] == "mat") else x
            if a == "H":
                return T.herm(x)
            s = x.single()
            if x.scalar and s is not None and s.op in ("xcall", "call", "extobj", "item", "attr", "sym", "ite") and a in self.ext_attrs(x):
                return ra(atom("attr", x, a, real=True, scalar=a not in ("x",), size=T.sym("n.x", isint=True, nonneg=True) if a == "x" else None))
            return ("meth", x, a, mx)
        if isinstance(x, tuple) and x and x[0] in ("lst", "tup", "keys"):
            return ("meth", x, a, False)
        if isinstance(x, tuple) and x and x[0] == "pair" and a in ("first", "second"):
            return x[1 if a == "first" else 2]
        if isinstance(x, str):
            return ("meth", x, a, False)
        if isinstance(x, tuple) and x and x[0] in ("ext", "extv"):
            return ("extv", x, a)
        raise Opaque("attribute %s of %r" % (a, x))

    def ext_attrs(self, x):
        return {"first", "second", "fun", "x", "message"}

    def e_Tuple(self, e, st):
        vs = [self.ev(x, st) for x in e.elts]
        self.mx, self.dt = False, None
        if not vs:
            return leaf(("tup",))
        return gapply(lambda *xs: ("tup",) + xs, *vs)

    def e_List(self, e, st):
        vs = [self.ev(x, st) for x in e.elts]
        self.mx, self.dt = False, "l"
        if not vs:
            return leaf(EMPTY)

        def f(*xs):
            if all(isinstance(x, R) and x.scalar for x in xs):
                return A.explicit(xs)
            return ("lst",) + xs
        return gapply(f, *vs)

    def e_Dict(self, e, st):
        o = Obj("dict", None, dict=True)
        ks = []
        for k, v in zip(e.keys, e.values):
            kv = self.ev(k, st)
            if kv.c is not None or not isinstance(kv.v, str):
                raise Opaque("dictionary key")
            st[("d", o, kv.v)] = self.ev(v, st)
            self.note_origin(st[("d", o, kv.v)])
            ks.append(kv.v)
        st[("dk", o)] = leaf(tuple(ks))
        self.mx, self.dt = False, None
        return leaf(o)

    def e_Lambda(self, e, st):
        return leaf(("fn", Fn(e, self.frame.mod, None, self.frame)))

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        a, b = self.ev(e.body, s1), self.ev(e.orelse, s2)
        m = self.merge(c, s1, s2)
        st.clear()
        st.update(m)
        return gite(c, a, b)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out = None
        for x in e.values:
            c = self.cond(x, st)
            out = c if out is None else (gand(out, c) if isand else gor(out, c))
        return out

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return gnot(self.cond(e.operand, st))
        v = self.ev(e.operand, st)
        mx, dt = self.mx, self.dt
        if isinstance(e.op, ast.USub):
            r = gapply(lambda x: -self.num(x), v)
        elif isinstance(e.op, ast.UAdd):
            r = v
        else:
            raise Opaque("unary operator")
        self.mx = mx
        return r

    def e_BinOp(self, e, st):
        x = self.ev(e.left, st)
        m1, d1 = self.mx, self.dt
        y = self.ev(e.right, st)
        m2, d2 = self.mx, self.dt
        r = self.listop(e.op, x, y, d1, d2)
        if r is not None:
            self.mx, self.dt = False, "l"
            return r
        r = self.binop(e.op, x, y, m1, m2, st, "c" in (d1, d2))
        self.mx, self.dt = m1 or m2, "c" if "c" in (d1, d2) else None
        return r

    def listop(self, op, x, y, d1, d2):
        """concatenation and repetition of plain lists of numbers, None for any other operation"""
        one = lambda d, g: d == "l" and all(isinstance(l, R) and not l.scalar for l in g.leaves())
        if isinstance(op, ast.Add) and one(d1, x) and one(d2, y):
            return gapply(lambda a, b: b if a is EMPTY else a if b is EMPTY else T.concat((a, b)), x, y)
        if isinstance(op, ast.Mult) and one(d1, x) != one(d2, y):
            l, k = (x, y) if one(d1, x) else (y, x)
            if not all(isinstance(c, R) and c.scalar for c in k.leaves()):
                return None

            def f(a, k):
                n = A.n_elem(a)
                if a is EMPTY:
                    return a
                if k.const() is not None and n.const() is not None and k.const() * n.const() <= 16:
                    return A.explicit([sel(a, const(i)) for i in range(int(n.const()))] * max(int(k.const()), 0)) if k.const() > 0 else EMPTY
                if n is ONE:
                    return T.fill(sel(a, ZERO), k)
                j = A.idx_sym(n * k)
                return T.arr(j, n * k, sel(a, T.imod(ra(j), n)))
            return gapply(f, l, k)
        return None

    def binop(self, op, x, y, m1, m2, st, cplx=False):
        def f(a, b):
            if isinstance(op, ast.Mod) and isinstance(a, str):
                return ""
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(op, ast.Add) and isinstance(a, str) or isinstance(b, str):
                return ""
            la = isinstance(a, tuple) and a and a[0] in ("lst", "tup")
            lb = isinstance(b, tuple) and b and b[0] in ("lst", "tup")
            if isinstance(op, ast.Mult) and (la or lb):
                l, k = (a, b) if la else (b, a)
                c = k.const() if isinstance(k, R) else None
                if c is not None and 0 <= c <= 16:
                    return (l[0],) + tuple(l[1:]) * int(c)
                if isinstance(k, R) and l[0] == "lst" and len(l) == 2:
                    return ("rep", l[1], k)
                raise Opaque("list repetition")
            if isinstance(op, ast.Add) and la and lb:
                return (a[0],) + a[1:] + b[1:]
            a, b = self.num(a), self.num(b)
            if cplx and isinstance(op, ast.Pow) and b.const() == Fraction(1, 2):
                return self.csqrt(a)
            return self.arith(op, a, b, m1, m2)
        return gapply(f, x, y)

    def csqrt(self, x):
        """square root of a value held as a complex number: defined for negative reals"""
        if not x.real:
            return T.sqrt(x)
        one = lambda v: ungate(gite(T.lt(v, ZERO), leaf(T.I * T.sqrt(-v)), leaf(T.sqrt(v))))
        if x.scalar:
            return one(x)
        d = A.dims(x)
        if d is not None and d[0] == "mat":
            return arr2_of(d[1], d[2], lambda p, q: one(sel(x, (p, q))))
        k = A.idx_sym(A.n_elem(x))
        return T.arr(k, A.n_elem(x), one(sel(x, ra(k))))

    def arith(self, op, a, b, m1, m2):
        if isinstance(op, ast.MatMult):
            return self.dot(a, b, m1 or m2)
        if isinstance(op, ast.Mult) and (m1 or m2) and not a.scalar and not b.scalar:
            return A.matmul(a, b)
        if not a.scalar and not b.scalar:
            a, b = self.broadcast(a, b)
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            return a / b
        if isinstance(op, ast.Pow):
            return T.rpow(a, b)
        if isinstance(op, ast.FloorDiv):
            if a.isint and b.isint:
                return T.idiv(a, b)
            return T.fn1("floor", a / b)
        if isinstance(op, ast.Mod):
            return T.imod(a, b)
        raise Opaque("operator %s" % type(op).__name__)

    def broadcast(self, a, b):
        da, db = A.dims(a), A.dims(b)
        ma, mb = da is not None and da[0] == "mat", db is not None and db[0] == "mat"
        if ma and mb and None not in da and None not in db:
            nr = db[1] if da[1] is ONE else da[1]
            nc = db[2] if da[2] is ONE else da[2]

            def grow(x, d):
                if d[1] is nr and d[2] is nc:
                    return x
                return arr2_of(nr, nc, lambda p, q: sel(x, (ZERO if d[1] is ONE and nr is not ONE else p, ZERO if d[2] is ONE and nc is not ONE else q)))
            return grow(a, da), grow(b, db)
        if ma and not mb and None not in da:
            if da[2] is ONE and A.n_elem(b) is not ONE:
                n = A.n_elem(b)
                a2 = arr2_of(da[1], n, lambda p, q: sel(a, (p, ZERO)))
                return a2, arr2_of(da[1], n, lambda p, q: sel(b, q))
            return a, arr2_of(da[1], da[2], lambda p, q: sel(b, q))
        if mb and not ma and None not in db:
            y, x = self.broadcast(b, a)
            return x, y
        return a, b

    def dot(self, a, b, mx=False):
        if mx:
            return A.matmul(a, b)
        return A.npdot(a, b)

    def e_Compare(self, e, st):
        x = self.ev(e.left, st)
        out = None
        for op, r in zip(e.ops, e.comparators):
            y = self.ev(r, st)
            c = gapply(lambda a, b: self.compare(op, a, b, st), x, y)
            if len(e.ops) == 1:
                self.mx, self.dt = False, None
                return c
            c = T.truth(c)
            out = c if out is None else gand(out, c)
            x = y
        return out

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            same = (a is None) == (b is None) if (a is None or b is None) else None
            if same is None:
                if isinstance(a, bool) and isinstance(b, bool):
                    same = a == b
                elif isinstance(a, Obj) and isinstance(b, Obj):
                    same = a is b
                else:
                    raise Opaque("identity test")
            return leaf(same if isinstance(op, ast.Is) else not same)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = None
            if isinstance(b, tuple) and b and b[0] in ("lst", "tup", "keys"):
                if isinstance(a, str):
                    r = leaf(a in b[1:])
                else:
                    r = FALSE
                    for y in b[1:]:
                        r = gor(r, eq(self.num(a), self.num(y)))
            elif isinstance(b, Obj) and b.info.get("dict") and isinstance(a, str):
                ks = self.read(st, ("dk", b))
                r = leaf(a in ks.v)
            if r is None:
                raise Opaque("membership test")
            return r if isinstance(op, ast.In) else gnot(r)
        if isinstance(a, (str, type(None), Obj)) or isinstance(b, (str, type(None), Obj)) or isinstance(a, tuple) and isinstance(b, tuple):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if isinstance(a, str) and isinstance(b, R) or isinstance(b, str) and isinstance(a, R):
                    t = leaf(False)
                elif isinstance(a, tuple) and isinstance(b, tuple) and (a[0] == "keys" or b[0] == "keys"):
                    t = leaf(False)
                elif isinstance(a, tuple) and isinstance(b, tuple):
                    if len(a) != len(b):
                        t = leaf(False)
                    else:
                        t = TRUE
                        for p, q in zip(a[1:], b[1:]):
                            t = gand(t, T.tog(self.compare(ast.Eq(), p, q, st)))
                else:
                    t = leaf((a is b) or (isinstance(a, str) and a == b))
                return t if isinstance(op, ast.Eq) else gnot(t)
            raise Opaque("ordering of non-numbers")
        a, b = self.num(a), self.num(b)
        sy = {ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}[type(op)]
        if not a.scalar or not b.scalar:
            if not a.scalar and not b.scalar:
                a, b = self.broadcast(a, b)
            return A.cmp_array(sy, a, b)
        return {"<": lambda: lt(a, b), ">": lambda: lt(b, a), "<=": lambda: T.le(a, b), ">=": lambda: T.le(b, a), "==": lambda: eq(a, b),
                "!=": lambda: gnot(eq(a, b))}[sy]()

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        mx, dt = self.mx, self.dt
        if b.c is None and isinstance(b.v, Obj) and b.v.info.get("dict"):
            k = self.ev(e.slice, st)
            if k.c is not None or not isinstance(k.v, str):
                raise Opaque("dictionary key")
            key = ("d", b.v, k.v)
            v = self.read(st, key)
            if v is UNDEF:
                raise Opaque("missing dictionary entry %s" % k.v)
            self.mx, self.dt = self.flags(key, st)
            return v
        i = self.index(e.slice, st)
        r = gapply(lambda x: self.getitem(x, i, st), b)
        self.mx, self.dt = mx and not all(isinstance(l, R) and l.scalar for l in r.leaves()), dt
        return r

    def comp(self, e, st, elt):
        names = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        keys = [("pv", self.frame.fid, x) for x in names]
        saved = {k: st[k] for k in keys if k in st}
        for x in names:
            self.frame.names[x] = True
        try:
            return self.comp_over(e.generators, st, elt, keys)
        finally:
            for k in keys:
                st.pop(k, None)
            for k, v in saved.items():
                st[k] = v

    def comp_over(self, gens, st, elt, keys):
        g = gens[0]
        it = self.iterable(g.iter, st)
        if it[0] == "index" and it[1].const() is not None and it[1].const() <= self.unroll and (len(gens) > 1 or g.ifs):
            it = ("items", [T.tog(it[2](const(k))) for k in range(int(it[1].const()))])
        if it[0] == "items":
            acc = leaf(("lst",))
            for v in it[1]:
                self.assign(g.target, v, st)
                c = T.TRUE
                for x in g.ifs:
                    c = T.gand(c, self.cond(x, st))
                if c is T.FALSE:
                    continue
                before = dict(st) if c is not T.TRUE else None
                if len(gens) > 1:
                    more = gapply(self.listed, self.comp_over(gens[1:], st, elt, keys))
                else:
                    more = gapply(lambda x: ("lst", x), self.ev(elt, st))
                if before is not None and self.touched(before, st, keys):
                    raise Opaque("effect in a comprehension")
                acc = T.gite(c, gapply(lambda x, y: x + y[1:], acc, more), acc)
            return gapply(lambda xs: A.explicit(xs[1:]) if len(xs) > 1 and all(isinstance(x, R) and x.scalar for x in xs[1:]) else xs if len(xs) > 1 else EMPTY, acc)
        if len(gens) > 1 or g.ifs:
            raise Opaque("comprehension")
        _, n, elem = it
        v = A.idx_sym(n)
        s2 = st.copy()
        self.assign(g.target, leaf(elem(ra(v))), s2)
        b = self.ev(elt, s2)
        if self.touched(st, s2, keys):
            raise Opaque("effect in a comprehension")
        b = ungate(b)
        if not b.scalar:
            d = A.dims(b)
            if d is not None and d[0] == "mat" or T.contains_atom(A.n_elem(b), v):
                raise Opaque("comprehension of arrays")
            # the rows of a matrix
            w = A.idx_sym(A.n_elem(b))
            return leaf(A.arr2(v, w, n, A.n_elem(b), sel(b, ra(w))))
        return leaf(T.arr(v, n, b))

    def listed(self, x):
        if x is EMPTY:
            return ("lst",)
        if isinstance(x, R):
            return ("lst",) + tuple(sel(x, const(k)) for k in range(int(A.n_elem(x).const())))
        return x

    @staticmethod
    def touched(a, b, keys):
        """whether evaluation changed anything that outlives a comprehension"""
        skip = set(keys)
        return any(k not in skip and k[0] not in ("pv", "pf") and a.get(k) is not v and k in a or k not in a and k[0] in ("xs", "rand") for k, v in b.items())

    def e_ListComp(self, e, st):
        r = self.comp(e, st, e.elt)
        self.mx, self.dt = False, "l"
        return r

    e_GeneratorExp = e_ListComp

    def e_Starred(self, e, st):
        raise Opaque("starred expression")

    # calls --------------------------------------------------------------------------------------
    def e_Call(self, e, st):
        self.sites += 1
        # super(...)
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if e.args:
                c = self.ev(e.args[0], st).v
                o = self.ev(e.args[1], st).v
                return leaf(("super", o, c[1]))
            f = self.frame
            o = self.read(st, ("pv", f.fid, "self")).v
            return leaf(("super", o, f.fn.split(".")[0]))
        fv = self.ev(e.func, st)
        gated = fv if fv.c is not None else None
        if gated is not None and not all(isinstance(l, tuple) and l and l[0] == "meth" and l[2] not in ("append", "extend", "sort", "fill") and
                                         isinstance(l[1], R) for l in fv.leaves()):
            raise Opaque("call of a gated function: %s" % ast.unparse(e.func)[:60])
        fv = fv.v
        args, kwargs = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if v.c is None and isinstance(v.v, tuple) and v.v[0] in ("tup", "lst"):
                    args += [(leaf(y), False, None, None) for y in v.v[1:]]
                    continue
                raise Opaque("starred argument")
            v = self.ev(x, st)
            mx, dt = self.mx, self.dt
            key = None
            if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and any(isinstance(l, R) and not l.scalar for l in v.leaves()):
                key = self.loc(x, st)
            args.append((v, mx, dt, key))
        for k in e.keywords:
            if k.arg is None:
                raise Opaque("keyword expansion")
            v = self.ev(k.value, st)
            kwargs[k.arg] = (v, self.mx, self.dt, None)
        self.mx, self.dt = False, None
        if gated is not None:
            return gapply(lambda x: self.apply(x, args, kwargs, st, e), gated)
        return self.apply(fv, args, kwargs, st, e)

    def apply(self, fv, args, kwargs, st, e):
        if isinstance(fv, tuple) and fv:
            k = fv[0]
            if k == "fn":
                nm = getattr(fv[1].node, "name", None)
                if nm in self.stubs:
                    return self.stubs[nm](self, [a[0] for a in args], {x: y[0] for x, y in kwargs.items()}, st)
                return self.call_fn(fv[1], args, kwargs, st)
            if k == "bound":
                return self.call_fn(fv[2], args, kwargs, st, leaf(fv[1]))
            if k == "cls":
                return self.construct(fv[1], args, kwargs, st)
            if k == "builtin":
                return self.builtin(fv[1], args, kwargs, st, e)
            if k == "mod":
                return self.library(fv[1], args, kwargs, st, e)
            if k == "meth":
                return self.method(fv[1], fv[2], fv[3], args, kwargs, st, e)
            if k == "dictm":
                return self.dict_method(fv[1], fv[2], args, st)
            if k in ("ext", "extv"):
                return leaf(("ext", "result"))
        raise Opaque("call of %r" % (fv,))

    def dict_method(self, o, name, args, st):
        ks = self.read(st, ("dk", o))
        ks = ks.v if ks is not UNDEF else ()
        if name == "keys":
            return leaf(("keys",) + tuple(ks))
        def whole(g):
            return leaf(ungate(g)) if g.c is not None and all(isinstance(x, R) for x in g.leaves()) else g
        if name == "values":
            return gapply(lambda *xs: ("lst",) + xs, *[whole(self.read(st, ("d", o, k))) for k in ks])
        if name == "items":
            return gapply(lambda *xs: ("lst",) + tuple(("tup", k, x) for k, x in zip(ks, xs)), *[whole(self.read(st, ("d", o, k))) for k in ks])
        if name == "get" and args[0][0].c is None and isinstance(args[0][0].v, str):
            if args[0][0].v in ks:
                return self.read(st, ("d", o, args[0][0].v))
            return args[1][0] if len(args) > 1 else leaf(None)
        raise Opaque("dict.%s" % name)

    def builtin(self, n, args, kwargs, st, e):
        vs = [a[0] for a in args]
        if n in ("print",):
            if self.stubs.get("print"):
                return self.stubs["print"](self, vs, kwargs, st)
            return leaf(None)
        if n == "noop":
            return leaf(None)
        if n == "len":
            def f(x):
                if isinstance(x, tuple) and x and x[0] in ("tup", "lst", "keys"):
                    return const(len(x) - 1)
                if isinstance(x, tuple) and x and x[0] == "rep":
                    return x[2]
                if isinstance(x, Obj) and x.info.get("dict"):
                    return const(len(self.read(st, ("dk", x)).v))
                x = self.num(x)
                d = A.dims(x)
                return A.nrows(x) if d is not None and d[0] == "mat" else A.n_elem(x)
            return gapply(f, vs[0])
        if n == "abs":
            return gapply(lambda x: T.rabs(self.num(x)), vs[0])
        if n in ("min", "max"):
            if len(vs) == 1 and "key" in kwargs:
                return gapply(lambda x: self.extreme_by(n, x, kwargs["key"][0], st, e), vs[0])
            if len(vs) == 1:
                return gapply(lambda x: A.extreme(n, self.num(x)), vs[0])
            if kwargs:
                raise Opaque("%s with a key" % n)
            return gapply(lambda *xs: T.minmax(n, tuple(self.num(x) for x in xs)), *vs)
        if n == "int":
            return gapply(lambda x: self.toint(self.num(x)), vs[0])
        if n in ("float", "complex"):
            return gapply(lambda x: self.num(x), vs[0])
        if n == "bool":
            return T.truth(vs[0])
        if n == "sum":
            return gapply(lambda x: A.total(self.num(x)), vs[0])
        if n == "range":
            it = self.iterable(e, st)
            v = A.idx_sym(it[1])
            return leaf(T.arr(v, it[1], it[2](ra(v))))
        if n in ("list", "tuple"):
            if not vs:
                return leaf(EMPTY)
            x = vs[0]
            if x.c is None and isinstance(x.v, tuple) and x.v and x.v[0] in ("lst", "tup", "keys"):
                return leaf(("lst" if n == "list" else "tup",) + x.v[1:])
            return x
        if n == "dict":
            o = Obj("dict", None, dict=True)
            st[("dk", o)] = leaf(())
            return leaf(o)
        if n == "str":
            return leaf("")
        if n == "binomial":
            return gapply(lambda x, y: A.binom(self.num(x), self.num(y)), *vs)
        if n == "round":
            return gapply(lambda x: T.fn1("round", self.num(x)), vs[0])
        if n == "map":
            f, it = vs[0], vs[1]
            if it.c is None and isinstance(it.v, tuple) and it.v and it.v[0] == "rep":
                # one call per repetition: a sequence of independent results
                v = A.idx_sym(it.v[2])
                return leaf(ra(atom("maprep", str(getattr(f.v[1].node, "name", "f")) if f.v[0] == "fn" else str(f.v), it.v[1] if isinstance(it.v[1], R) else _flat(it.v[1]), it.v[2],
                                    real=True, scalar=False, size=it.v[2])))
            return self.mapped(vs, st, e)
        if n == "sorted" and not kwargs and len(vs) == 1:
            return gapply(lambda x: A.sort(self.num(x)), vs[0])
        if n == "isinstance":
            raise Opaque("isinstance")
        if n == "zip":
            it = self.iterable(e, st)
            if it[0] == "items":
                return gapply(lambda *xs: ("lst",) + xs, *it[1])
        if n in ("range", "enumerate"):
            raise Opaque(n)
        self.externals.add(n)
        raise Opaque("call of %s" % n)

    def extreme_by(self, n, x, f, st, e):
        """first element whose key is extreme"""
        if not (isinstance(x, tuple) and x and x[0] in ("lst", "tup") and 1 < len(x) < 10) or f.c is not None:
            raise Opaque("%s with a key" % n)
        ks = [self.as_one(self.apply(f.v, [(T.tog(v), None, None, None)], {}, st, e)) for v in x[1:]]

        def at(i, best, v):
            if i == len(ks):
                return T.tog(v)
            c = lt(ks[i], best) if n == "min" else lt(best, ks[i])
            return T.gite(c, at(i + 1, ks[i], x[i + 1]), at(i + 1, best, v))
        return at(1, ks[0], x[1])

    def mapped(self, vs, st, e):
        """a function applied to each element of explicit sequences, in order"""
        f = vs[0]
        its = [v.v for v in vs[1:] if v.c is None and isinstance(v.v, tuple) and v.v and v.v[0] in ("lst", "tup", "keys")]
        if f.c is not None or not its or len(its) != len(vs) - 1:
            raise Opaque("map")
        out = []
        for xs in zip(*[i[1:] for i in its]):
            out.append(self.apply(f.v, [(T.tog(x), None, None, None) for x in xs], {}, st, e))
        return gapply(lambda *xs: ("lst",) + xs, *out) if out else leaf(EMPTY)

    def toint(self, x):
        if x.isint:
            return x
        den = 1
        for m, c in x.terms:
            den = den * c.denominator // __import__("math").gcd(den, c.denominator)
        y = x * const(den)
        if den > 1 and y.isint:
            return T.idiv(y, const(den))
        return T.fn1("trunc", x)

    # ndarray methods
    def method(self, x, n, mx, args, kwargs, st, e):
        vs = [a[0] for a in args]
        if isinstance(x, str):
            if n == "lower":
                return leaf(x.lower())
            if n == "upper":
                return leaf(x.upper())
            return leaf("")
        key = None
        if isinstance(e.func, ast.Attribute):
            key = self.loc(e.func.value, st) if isinstance(e.func.value, (ast.Name, ast.Attribute, ast.Subscript)) else None
        if n in ("append", "extend") and key is not None:
            cur = self.read(st, key)

            def f(c, y):
                if n == "append":
                    if isinstance(c, R) and isinstance(y, R) and y.scalar:
                        return A.append(c, y)
                    if isinstance(c, R) and c is EMPTY:
                        c = ("lst",)
                    if isinstance(c, tuple) and c[0] == "lst":
                        return c + (y,)
                    if isinstance(c, R):
                        a = c.single()
                        if a is not None and a.op == "vstackc":
                            return ("lst",) + tuple(a.args[0]) + (y,)
                    raise Opaque("append")
                if isinstance(c, R) and c is EMPTY:
                    return y
                if isinstance(c, tuple) and isinstance(y, tuple) and y[0] in ("lst", "tup"):
                    return c + y[1:]
                return T.concat((self.num(c), self.num(y)))
            self.write_inplace(key, gapply(f, cur, vs[0]), st)
            return leaf(None)
        if n == "sort" and key is not None:
            cur = self.read(st, key)
            self.write_inplace(key, gapply(lambda c: A.sort(self.num(c)), cur), st)
            return leaf(None)
        if n == "fill" and key is not None:
            cur = self.read(st, key)
            self.write_inplace(key, gapply(lambda c, v: T.fill(self.num(v), A.n_elem(c)), cur, vs[0]), st)
            return leaf(None)
        if isinstance(x, tuple):
            raise Opaque("method %s of a list" % n)
        if n in ("copy", "view"):
            if key is not None:
                _, self.dt = self.flags(key, st)
            self.mx = mx
            return leaf(x)
        if n in ("ravel", "flatten"):
            return leaf(self.ravel(x))
        if n == "astype":
            t = vs[0]
            if t.c is None and t.v == ("builtin", "int"):
                if x.scalar:
                    return leaf(self.toint(x))
                v = A.idx_sym(A.n_elem(x))
                return leaf(T.arr(v, A.n_elem(x), self.toint(sel(x, ra(v)))))
            return leaf(x)
        if n == "item":
            if vs:
                return gapply(lambda i: sel(x, i), vs[0])
            return leaf(A.as_scalar(x))
        if n in ("min", "max", "mean", "std", "var", "sum", "prod", "argmax", "argmin", "argsort", "dot", "conj", "conjugate", "any", "all", "cumsum", "squeeze",
                 "reshape", "repeat", "transpose", "round", "nonzero"):
            return self.npcall(n, [(leaf(x), mx, None, None)] + list(args), kwargs, st, e)
        if n == "tolist":
            return leaf(x)
        if x.scalar:
            return self.ext_method(x, n, vs, kwargs, st)
        raise Opaque("method %s" % n)

    def ext_method(self, x, n, vs, kwargs, st):
        """method of an object of the compiled library: a function of the object, its history and the arguments"""
        if n in self.ext:
            return self.ext[n](self, x, vs, {k: v[0] for k, v in kwargs.items()}, st)
        key = ("xs", x)
        cur = ungate(self.read(st, key))
        vals = [self.extarg(v) for v in vs] + [self.extarg(v[0]) for k, v in sorted(kwargs.items())]
        shape = self.ext_shapes.get(n)
        at = dict(real=True, scalar=True)
        if shape is not None:
            at = shape(x)
        r = ra(atom("xcall", n, x, cur, tuple(vals), **at))
        a = r.single()
        if shape is not None and "mat" in self.ext_mats.get(n, ()):
            pass
        if n in self.ext_matshape:
            A.SHAPES[a] = self.ext_matshape[n]
        if n not in PURE_EXT:
            st[key] = leaf(ra(atom("after", cur, n, tuple(vals), real=True, scalar=True)))
        return leaf(r)

    ext_shapes = {}
    ext_mats = {}
    ext_matshape = {}

    def extarg(self, v):
        if v.c is None:
            if isinstance(v.v, R):
                return A.canon(v.v)
            if isinstance(v.v, (str, bool)) or v.v is None:
                return v.v
            if isinstance(v.v, tuple):
                return _flat(v.v)
            return str(v.v)
        return A.canon(ungate(v))

    def ravel(self, x):
        d = A.dims(x)
        if d is None or d[0] != "mat":
            return x
        n, m = d[1], d[2]
        if n is ONE or m is ONE:
            v = A.idx_sym(n * m)
            return T.arr(v, n * m, sel(x, (ZERO, ra(v)) if n is ONE else (ra(v), ZERO)))
        v = A.idx_sym(n * m)
        return T.arr(v, n * m, sel(x, (T.idiv(ra(v), m), T.imod(ra(v), m))))

    # library functions
    def library(self, q, args, kwargs, st, e):
        parts = q.split(".")
        if parts[0] == "numpy":
            if parts[1:2] == ["random"]:
                return self.rand(parts[2], args, kwargs, st)
            if parts[1:2] == ["linalg"]:
                return self.npcall(parts[-1], args, kwargs, st, e)
            return self.npcall(parts[1], args, kwargs, st, e)
        if parts[-1] == "solve" and parts[0] == "scipy":
            return self.npcall("solve", args, kwargs, st, e)
        if parts[0] == "math":
            return self.npcall(parts[1], args, kwargs, st, e)
        if parts[0] in ("matplotlib", "plt", "time", "sys", "os"):
            self.shown += [(q, a[0]) for a in args]
            if len(parts) > 1 and parts[-1] == "acorr":
                return leaf(("tup",) + (("ext", "acorr"),) * 4)
            return leaf(("ext", q))
        if parts[0] == "copy":
            return args[0][0]
        h = self.stubs.get(q) or self.stubs.get(parts[-1])
        if h:
            return h(self, [a[0] for a in args], {k: v[0] for k, v in kwargs.items()}, st)
        if parts[-1] in ("vecD", "vecC"):
            if args:
                return args[0][0]
            return leaf(EMPTY)
        # an object or result of an unmodelled library function
        self.externals.add(q)
        vals = [self.extarg(a[0]) for a in args] + [(k, self.extarg(v[0])) for k, v in sorted(kwargs.items())]
        self.events += 1
        return leaf(ra(atom("extobj", q, tuple(vals), real=True, scalar=True)))

    def draws(self, st, dist, params, size):
        """one draw, or a one-dimensional array of consecutive draws"""
        if size is None:
            return self.draw(st, dist, params)
        cnt = size.v if size.c is None else None
        if isinstance(cnt, tuple) and len(cnt) == 2 and cnt[0] == "tup":
            cnt = T.tog(cnt[1])
            cnt = cnt.v if cnt.c is None else None
        if not isinstance(cnt, R) or not cnt.scalar:
            raise Opaque("array of draws")
        key = ("rng", dist, tuple(T.ungate(T.tog(x)) for x in params))
        first = ungate(self.read(st, key))
        j = A.idx_sym(cnt)
        st[key] = leaf(first + cnt)
        return leaf(T.arr(j, cnt, ra(atom("draw", dist, key[2], first + ra(j), real=True, scalar=True))))

    def rand(self, n, args, kwargs, st):
        vs = [a[0] for a in args]
        size = None
        if "size" in kwargs:
            size = kwargs["size"][0]
        names = {"normal": ("loc", "scale"), "uniform": ("low", "high")}
        if n in names:
            d = {"normal": (ZERO, ONE), "uniform": (ZERO, ONE)}[n]
            ps = [kwargs[k][0] if k in kwargs else (vs[i] if i < len(vs) else leaf(d[i])) for i, k in enumerate(names[n])]
            if len(vs) > 2:
                size = vs[2]
            if n == "normal":
                z = self.draws(st, "normal", (ZERO, ONE), size)
                return gapply(lambda m, s, zz: self.num(m) + self.num(s) * zz, ps[0], ps[1], z)
            u = self.draws(st, "uniform", (ZERO, ONE), size)
            return gapply(lambda m, s, zz: self.num(m) + (self.num(s) - self.num(m)) * zz, ps[0], ps[1], u)
        if n in ("standard_normal", "randn", "random", "rand", "random_sample"):
            if len(vs) > 1:
                raise Opaque("array of draws")
            return self.draws(st, "normal" if "n" == n[-1] or n == "standard_normal" else "uniform", (ZERO, ONE), vs[0] if vs else size)
        if n in ("random_integers", "randint"):
            if size is not None:
                raise Opaque("array of draws")
            lo, hi = (vs[0], vs[1]) if len(vs) > 1 else (leaf(ONE if n == "random_integers" else ZERO), vs[0])
            if n == "randint":
                hi = gapply(lambda x: x - ONE, hi)
            return self.draw(st, "uniform_int", (lo, hi))
        if n == "seed":
            return leaf(None)
        raise Opaque("numpy.random.%s" % n)

    def npcall(self, n, args, kwargs, st, e):
        vs = [a[0] for a in args]
        mxs = [a[1] for a in args]
        dts = [a[2] for a in args]
        kw = {k: v[0] for k, v in kwargs.items()}
        num = self.num

        def out(v, mx=False, dt=None):
            self.mx, self.dt = mx, None if dt == "l" else dt
            return v

        def dtype():
            t = kw.get("dtype")
            if t is None:
                return "f"
            t = t.v
            if t == ("builtin", "complex") or isinstance(t, tuple) and t[0] == "mod" and "complex" in t[1] or isinstance(t, str) and "complex" in t:
                return "c"
            return "f"
        if n in PLAIN1:
            nm = {"arctan": "atan"}.get(n, n)
            if n == "sqrt" and dts[0] == "c":
                return out(gapply(lambda x: self.csqrt(num(x)), vs[0]), mxs[0], "c")
            return out(gapply(lambda x: T.fn1(nm, num(x)), vs[0]), mxs[0])
        if n in ("abs", "absolute", "fabs"):
            return out(gapply(lambda x: T.rabs(num(x)), vs[0]), mxs[0])
        if n in ("conj", "conjugate"):
            return out(gapply(lambda x: T.conj(num(x)), vs[0]), mxs[0])
        if n in ("real", "imag"):
            return out(gapply(lambda x: T.fn1(n, num(x)), vs[0]), mxs[0])
        if n in ("zeros", "ones", "empty", "full"):
            if n == "full":
                val = vs[1]
            else:
                val = leaf({"zeros": ZERO, "ones": ONE, "empty": UNINIT}[n])

            def f(s, v):
                v = num(v)
                if isinstance(s, tuple) and s and s[0] in ("tup", "lst"):
                    if len(s) == 2:
                        return T.fill(v, num(s[1]))
                    if len(s) == 3:
                        return T.fill2(v, num(s[1]), num(s[2]))
                    raise Opaque("array rank")
                s = num(s)
                if not s.scalar:
                    a = s.single()
                    if a is not None and a.op == "vstackc" and len(a.args[0]) == 2:
                        return T.fill2(v, *a.args[0])
                    raise Opaque("array shape")
                return T.fill(v, s)
            if len(vs) > (2 if n == "full" else 1):
                kw.setdefault("dtype", vs[-1])
            return out(gapply(f, vs[0], val), False, dtype() if n != "full" else None)
        if n in ("zeros_like", "ones_like", "empty_like"):
            val = {"zeros_like": ZERO, "ones_like": ONE, "empty_like": UNINIT}[n]

            def f(x):
                x = num(x)
                if x.scalar:
                    return val
                d = A.dims(x)
                if d is not None and d[0] == "mat":
                    return T.fill2(val, d[1], d[2])
                r = T.fill(val, A.n_elem(x))
                return T.transpose(r) if d is not None and d[0] == "row" else r
            dt = dts[0]
            if "dtype" in kw:
                dt = dtype()
            elif any(isinstance(l, R) and not l.real for l in vs[0].leaves()):
                dt = "c"
            elif dt is None and all(isinstance(l, R) and l.real for l in vs[0].leaves()):
                dt = "f"
            return out(gapply(f, vs[0]), mxs[0], dt)
        if n in ("array", "asarray", "asanyarray", "atleast_1d", "ascontiguousarray"):
            def f(x):
                if isinstance(x, tuple) and x and x[0] in ("lst", "tup") and len(x) > 1 and any(not (isinstance(y, (R, bool)) and (isinstance(y, bool) or y.scalar)) for y in x[1:]):
                    rows = [num(y) for y in x[1:]]
                    if all(not r.scalar for r in rows):
                        return A.explicit(rows)
                x = num(x)
                if n == "atleast_1d" and x.scalar:
                    return A.explicit([x])
                return x
            return out(gapply(f, vs[0]), mxs[0] if n == "asanyarray" else False, dts[0])
        if n == "matrix":
            def f(x):
                x = num(x)
                d = A.dims(x)
                if mxs[0] or d is not None and d[0] == "mat":
                    return x
                return T.transpose(x)
            return out(gapply(f, vs[0]), True, dts[0])
        if n == "multiply":
            return out(gapply(lambda a, b: (lambda p: p[0] * p[1])(self.broadcast(num(a), num(b)) if not num(a).scalar and not num(b).scalar else (num(a), num(b))), *vs[:2]), mxs[0] or mxs[1])
        if n in ("add", "subtract", "divide", "power"):
            op = {"add": ast.Add(), "subtract": ast.Sub(), "divide": ast.Div(), "power": ast.Pow()}[n]
            return out(gapply(lambda a, b: self.arith(op, num(a), num(b), False, False), *vs[:2]), mxs[0] or mxs[1])
        if n in ("dot", "matmul", "inner"):
            return out(gapply(lambda a, b: self.dot(num(a), num(b), mxs[0] or mxs[1]), *vs[:2]), mxs[0] or mxs[1])
        if n == "outer":
            return out(gapply(lambda a, b: T.matmul(num(a), T.transpose(num(b))), *vs[:2]))
        if n == "vdot":
            return out(gapply(lambda a, b: A.npdot(T.conj(num(a)), num(b)), *vs[:2]))
        if n in ("transpose",):
            return out(gapply(lambda a: T.transpose(num(a)) if mxs[0] or (A.dims(num(a)) or ("",))[0] == "mat" else num(a), vs[0]), mxs[0])
        if n == "solve":
            return out(gapply(lambda a, b: A.solve(num(a), num(b)), *vs[:2]))
        if n == "inv":
            return out(gapply(lambda a: A.inv(num(a)), vs[0]), mxs[0])
        axis = kw.get("axis")
        if axis is None and n in ("mean", "sum", "std", "var", "median", "min", "max", "prod", "any", "all", "argmax", "argmin", "cumsum", "amin", "amax") and len(vs) > 1:
            axis = vs[1]
        ax = None
        if axis is not None and axis.v is not None:
            ax = int(axis.v.const())
        red = {"sum": A.total, "mean": A.mean, "prod": A.product, "min": lambda x: A.extreme("min", x), "max": lambda x: A.extreme("max", x),
               "amin": lambda x: A.extreme("min", x), "amax": lambda x: A.extreme("max", x), "median": A.median,
               "argmax": lambda x: argext("argmax", x), "argmin": lambda x: argext("argmin", x)}
        if n in ("var", "std"):
            dd = kw.get("ddof")
            dd = dd.v.const() if dd is not None else 0

            def vr(x):
                v = A.var(x, ONE if dd == 0 else ZERO if dd == 1 else None)
                return T.sqrt(v) if n == "std" else v
            red[n] = vr
        if n in red:
            def f(x):
                x = num(x)
                return self.along(red[n], x, ax)
            return out(gapply(f, vs[0]))
        if n in ("any", "all"):
            def f(x):
                if isinstance(x, bool):
                    return leaf(x)
                x = num(x)
                if x.scalar:
                    return T.truth(leaf(x))
                return A.anyall(n, x)
            return out(gapply(f, vs[0]))
        if n == "percentile":
            a2 = kw.get("axis")
            ax = int(a2.v.const()) if a2 is not None and a2.v is not None else None
            q = vs[1]

            def f(x, q):
                x = num(x)
                if isinstance(q, tuple) and q and q[0] in ("tup", "lst"):
                    return stacked([self.along(lambda y: pctl(y, num(z)), x, ax) for z in q[1:]])
                q = num(q)
                if not q.scalar:
                    a = q.single()
                    if a is not None and a.op == "vstackc":
                        return stacked([self.along(lambda y: pctl(y, z), x, ax) for z in a.args[0]])
                    raise Opaque("percentile list")
                return self.along(lambda y: pctl(y, q), x, ax)
            return out(gapply(f, vs[0], q))
        if n == "reshape":
            sh = vs[1:]
            if len(sh) == 1 and sh[0].c is None and isinstance(sh[0].v, tuple):
                sh = [T.tog(x) for x in sh[0].v[1:]]
            elif len(sh) == 1 and sh[0].c is None and isinstance(sh[0].v, R) and not sh[0].v.scalar:
                a = sh[0].v.single()
                if a is None or a.op != "vstackc":
                    raise Opaque("array shape")
                sh = [leaf(x) for x in a.args[0]]
            sh = [self.as_one(x) for x in sh]

            def f(x):
                x = num(x)
                d = A.dims(x)
                n_ = A.n_elem(x)
                if len(sh) == 1 and (sh[0].const() == -1 or sh[0] is n_):
                    return self.ravel(x)
                if d is not None and d[0] == "mat":
                    if len(sh) == 2 and all(s is k or s.const() == -1 for s, k in zip(sh, d[1:])):
                        return x
                    raise Opaque("reshape")
                if len(sh) == 2 and sh[1] is ONE and (sh[0].const() == -1 or sh[0] is n_):
                    return arr2_of(n_, ONE, lambda p, q: sel(x, p))
                if len(sh) == 2 and sh[0] is ONE and (sh[1].const() == -1 or sh[1] is n_):
                    return arr2_of(ONE, n_, lambda p, q: sel(x, q))
                raise Opaque("reshape")
            return out(gapply(f, vs[0]), False, dts[0])
        if n == "searchsorted":
            right = "side" in kw and kw["side"].v == "right" or len(vs) > 2 and vs[2].v == "right"

            def f(x, y):
                x, y = num(x), num(y)
                if A.sorted_dir(x) != 1 or not y.scalar:
                    raise Opaque("search in an array not known to be sorted")
                k = A.idx_sym(A.n_elem(x))
                return A.total(T.arr(k, A.n_elem(x), ungate((T.le if right else lt)(sel(x, ra(k)), y))))
            return out(gapply(f, *vs[:2]))
        if n == "cumsum":
            return out(gapply(lambda x: A.cumsum(num(x)), vs[0]))
        if n == "diff":
            return out(gapply(lambda x: A.diff(num(x)), vs[0]))
        if n == "argsort":
            return out(gapply(lambda x: A.argsort(num(x)), vs[0]))
        if n == "sort":
            return out(gapply(lambda x: A.sort(num(x)), vs[0]))
        if n == "unique":
            def f(x):
                x = A.canon(num(x))
                u = A.unique(x)
                if kw.get("return_index") is not None:
                    return ("tup", u, ra(atom("uniqueidx", x, real=True, scalar=False, isint=True, nonneg=True, size=T.n_elem(u))) if A.sorted_dir(x) != 1 else iota(A.n_elem(x)))
                return u
            return out(gapply(f, vs[0]))
        if n == "where":
            if len(vs) == 1:
                return out(gapply(lambda x: ("tup", A.find(num(x))), vs[0]))

            def f(c, a, b):
                if isinstance(c, bool):
                    return a if c else b
                c, a, b = num(c), num(a), num(b)
                if c.scalar:
                    return gite(T.regate(T.truth(leaf(c))), leaf(a), leaf(b))
                n_ = A.n_elem(c)
                d = A.dims(c)
                if d is not None and d[0] == "mat":
                    return arr2_of(d[1], d[2], lambda p, q: ungate(gite(T.regate(T.truth(leaf(sel(c, (p, q))))), leaf(a if a.scalar else sel(a, (p, q))), leaf(b if b.scalar else sel(b, (p, q))))))
                v = A.idx_sym(n_)
                t = T.regate(T.truth(leaf(sel(c, ra(v)))))
                return T.arr(v, n_, ungate(gite(t, leaf(a if a.scalar else sel(a, ra(v))), leaf(b if b.scalar else sel(b, ra(v))))))
            return out(gapply(f, *vs[:3]))
        if n in ("append", "concatenate", "hstack"):
            if n == "append":
                return out(gapply(lambda a, b: T.concat(tuple(A.explicit([z]) if z.scalar else z for z in (num(a), num(b)))), *vs[:2]))
            return out(gapply(lambda x: T.concat(tuple(A.explicit([z]) if z.scalar else z for z in [num(y) for y in x[1:]])), vs[0]))
        if n == "insert":
            return out(gapply(lambda x, i, y: A.insert(num(x), num(i), num(y)), *vs[:3]))
        if n == "resize":
            def f(x, m):
                x, m = num(x), num(m)
                o = A.n_elem(x)
                v = A.idx_sym(m)
                return T.arr(v, m, ungate(gite(lt(ra(v), o), leaf(sel(x, ra(v))), leaf(ra(atom("cyc", x, ra(v), real=x.real, scalar=True))))))
            return out(gapply(f, *vs[:2]))
        if n == "arange":
            a = [self.intval(v) for v in vs]
            lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) > 2:
                raise Opaque("arange step")
            v = A.idx_sym(hi - lo)
            return out(leaf(T.arr(v, hi - lo, lo + ra(v))))
        if n == "linspace":
            k = kw.get("num", vs[2] if len(vs) > 2 else leaf(const(50)))
            return out(gapply(lambda a, b, c: A.linspace_np(num(a), num(b), num(c)), vs[0], vs[1], k))
        if n == "logspace":
            k = kw.get("num", vs[2] if len(vs) > 2 else leaf(const(50)))
            return out(gapply(lambda a, b, c: T.exp(T.log(const(10)) * A.linspace_np(num(a), num(b), num(c))), vs[0], vs[1], k))
        if n == "meshgrid":
            def f(a, b):
                a, b = num(a), num(b)
                na, nb = A.n_elem(a), A.n_elem(b)
                return ("lst", arr2_of(nb, na, lambda p, q: sel(a, q)), arr2_of(nb, na, lambda p, q: sel(b, p)))
            return out(gapply(f, *vs[:2]))
        if n == "poly":
            return out(gapply(lambda x: npoly(num(x)), vs[0]))
        if n == "polyval":
            def f(c, x):
                c, x = num(c), num(x)
                m = A.n_elem(c)
                if x.scalar:
                    v = A.idx_sym(m)
                    return T.Sum(v, ZERO, m, sel(c, m - ONE - ra(v)) * T.rpow(x, ra(v)))
                k = A.idx_sym(A.n_elem(x))
                v = A.idx_sym(m)
                return T.arr(k, A.n_elem(x), T.Sum(v, ZERO, m, sel(c, m - ONE - ra(v)) * T.rpow(sel(x, ra(k)), ra(v))))
            return out(gapply(f, *vs[:2]))
        if n == "squeeze":
            return out(gapply(lambda x: self.squeeze(num(x)), vs[0]))
        if n == "ravel":
            return out(gapply(lambda x: self.ravel(num(x)), vs[0]))
        if n == "isscalar":
            return out(gapply(lambda x: bool(isinstance(x, (R, bool)) and (isinstance(x, bool) or x.scalar)), vs[0]))
        if n == "size":
            return out(gapply(lambda x: A.n_elem(num(x)), vs[0]))
        if n in ("isfinite", "isnan"):
            def f(x):
                x = num(x)
                if x.scalar:
                    return T.isfinite(x) if n == "isfinite" else T.isnan(x)
                raise Opaque("array " + n)
            return out(gapply(f, vs[0]))
        if n in ("minimum", "maximum"):
            return out(gapply(lambda a, b: T.minmax(n[:3], (num(a), num(b))), *vs[:2]))
        if n == "eye" or n == "identity":
            return out(gapply(lambda a: A.eye(num(a), num(a)), vs[0]))
        if n == "diag":
            return out(gapply(lambda a: A.diagmat(num(a)) if (A.dims(num(a)) or ("",))[0] != "mat" else A.diag(num(a)), vs[0]))
        if n == "copy":
            return out(vs[0], mxs[0], dts[0])
        if n == "lgamma" or n == "gammaln":
            return out(gapply(lambda a: T.fn1("lgamma", num(a)), vs[0]))
        if n == "isclose":
            raise Opaque("isclose")
        if n == "vander":
            raise Opaque("vander")
        if n == "histogram":
            return out(leaf(("tup", ra(atom("hist", A.canon(num(vs[0].v)), real=True, scalar=False)), ra(atom("edges", A.canon(num(vs[0].v)), real=True, scalar=False)))))
        if n == "genfromtxt":
            return out(leaf(ra(atom("extobj", "genfromtxt", (), real=True, scalar=True))))
        self.externals.add("numpy." + n)
        raise Opaque("numpy.%s" % n)

    def squeeze(self, x):
        d = A.dims(x)
        if d is None or d[0] != "mat":
            return x
        if d[2] is ONE:
            v = A.idx_sym(d[1])
            return T.arr(v, d[1], sel(x, (ra(v), ZERO)))
        if d[1] is ONE:
            v = A.idx_sym(d[2])
            return T.arr(v, d[2], sel(x, (ZERO, ra(v))))
        return x

    def along(self, f, x, ax):
        if x.scalar:
            return x
        d = A.dims(x)
        if d is None or d[0] != "mat":
            return f(x)
        if ax is None:
            if d[2] is ONE or d[1] is ONE:
                return f(self.squeeze(x))
            return f(x)
        n, m = d[1], d[2]
        if ax in (0, -2):
            w = A.idx_sym(m)
            body = f(self.column(x, ra(w), n))
            return T.arr(w, m, body)
        w = A.idx_sym(n)
        return T.arr(w, n, f(self.rowof(x, ra(w), m)))


def arr2_of(n, m, f):
    v, w = A.idx_sym(n), A.idx_sym(m)
    return A.arr2(v, w, n, m, f(ra(v), ra(w)))


def stacked(rows):
    """array of the given numbers, or matrix of the given vectors as its rows"""
    if not rows or all(r.scalar for r in rows):
        return A.explicit(rows)
    if any(r.scalar or (A.dims(r) or ("vec",))[0] == "mat" or A.n_elem(r) is not A.n_elem(rows[0]) for r in rows):
        raise Opaque("ragged rows")

    def at(p, q):
        g = leaf(sel(rows[-1], q))
        for i in range(len(rows) - 2, -1, -1):
            g = gite(eq(p, const(i)), leaf(sel(rows[i], q)), g)
        return ungate(g)
    return arr2_of(const(len(rows)), A.n_elem(rows[0]), at)


def iota(n):
    v = A.idx_sym(n)
    return T.arr(v, n, ra(v))


def argext(op, x):
    x = A.canon(x)
    return ra(atom(op, x, real=True, scalar=True, isint=True, nonneg=True))


def pctl(x, q):
    x = A.canon(x)
    return ra(atom("percentile", x, q, real=True, scalar=True))


def npoly(x):
    x = A.canon(x)
    return ra(atom("poly", x, real=False, scalar=False, size=A.n_elem(x) + ONE))


T.REBUILD["poly"] = npoly
T.REBUILD["percentile"] = pctl
T.REBUILD["argmax"] = lambda x: argext("argmax", x)
T.REBUILD["argmin"] = lambda x: argext("argmin", x)
T.INT_OPS.update(("argmax", "argmin"))
UNINIT = ra(atom("uninit", real=True, scalar=True))


def _flat(t):
    out = []
    for y in t:
        if isinstance(y, tuple):
            out.append(_flat(y))
        elif isinstance(y, R):
            out.append(A.canon(y))
        else:
            out.append(y if isinstance(y, (str, bool, int)) or y is None else str(y))
    return tuple(out)


def parse_modules(paths):
    """name -> path  =>  name -> (path, tree)"""
    out = {}
    for n, p in paths.items():
        with open(p) as f:
            src = f.read()
        out[n] = (p, ast.parse(src, p))
    return out
