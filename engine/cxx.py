"""C++ front end: abstract evaluation of the type-checked syntax tree into gated value numbers."""
import math, re
from fractions import Fraction
import terms as T
import arrays as A
from terms import (R, G, Atom, Opaque, leaf, gite, gnode, gapply, gand, gor, gnot, TRUE, FALSE, ZERO, ONE, ra, const, atom, subst, ungate, sel,
                   eq, lt)
from core import Machine, Obj, Outs, State, Undef, UNDEF, Exc

INTS = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "char", "unsigned char",
        "signed char", "size_t", "std::size_t", "bool"}
FLOATS = {"double", "float", "long double"}
LIBM = {"exp", "log", "sqrt", "sin", "cos", "tan", "fabs", "abs", "floor", "ceil", "lgamma", "log10", "log2", "log1p", "expm1", "tanh", "sinh", "cosh",
        "atan", "erf", "round", "trunc", "square"}


def strip(t):
    t = (t or "").strip()
    while True:
        o = t
        t = re.sub(r"^(const|volatile)\s+", "", t)
        t = re.sub(r"\s*(&&|&)$", "", t)
        t = re.sub(r"\s+const$", "", t)
        if t == o:
            return t


def is_ref(t):
    return (t or "").rstrip().endswith("&")


def is_int(t):
    return strip(t) in INTS and strip(t) != "bool"


def is_unsigned(t):
    t = strip(t)
    return t in INTS and ("unsigned" in t or "size_t" in t)


def is_num(t):
    return strip(t) in INTS or strip(t) in FLOATS or strip(t).startswith("std::complex")


def is_arma(t):
    return strip(t).startswith(("arma::Col", "arma::Mat", "arma::Row", "arma::subview", "arma::Op", "arma::eOp", "arma::eGlue", "arma::Glue", "arma::mt",
                                "arma::Gen", "arma::diagview", "arma::Base", "arma::CxOp", "arma::Cube", "arma::spdiagview"))


def is_stdvec(t):
    return strip(t).startswith(("std::vector", "std::deque", "std::list", "std::array", "std::initializer_list"))


class Frame:
    n = 0

    def __init__(self, fn, this, parent=None):
        Frame.n += 1
        self.fid = Frame.n
        self.fn, self.this, self.parent = fn, this, parent
        self.b = {}

    def look(self, i):
        f = self
        while f is not None:
            if i in f.b:
                return f.b[i]
            f = f.parent
        return None


class Closure:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


GENERATOR = re.compile(r"mersenne_twister|linear_congruential|subtract_with_carry|random_device|lagged_fibonacci|ranlux|rand48|taus88|hellekalek|inversive_congruential|additive_combine|discard_block|shuffle_order|independent_bits|xor_combine|linear_feedback")
DISTS = {"normal_distribution": "normal", "uniform_real_distribution": "uniform", "uniform_01": "uniform", "uniform_real": "uniform",
         "uniform_int_distribution": "uniform_int", "lognormal_distribution": "lognormal", "exponential_distribution": "exponential",
         "student_t_distribution": "student", "chi_squared_distribution": "chisq", "gamma_distribution": "gamma", "poisson_distribution": "poisson",
         "bernoulli_distribution": "bernoulli"}
DIST_DEFAULT = {"normal": (ZERO, ONE), "uniform": (ZERO, ONE), "uniform_int": (ZERO, const(9)), "lognormal": (ZERO, ONE), "exponential": (ONE,),
                "student": (ONE,), "chisq": (ONE,), "gamma": (ONE, ONE)}


def dist_of(t):
    t = strip(t)
    m = re.match(r"(?:boost::random|std|boost)::(\w+)(<.*>)?(::param_type)?$", t)
    if m and m.group(1) in DISTS:
        return DISTS[m.group(1)], bool(m.group(3))
    return None


class Cxx(Machine):
    def __init__(self, prog, assume_no_throw=True):
        Machine.__init__(self)
        self.prog = prog
        self.F, self.C = prog["functions"], prog["classes"]
        self.nothrow = assume_no_throw
        self.pend = []
        self.frame = None
        self.objs = {}
        self.iters = {}
        self.inlined = set()
        self.externals = set()
        self.sites = 0
        self.origin = {}
        self.abstract_new = None     # predicate: class name -> model construction as a term
        self.numbered = 0            # give constructed objects distinct names
        self.stubs = {}              # qualified name -> handler(machine, this, args, st, node)
        self.field_values = {}       # (object name, field) -> G
        self.field_class = {}        # (object name, field) -> dynamic class of a reference/pointer field
        gens = [q for q, v in prog["vars"].items() if GENERATOR.search(v.get("t") or "")]
        self.generator = gens[0] if len(gens) == 1 else "rng"
        self.overriders = None
        self.curfile = None
        self.line = 0
        self.deadline = None

    # -- program structure ---------------------------------------------------
    def find(self, q, nargs=None, pred=None):
        out = [f for f in self.F.values() if f["q"] == q and f.get("s") is not None and (nargs is None or len(f["p"]) == nargs) and (pred is None or pred(f))]
        return out

    def cls(self, name):
        return self.C.get(strip(name))

    def bases(self, name):
        out, st = [], [strip(name)]
        while st:
            x = st.pop(0)
            if x in out:
                continue
            out.append(x)
            c = self.C.get(x)
            if c:
                st += [strip(b) for b in c["bases"]]
        return out

    def over_map(self):
        if self.overriders is None:
            self.overriders = {}
            for f in self.F.values():
                for o in f.get("over") or []:
                    self.overriders.setdefault(o, set()).add(f["f"])
            for c in self.C.values():
                for mth in c["methods"]:
                    for o in mth.get("over") or []:
                        self.overriders.setdefault(o, set()).add(mth["f"])
        return self.overriders

    def all_over(self, f):
        om = self.over_map()
        out, st = set(), [f]
        while st:
            x = st.pop()
            for y in om.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return out

    def dispatch(self, cls, f):
        """final overrider of f in dynamic class cls"""
        cand = self.all_over(f) | {f}
        for b in self.bases(cls):
            c = self.C.get(b)
            if not c:
                continue
            for mth in c["methods"]:
                if mth["f"] in cand:
                    return mth["f"]
        return f

    # -- symbolic defaults --------------------------------------------------
    def default(self, key):
        v = Machine.default(self, key)
        if v is not None:
            return v
        if key in self.objs:
            return self.objs[key]
        if key[0] == "f":
            obj, owner, name = key[1], key[2], key[3]
            if not obj.symbolic:
                return None
            v = self.field_values.get((obj.name, name))
            if v is None:
                t = None
                c = self.C.get(owner)
                if c:
                    for fl in c["fields"]:
                        if fl["n"] == name:
                            t = fl["t"]
                if t is None:
                    return None
                v = self.symbolic("%s.%s" % (obj.name, name), t, (obj.name, name))
            self.objs[key] = v
            return v
        if key[0] == "g":
            v = self.prog["vars"].get(key[1])
            if v is None:
                return None
            t = strip(v.get("t"))
            if t in self.C:
                g = leaf(Obj(key[1], t, symbolic=True, exact=True))
            elif GENERATOR.search(t) and "distribution" not in t:
                g = leaf(("gen", key[1]))
            else:
                g = self.symbolic(key[1], t, (None, key[1]))
            self.objs[key] = g
            return g
        return None

    def symbolic(self, name, t, fkey=None):
        """a fresh symbolic value of a type"""
        t0 = t
        t = strip(t)
        d = dist_of(t)
        if d:
            return leaf(("dist", d[0], DIST_DEFAULT.get(d[0], ())))
        if t == "bool":
            return gnode(atom("sym", name, real=True, scalar=True), TRUE, FALSE)
        if t in INTS:
            return leaf(T.sym(name, isint=True, nonneg=is_unsigned(t)))
        if t in FLOATS:
            return leaf(T.sym(name))
        if t.startswith("std::complex"):
            return leaf(T.sym(name, real=False))
        if t.startswith("std::basic_string"):
            return leaf(T.sym(name))
        if is_stdvec(t):
            inner = t[t.index("<") + 1:]
            if inner.startswith(("arma::Col", "std::vector")):
                return leaf(T.sym(name, real="complex" not in inner, scalar=False, size=T.sym("n(%s)" % name, isint=True, nonneg=True)))
            return leaf(T.sym(name, real="complex" not in inner, scalar=False, size=T.sym("n(%s)" % name, isint=True, nonneg=True)))
        if is_arma(t):
            real = "complex" not in t
            isint = "unsigned" in t
            if t.startswith(("arma::Col",)):
                return leaf(T.sym(name, real=real, scalar=False, isint=isint, size=T.sym("n(%s)" % name, isint=True, nonneg=True)))
            if t.startswith("arma::Row"):
                return leaf(T.transpose(T.sym(name, real=real, scalar=False, size=T.sym("n(%s)" % name, isint=True, nonneg=True))))
            return leaf(T.sym(name, real=real, scalar=False))
        m = re.match(r"std::shared_ptr<(.*)>$", t) or re.match(r"std::unique_ptr<([^,]*).*>$", t)
        ptr = m.group(1) if m else (t[:-1].strip() if t.endswith("*") else None)
        c = strip(ptr) if ptr else t
        if fkey in self.field_class:
            return leaf(Obj(name, self.field_class[fkey], symbolic=True, exact=True))
        if c in self.C:
            return leaf(Obj(name, c, symbolic=True, exact=not (ptr or is_ref(t0))))
        if t.startswith(("boost::ptr_vector",)):
            return leaf(T.sym(name, scalar=False, size=T.sym("n(%s)" % name, isint=True, nonneg=True)))
        if t.startswith(("std::set", "std::map")):
            return leaf(T.sym(name, scalar=False, size=T.sym("n(%s)" % name, isint=True, nonneg=True)))
        if GENERATOR.search(t) and "distribution" not in t:
            return leaf(("gen", name))
        return leaf(("ext", t, name))

    # -- lvalues -----------------------------------------------------------
    def load(self, lv, st):
        k = lv[0]
        if k == "key":
            return self.read(st, lv[1])
        if k == "val":
            return lv[1]
        if k == "obj":
            return leaf(lv[1])
        b = self.load(lv[1], st)
        if k == "elem":
            return gapply(lambda x: self.elem(x, lv[2]), b)
        if k == "slice":
            return gapply(lambda x: T.slice_(self.num(x), lv[2], lv[3]), b)
        if k == "row":
            return gapply(lambda x: T.transpose(sel(x, (lv[2], ":"))), b)
        if k == "col":
            return gapply(lambda x: sel(x, (":", lv[2])), b)
        if k == "rowslice":
            return gapply(lambda x: T.transpose(T.slice_(sel(x, (lv[2], ":")), lv[3], lv[4])), b)
        if k == "colslice":
            return gapply(lambda x: T.slice_(sel(x, (":", lv[4])), lv[2], lv[3]), b)
        if k == "diag":
            return gapply(lambda x: A.diag(x), b)
        if k == "gather":
            return gapply(lambda x: A.gather(x, lv[2]), b)
        if k == "pf":
            return gapply(lambda x: self.pairget(x, lv[2]), b)
        if k == "mapel":
            return gapply(lambda x: A.mapget(x, lv[2]), b)
        raise Opaque("load %s" % k)

    def pairget(self, x, i):
        if isinstance(x, tuple) and x[0] == "pair":
            return x[1 + i]
        if isinstance(x, R):
            return ra(atom("pairget", x, i, real=True, scalar=True))
        raise Opaque("member of %r" % (x,))

    def elem(self, x, i):
        if isinstance(x, R):
            if A.ismap(x):
                return A.mapitem(x, i)
            v = sel(x, i)
            return v
        if isinstance(x, tuple) and x and x[0] == "list":
            c = i.const() if isinstance(i, R) else None
            if c is not None and 0 <= int(c) < len(x) - 1:
                return x[1 + int(c)]
            raise Opaque("symbolic index into a list of objects")
        raise Opaque("element of %r" % (x,))

    def num(self, x):
        if isinstance(x, R):
            return x
        if isinstance(x, bool):
            return const(int(x))
        raise Opaque("not numeric: %r" % (x,))

    def store(self, lv, v, st):
        k = lv[0]
        self.note_origin(v)
        if k == "key":
            st[lv[1]] = v
            return
        if k == "val":
            return                       # write to a temporary
        if k == "obj":
            self.copy_obj_into(lv[1], v, st)
            return
        b = self.load(lv[1], st)
        if k == "elem":
            if isinstance(b.leaves()[0], tuple):
                def f(x, y):
                    c = lv[2].const()
                    if c is None:
                        raise Opaque("symbolic store into a list")
                    x = list(x)
                    x[1 + int(c)] = y
                    return tuple(x)
                self.store(lv[1], gapply(f, b, v), st)
                return
            nv = gapply(lambda x, y: A.store_elem(x, lv[2], y if isinstance(y, (R, bool)) else self.objref(y)), b, v)
        elif k == "slice":
            nv = gapply(lambda x, y: A.store_slice(x, lv[2], lv[3], self.num(y)), b, v)
        elif k == "row":
            nv = gapply(lambda x, y: T.store(x, (lv[2], ":"), T.transpose(self.num(y))), b, v)
        elif k == "col":
            nv = gapply(lambda x, y: T.store(x, (":", lv[2]), self.num(y)), b, v)
        elif k == "rowslice":
            nv = gapply(lambda x, y: A.store_rowslice(x, lv[2], lv[3], lv[4], T.transpose(self.num(y))), b, v)
        elif k == "colslice":
            nv = gapply(lambda x, y: A.store_colslice(x, lv[4], lv[2], lv[3], self.num(y)), b, v)
        elif k == "diag":
            nv = gapply(lambda x, y: A.store_diag(x, self.num(y)), b, v)
        elif k == "gather":
            nv = gapply(lambda x, y: A.scatter(x, lv[2], self.num(y)), b, v)
        elif k == "pf":
            def f(x, y):
                x = list(x)
                x[1 + lv[2]] = y
                return tuple(x)
            nv = gapply(f, b, v)
        elif k == "mapel":
            nv = gapply(lambda x, y: A.mapset(x, lv[2], y if isinstance(y, R) else self.objref(y)), b, v)
        else:
            raise Opaque("store %s" % k)
        self.store(lv[1], nv, st)

    def objref(self, y):
        """object identity as a value usable inside arrays"""
        if isinstance(y, Obj):
            a = atom("objref", y.oid, y.name, y.cls, real=True, scalar=True)
            self.iters[a] = y
            return ra(a)
        if isinstance(y, R):
            return y
        if isinstance(y, str):
            return ra(atom("str", y, real=True, scalar=True))
        if isinstance(y, tuple) and len(y) == 2 and y[0] == "ptr" and y[1][0] == "val":
            v = y[1][1]
            v = v.v if isinstance(v, G) and v.c is None else v
            if isinstance(v, (R, Obj)):
                return self.objref(v)
        if isinstance(y, tuple) and y and y[0] == "pair":
            return ra(atom("pairv", *[self.objref(z) if not isinstance(z, R) else z for z in y[1:]], real=True, scalar=True))
        raise Opaque("cannot put %r in an array" % (y,))

    def note_origin(self, v):
        if self.curfile and isinstance(v, G) and v.c is None and isinstance(v.v, R):
            self.origin.setdefault(v.v.uid, (self.curfile, self.line, self.frame.fn["q"] if self.frame else "?"))

    # -- objects ------------------------------------------------------------
    def fkey(self, obj, owner, name):
        return ("f", obj, owner, name)

    def referent(self, g, st):
        """object a value, pointer or reference denotes, else None"""
        for _ in range(6):
            if g.c is not None:
                return None
            o = g.v
            if isinstance(o, Obj):
                return o
            if isinstance(o, R):
                a = o.single()
                if a is not None and a.op == "objref":
                    return self.iters[a]
                return None
            if isinstance(o, tuple) and len(o) == 2 and o[0] == "ptr":
                g = self.load(o[1], st)
                continue
            return None

    def copy_obj(self, g, st):
        def f(o):
            if not isinstance(o, Obj):
                return o
            n = Obj(o.name + "'", o.cls, symbolic=o.symbolic, exact=o.info.get("exact"))
            for b in self.bases(o.cls):
                c = self.C.get(b)
                if not c:
                    continue
                for fl in c["fields"]:
                    v = self.read(st, ("f", o, b, fl["n"]))
                    if v is not UNDEF:
                        st[("f", n, b, fl["n"])] = v
            return n
        return gapply(f, g)

    def copy_obj_into(self, dst, g, st):
        if g.c is not None or not isinstance(g.v, Obj):
            raise Opaque("assignment of a gated object")
        o = g.v
        for b in self.bases(o.cls):
            c = self.C.get(b)
            if not c:
                continue
            for fl in c["fields"]:
                v = self.read(st, ("f", o, b, fl["n"]))
                if v is not UNDEF:
                    st[("f", dst, b, fl["n"])] = v

    def construct(self, cls, f, args, st, node=None, obj=None):
        """run constructor f of repo class cls on a fresh object"""
        cls = strip(cls)
        if obj is None:
            obj = Obj(cls + "@%s" % (node or {}).get("l", ""), cls, exact=True)
            if self.numbered:
                self.numbered += 1
                obj.name += "#%d" % self.numbered
        fn = self.F.get(f)
        if fn is None or fn.get("s") is None and not fn.get("inits"):
            # implicit constructor: default-construct bases and class-type fields
            c = self.C.get(cls)
            if c is None:
                raise Opaque("constructor of %s" % cls)
            for b in c["bases"]:
                self.default_construct(b, obj, st)
            for fl in c["fields"]:
                v = self.default_value(fl["t"], st)
                if v is not None:
                    st[("f", obj, cls, fl["n"])] = v
            if args and fn is None:
                src = self.load(args[0], st)
                if src.c is None and isinstance(src.v, Obj):
                    self.copy_obj_into(obj, src, st)
            return leaf(obj)
        self.invoke(fn, leaf(obj), args, st, ctor_cls=cls)
        return leaf(obj)

    def default_construct(self, cls, obj, st):
        c = self.C.get(strip(cls))
        if c is None:
            return
        for mth in c["methods"]:
            if mth.get("ctor") and not mth.get("pt"):
                fn = self.F.get(mth["f"])
                if fn is not None:
                    self.invoke(fn, leaf(obj), [], st, ctor_cls=strip(cls))
                    return
        for b in c["bases"]:
            self.default_construct(b, obj, st)
        for fl in c["fields"]:
            v = self.default_value(fl["t"], st)
            if v is not None:
                st[("f", obj, strip(cls), fl["n"])] = v

    def default_value(self, t, st):
        """value of a default-constructed object of type t (None: indeterminate)"""
        if is_ref(t):
            return None
        t = strip(t)
        d = dist_of(t)
        if d:
            return leaf(("dist", d[0], DIST_DEFAULT.get(d[0], ())))
        if is_stdvec(t) or t.startswith(("arma::Col", "arma::Row")):
            return leaf(T.fill(ZERO, ZERO))
        if t.startswith("arma::Mat"):
            return leaf(T.fill2(ZERO, ZERO, ZERO))
        if t.startswith("std::complex"):
            return leaf(ZERO)
        if t.startswith("std::basic_string"):
            return leaf("")
        if t.startswith("boost::ptr_vector"):
            return leaf(T.fill(ZERO, ZERO))
        if t.startswith("std::set"):
            return leaf(T.fill(ZERO, ZERO))
        if t.startswith("std::map"):
            return leaf(ra(atom("emptymap", real=True, scalar=False, size=ZERO)))
        if t.startswith(("std::shared_ptr", "std::unique_ptr")):
            return leaf(None)
        if t in self.C:
            o = Obj(t, t, exact=True)
            self.default_construct(t, o, st)
            return leaf(o)
        if t.startswith("std::pair"):
            return leaf(("pair", ZERO, ZERO))
        if t in INTS or t in FLOATS or t.endswith("*"):
            return None
        return leaf(("ext", t, "default"))

    # -- calls ---------------------------------------------------------------
    def invoke(self, fn, this, args, st, ctor_cls=None):
        """run a repo function; args are lvalues.  Mutates st, returns the value."""
        if self.depth > 40:
            raise Opaque("call depth")
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Opaque("time limit")
        self.inlined.add(fn["f"])
        self.sites += 1
        fr = Frame(fn, this)
        keys = []
        for i, p in enumerate(fn["p"]):
            if i < len(args):
                lv = args[i]
            elif p.get("def") is not None:
                save = self.frame
                self.frame = fr
                lv = ("val", self.ev(p["def"], st))
                self.frame = save
            else:
                raise Opaque("missing argument %s of %s" % (p["n"], fn["q"]))
            if is_ref(p["t"]):
                fr.b[p["id"]] = lv
            else:
                v = self.load(lv, st)
                v = self.coerce(v, p["t"])
                if strip(p["t"]) in self.C:
                    v = self.copy_obj(v, st)
                key = ("v", fr.fid, p["id"], p["n"])
                st[key] = v
                fr.b[p["id"]] = ("key", key)
        save, sf, sl, sp = self.frame, self.curfile, self.line, self.pend
        self.frame, self.curfile, self.pend = fr, fn["file"], []
        self.depth += 1
        try:
            o0 = Outs()
            o0["next"] = (TRUE, st.copy(), None)
            if fn.get("inits") is not None and fn.get("ctor"):
                self.run_inits(fn, this.v, o0["next"][1])
                o0 = self.split_pending(o0["next"][1])
            outs = Outs()
            for kind, (c, s, v) in o0.items():
                if kind != "next":
                    outs.add(self, kind, c, s, v)
                    continue
                if fn.get("s") is None:
                    outs.add(self, "next", c, s)
                    continue
                for k2, (c2, s2, v2) in self.ex(fn["s"], s).items():
                    outs.add(self, k2, gand(c, c2), s2, v2)
        finally:
            self.frame, self.curfile, self.line, self.pend = save, sf, sl, sp
            self.depth -= 1
        res = Outs()
        for kind, (c, s, v) in outs.items():
            s = State({k: x for k, x in s.items() if not (k[0] == "v" and k[1] == fr.fid)})
            if kind == "throw":
                self.pend.append((c, s, v))
            elif kind in ("next", "return"):
                res.add(self, "done", c, s, v if v is not None else (leaf(None) if kind == "return" or True else None))
            else:
                raise Opaque("stray %s" % kind)
        if "done" not in res:
            # always throws
            return UNDEF
        c, s, v = res["done"]
        st.clear()
        st.update(s)
        if v is not None and self.pend:
            pass
        return v if v is not None else leaf(None)

    def run_inits(self, fn, obj, st):
        for it in fn.get("inits") or []:
            e = it.get("e")
            if it.get("base") is not None or it.get("deleg") is not None:
                base = strip(it.get("base") or it.get("deleg"))
                if e and e.get("k") == "ctor" and base in self.C:
                    args = [self.lv(a, st) for a in e["a"]]
                    self.construct(base, e["f"], args, st, e, obj=obj)
                continue
            owner = fn["o"]
            key = ("f", obj, owner, it["field"])
            if e is None:
                continue
            ft = it.get("ft") or ""
            if is_ref(ft):
                lv = self.lv(e, st)
                v = self.load(lv, st)
                st[key] = v if (v.c is None and isinstance(v.v, Obj)) else leaf(("ptr", lv))
                continue
            v = self.ev(e, st)
            if v is UNDEF or v.c is None and v.v is None and strip(ft) not in self.C and not ft.startswith(("std::shared", "std::unique")) and not ft.endswith("*"):
                continue
            st[key] = self.coerce(v, ft)

    def coerce(self, v, t):
        t = strip(t)
        if t in INTS and t != "bool":
            return gapply(lambda x: const(int(x)) if isinstance(x, bool) else x, v)
        if t in FLOATS:
            return gapply(lambda x: const(int(x)) if isinstance(x, bool) else x, v)
        if t == "bool":
            if any(isinstance(l, R) for l in v.leaves()):
                return T.truth(v)
        return v

    def call_virtual(self, f, this, args, st, node):
        """method f on gated object value `this`"""
        this = gapply(self.candidates, this)
        if this.c is None:
            return self.call_on(f, this.v, args, st, node)
        outs = Outs()
        todo = [(TRUE, this)]
        # group leaves by identity, run each under its condition
        leaves = this.leaves()
        for l in leaves:
            c = gapply(lambda x: x is l or (isinstance(x, tuple) and x == l), this)
            if l is None:
                continue                      # null pointer paths are out of contract
            s = st.copy()
            v = self.call_on(f, l, args, s, node)
            outs.add(self, "done", c, s, v)
        if "done" not in outs:
            raise Opaque("call through null")
        c, s, v = outs["done"]
        st.clear()
        st.update(s)
        return v

    def candidates(self, o):
        """an element of a known list of objects at an unknown position: one case per object"""
        a = o.single() if isinstance(o, R) else None
        if a is None or a.op != "sel":
            return o
        base = a.args[0].single() if isinstance(a.args[0], R) else None
        i = a.args[1]
        if base is None or base.op not in ("vstackc", "concat") or not isinstance(i, R):
            return o
        objs = [x.single() if isinstance(x, R) else None for x in base.args[0]]
        if any(x is None or x.op != "objref" for x in objs):
            return o
        g = leaf(Obj("outside(%s)" % a.uid, self.iters[objs[0]].cls, symbolic=True, exact=True))
        for k in reversed(range(len(objs))):
            g = gite(eq(i, const(k)), leaf(self.iters[objs[k]]), g)
        return g

    def call_on(self, f, o, args, st, node):
        virt = node.get("virt")
        fn = self.F.get(f)
        if isinstance(o, R):
            a = o.single()
            if a is not None and a.op == "objref":
                o = self.iters[a]
        if isinstance(o, tuple) and o and o[0] == "ptr":
            g = self.load(o[1], st)
            return self.call_virtual(f, g, args, st, node)
        if isinstance(o, Obj):
            if virt and o.cls in self.C:
                if o.info.get("exact"):
                    f2 = self.dispatch(o.cls, f)
                    fn = self.F.get(f2)
                elif self.all_over(f) or fn is None:
                    return self.uninterpreted(f, o, args, st, node)
            if fn is None or fn.get("s") is None:
                return self.uninterpreted(f, o, args, st, node)
            if fn["q"] in self.stubs:
                return self.stubs[fn["q"]](self, o, args, st, node)
            return self.invoke(fn, leaf(o), args, st)
        if isinstance(o, R):
            return self.uninterpreted(f, o, args, st, node)
        raise Opaque("method call %s on %r" % (node.get("n"), o))

    def method(self, cls, name, nargs=None):
        """the declaration of a method visible in a class (most derived first)"""
        for b in self.bases(cls):
            c = self.C.get(b)
            for mt in (c or {}).get("methods", []):
                if mt["n"] == name and not mt.get("implicit") and (nargs is None or len(mt.get("pt") or []) == nargs):
                    return mt
        return None

    def call_method(self, obj, name, args, st, nargs=None):
        """call a public method on an abstract object, as a client would"""
        o = obj.v if isinstance(obj, G) else obj
        mt = self.method(o.cls, name, nargs if nargs is not None else len(args))
        if mt is None:
            raise KeyError("%s::%s" % (o.cls, name))
        lvs = [a if isinstance(a, tuple) and a and a[0] in ("val", "key", "obj", "elem") else ("val", a if isinstance(a, G) else leaf(a)) for a in args]
        return self.call_on(mt["f"], o, lvs, st, {"virt": mt.get("virt"), "n": name, "o": o.cls, "t": mt.get("t"), "f": mt["f"]})

    # uninterpreted methods of unknown objects ---------------------------------
    def uses_rng(self, f, seen=None):
        cache = self.__dict__.setdefault("_rngc", {})
        if f in cache:
            return cache[f]
        seen = seen if seen is not None else set()
        if f in seen:
            return False
        seen.add(f)
        res = False
        for g in {f} | self.all_over(f):
            fn = self.F.get(g)
            if fn is None or fn.get("s") is None:
                continue
            for n in walk(fn["s"]):
                if n.get("k") == "ref" and n.get("q") in ("rng",) or n.get("k") == "ref" and n.get("n") == "rng":
                    res = True
                elif n.get("k") in ("call", "mcall", "op") and n.get("f") in self.F and self.uses_rng(n["f"], seen):
                    res = True
                elif n.get("k") == "mcall" and n.get("n") in ("randu", "randn"):
                    res = True
                if res:
                    break
        if len(seen) <= 1 or res:
            cache[f] = res
        return res

    def world_key(self, name, obj):
        return ("world",)

    def argval(self, lv, st):
        v = self.load(lv, st)
        if any(isinstance(l, Obj) for l in v.leaves()):
            v = gapply(lambda x: self.objref(x) if isinstance(x, Obj) else x, v)
        return v

    def uninterpreted(self, f, o, args, st, node):
        name = node.get("n")
        owner = strip(node.get("o"))
        ref = o if isinstance(o, R) else ra(atom("sym", "obj:" + o.name, real=True, scalar=True))
        vals = [self.argval(a, st) for a in args]
        vals = [gapply(lambda x: x if isinstance(x, R) else (const(int(x)) if isinstance(x, bool) else self.objref(x)), v) for v in vals]
        t = strip(node.get("t"))
        mname = self.canon_method(f, owner, name)
        if t == "void":
            key = self.world_key(mname, o)
            w = self.read(st, key)
            st[key] = gapply(lambda w, *xs: ra(atom("event", mname, w, ref, tuple(xs), real=True, scalar=True)), w, *vals)
            return leaf(None)
        isvec = is_arma(t) or is_stdvec(t)
        if self.uses_rng(f):
            return self.draw(st, "call:" + mname, [leaf(ref)] + vals) if not isvec else \
                self.draw(st, "call:" + mname, [leaf(ref)] + vals, size=self.value_size(vals))

        def g(*xs):
            return ra(atom("call", mname, ref, tuple(xs), real=True, scalar=not isvec, isint=t in INTS))
        v = gapply(g, *vals) if vals else leaf(g())
        if t == "bool":
            return gapply(lambda x: gnode(x.single(), TRUE, FALSE), v)
        if t.endswith("*") or is_ref(node.get("t")) and t in self.C:
            def h(x):
                a = x.single()
                k = ("ptrobj", a.uid)
                if k not in self.objs:
                    c = strip(t[:-1]) if t.endswith("*") else t
                    self.objs[k] = leaf(Obj(T.show_atom(a), c, symbolic=True, exact=False, ref=x))
                return self.objs[k].v
            return gapply(h, v)
        return v

    def value_size(self, vals):
        """length of the vector returned by an unknown vector-valued function: that of its vector argument"""
        for v in vals:
            ns = {A.n_elem(x) for x in v.leaves() if isinstance(x, R) and not x.scalar}
            if len(ns) == 1 and None not in ns:
                return ns.pop()
        return ra(atom("sym", "size of the result", real=True, scalar=True, isint=True, nonneg=True))

    def canon_method(self, f, owner, name):
        """name of a method by the class that introduced it"""
        fn = self.F.get(f)
        seen = set()
        while True:
            ov = (fn or {}).get("over") or []
            if not ov or f in seen:
                break
            seen.add(f)
            f = ov[0]
            fn = self.F.get(f)
            if fn:
                owner = fn["o"]
        return name

    # -- statements ------------------------------------------------------------
    def split_pending(self, st):
        outs = Outs()
        ok = TRUE
        for c, s, v in self.pend:
            cc = gand(ok, c)
            outs.add(self, "throw", cc, s, v)
            ok = gand(ok, gnot(c))
        self.pend = []
        outs.add(self, "next", ok, st)
        return outs

    def ex(self, s, st):
        k = s["k"]
        self.line = s.get("l", self.line)
        h = getattr(self, "s_" + k, None)
        if h is None:
            raise Opaque("statement %s at line %s" % (k, s.get("l")))
        return h(s, st)

    def nxt(self, st):
        o = Outs()
        o["next"] = (TRUE, st, None)
        return o

    def s_null(self, s, st):
        return self.nxt(st)

    def s_expr(self, s, st):
        self.pend = []
        st = st.copy()
        self.ev(s["e"], st)
        return self.split_pending(st)

    def s_block(self, s, st):
        before = set(st)
        fid = self.frame.fid
        outs = self.run_seq(s["a"], st, self.ex)
        return self.scope_exit(outs, s["a"], fid)

    def scope_exit(self, outs, stmts, fid):
        ids = set()
        for x in stmts:
            if x and x.get("k") == "decl":
                for d in x["a"]:
                    ids.add(d.get("id"))
                    for b in d.get("bind") or []:
                        ids.add(b.get("id"))
        if not ids:
            return outs
        res = Outs()
        for kind, (c, st, v) in outs.items():
            st = State({k: x for k, x in st.items() if not (k[0] == "v" and k[1] == fid and k[2] in ids)})
            res[kind] = (c, st, v)
        return res

    def s_decl(self, s, st):
        self.pend = []
        st = st.copy()
        for d in s["a"]:
            self.declare(d, st)
        return self.split_pending(st)

    def declare(self, d, st):
        if "id" not in d:
            return
        key = ("v", self.frame.fid, d["id"], d["n"])
        t = d.get("t", "")
        if d.get("static"):
            key = ("sv", self.frame.fn["f"], d["n"])
            self.frame.b[d["id"]] = ("key", key)
            if d.get("i") is not None and "const" in t:
                st[key] = self.ev(d["i"], st)
            return
        i = d.get("i")
        if d.get("bind"):
            lv = self.lv(i, st)
            for n, b in enumerate(d["bind"]):
                self.frame.b[b["id"]] = ("pf", lv, n)
            return
        if is_ref(t) and i is not None:
            self.frame.b[d["id"]] = self.lv(i, st)
            return
        self.frame.b[d["id"]] = ("key", key)
        if i is not None:
            v = self.ev(i, st)
            if v is UNDEF:
                st.pop(key, None)
                return
            v = self.coerce(v, t)
            if strip(t) in self.C and i.get("k") != "ctor" and v.c is None and isinstance(v.v, Obj) and i.get("k") in ("ref", "mem", "op", "sub"):
                v = self.copy_obj(v, st)
            st[key] = v
            self.note_origin(v)
        else:
            v = self.default_value(t, st)
            if v is not None:
                st[key] = v
            else:
                st.pop(key, None)

    def s_if(self, s, st):
        ids = []
        if s.get("init"):
            o = self.ex(s["init"], st)
            c, st, _ = o["next"]
            ids.append(s["init"])
        st = st.copy()
        self.pend = []
        if s.get("cv"):
            cv = s["cv"]
            decl = cv if cv.get("k") == "decl" else {"k": "decl", "a": [cv]}
            o = self.ex(decl, st)
            c, st, _ = o["next"]
            st = st.copy()
            ids.append(decl)
        c = self.cond(s["c"], st)
        pre = self.split_pending(st)
        outs = Outs()
        for kind, (c0, s0, v0) in pre.items():
            if kind != "next":
                outs.add(self, kind, c0, s0, v0)
                continue
            if c is not FALSE:
                for k2, (c2, s2, v2) in self.ex(s["x"], s0).items():
                    outs.add(self, k2, gand(gand(c0, c), c2), s2, v2)
            if c is not TRUE:
                nc = gand(c0, gnot(c))
                if s.get("y"):
                    for k2, (c2, s2, v2) in self.ex(s["y"], s0).items():
                        outs.add(self, k2, gand(nc, c2), s2, v2)
                else:
                    outs.add(self, "next", nc, s0)
        return self.scope_exit(outs, ids, self.frame.fid)

    def s_ret(self, s, st):
        self.pend = []
        st = st.copy()
        v = leaf(None)
        if s.get("e") is not None:
            rt = self.frame.fn.get("t", "")
            if is_ref(rt):
                v = self.load(self.lv(s["e"], st), st)
                self.ret_lv = None
            else:
                v = self.coerce(self.ev(s["e"], st), rt)
            self.note_origin(v)
        o = self.split_pending(st)
        if "next" in o:
            c, s1, _ = o.pop("next")
            o.add(self, "return", c, s1, v)
        return o

    def s_break(self, s, st):
        o = Outs()
        o["break"] = (TRUE, st, None)
        return o

    def s_continue(self, s, st):
        o = Outs()
        o["continue"] = (TRUE, st, None)
        return o

    def pure_head(self, e):
        def head(st):
            self.pend = []
            st = st.copy()
            c = self.cond(e, st) if e is not None else TRUE
            if self.pend:
                raise Opaque("exception in a loop test")
            return c, st
        return head

    def s_for(self, s, st):
        ids = []
        if s.get("init"):
            o = self.ex(s["init"], st)
            if set(o) != {"next"}:
                raise Opaque("exception in loop initialiser")
            st = o["next"][1]
            ids = [s["init"]]

        def inc(st2):
            if s.get("inc") is not None:
                self.pend = []
                st2 = st2.copy()
                self.ev(s["inc"], st2)
            return st2
        outs = self.run_loop(st, self.pure_head(s.get("c")), lambda x: self.ex(s["s"], x), inc)
        return self.scope_exit(outs, ids, self.frame.fid)

    def s_while(self, s, st):
        return self.run_loop(st, self.pure_head(s["c"]), lambda x: self.ex(s["s"], x), lambda x: x)

    def s_do(self, s, st):
        return self.run_loop(st, self.pure_head(s["c"]), lambda x: self.ex(s["s"], x), lambda x: x, post_test=True)

    def s_forrange(self, s, st):
        st = st.copy()
        clv = self.lv(s["r"], st)
        cont = self.load(clv, st)
        n = gapply(lambda x: A.n_elem(self.num(x)), cont)
        ikey = ("v", self.frame.fid, ("fr", s["l"]), "range%s" % s["l"])
        st[ikey] = leaf(ZERO)
        var = s["v"]
        if var.get("k") == "decl":
            var = var["a"][0]

        def head(x):
            return gapply(lt, x[ikey], n), x

        def body(x):
            x = x.copy()
            idx = ungate(x[ikey])
            el = ("elem", clv, idx)
            if var.get("bind"):
                for i, b in enumerate(var["bind"]):
                    self.frame.b[b["id"]] = ("pf", el, i)
            elif is_ref(var.get("t", "")):
                self.frame.b[var["id"]] = el
            else:
                key = ("v", self.frame.fid, var["id"], var["n"])
                self.frame.b[var["id"]] = ("key", key)
                x[key] = self.load(el, x)
            o = self.ex(s["s"], x)
            return self.scope_exit(o, [{"k": "decl", "a": [var]}], self.frame.fid)

        def inc(x):
            x = x.copy()
            x[ikey] = gapply(lambda v: v + ONE, x[ikey])
            return x
        outs = self.run_loop(st, head, body, inc)
        for kind in list(outs):
            c, x, v = outs[kind]
            x = x.copy()
            x.pop(ikey, None)
            outs[kind] = (c, x, v)
        return outs

    def s_try(self, s, st):
        save = self.pend
        outs = self.ex(s["s"], st)
        self.pend = save
        if "throw" not in outs:
            return outs
        c, ts, tv = outs.pop("throw")
        left = c
        tv = tv if tv is not None else leaf(("exc", "unknown"))
        for h in s["h"]:
            m = gapply(lambda x: leaf(catches(h.get("t"), x)), tv)
            cc = gand(left, m)
            if cc is FALSE:
                continue
            ts2 = ts.copy()
            if h.get("v"):
                vd = h["v"]
                self.frame.b[vd["id"]] = ("val", tv)
            for k2, (c2, s2, v2) in self.ex(h["s"], ts2).items():
                outs.add(self, k2, gand(cc, c2), s2, v2)
            left = gand(left, gnot(m))
        if left is not FALSE:
            outs.add(self, "throw", left, ts, tv)
        return outs

    def s_switch(self, s, st):
        st = st.copy()
        v = self.ev(s["c"], st)
        body = s["s"]["a"] if s["s"]["k"] == "block" else [s["s"]]
        groups = []                           # (labels or None for default, statements)
        for x in body:
            labs = []
            while x.get("k") in ("case", "default"):
                labs.append(None if x["k"] == "default" else x["v"])
                x = x["s"]
            if labs:
                groups.append([labs, []])
            if groups:
                groups[-1][1].append(x)
        outs = Outs()
        taken = FALSE
        conds = []
        for labs, ss in groups:
            c = FALSE
            for lab in labs:
                if lab is not None:
                    c = gor(c, gapply(eq, v, self.ev(lab, st)))
            conds.append(c)
        anyc = FALSE
        for c in conds:
            anyc = gor(anyc, c)
        falls = None
        for (labs, ss), c in zip(groups, conds):
            if None in labs:
                c = gor(c, gnot(anyc))
            c = gand(c, gnot(taken))
            taken = gor(taken, c)
            start = Outs()
            start.add(self, "next", c, st)
            if falls is not None:
                start.add(self, "next", falls[0], falls[1])
                falls = None
            if "next" not in start:
                continue
            cc, s0, _ = start["next"]
            o = self.run_seq(ss, s0, self.ex)
            for kind, (c2, s2, v2) in o.items():
                if kind == "next":
                    falls = (gand(cc, c2), s2)
                else:
                    outs.add(self, "next" if kind == "break" else kind, gand(cc, c2), s2, v2)
        if falls is not None:
            outs.add(self, "next", falls[0], falls[1])
        if taken is not TRUE:
            outs.add(self, "next", gnot(taken), st)
        return outs

    # -- expressions --------------------------------------------------------------
    def cond(self, e, st):
        return T.truth(self.ev(e, st))

    def ev(self, e, st):
        k = e["k"]
        h = getattr(self, "e_" + k, None)
        if h is None:
            raise Opaque("expression %s at line %s" % (k, e.get("l")))
        if e.get("l"):
            self.line = e["l"]
        return h(e, st)

    def lv(self, e, st):
        """lvalue of e, or ("val", value)"""
        k = e["k"]
        if k == "ref":
            if e["d"] in ("parm", "var", "binding"):
                lv = self.frame.look(e["id"])
                if lv is None:
                    if e["d"] == "var" and e.get("q"):
                        return ("key", ("g", e["q"]))
                    raise Opaque("unbound %s" % e["n"])
                return lv
            if e["d"] == "glob":
                return ("key", ("g", e.get("q") or e["n"]))
            return ("val", self.ev(e, st))
        if k == "mem":
            return self.lv_mem(e, st)
        if k == "op" and e["op"] in ("()", "[]") and self.is_container(e["a"][0]):
            return self.lv_index(e, st)
        if k == "sub":
            b = self.lv(e["b"], st)
            bv = self.load(b, st)
            i = self.evn(e["i"], st)
            if bv.c is None and isinstance(bv.v, tuple) and bv.v and bv.v[0] == "ptr":
                return ("elem", bv.v[1], i)
            return ("elem", b, i)
        if k == "un" and e["op"] == "*":
            v = self.ev(e["e"], st)
            return self.deref(v)
        if k == "op" and e["op"] == "*" and len(e["a"]) == 1:
            v = self.ev(e["a"][0], st)
            return self.deref(v)
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.ev(e, st)
            return self.lv(e["e"], st)
        if k == "asg":
            self.ev(e, st)
            return self.lv(e["x"], st)
        if k == "cond":
            c = self.cond(e["c"], st)
            if c is TRUE:
                return self.lv(e["x"], st)
            if c is FALSE:
                return self.lv(e["y"], st)
            return ("val", self.ev(e, st))
        if k == "cast":
            return self.lv(e["e"], st) if e.get("c") not in ("IntegralToFloating", "FloatingToIntegral", "IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean") \
                else ("val", self.ev(e, st))
        if k == "mcall":
            r = self.lv_method(e, st)
            if r is not None:
                return r
        if k == "call" and e.get("f") in self.F and is_ref(self.F[e["f"]].get("t", "")) or k == "mcall" and e.get("f") in self.F and is_ref(self.F[e["f"]].get("t", "")):
            r = self.lv_call(e, st)
            if r is not None:
                return r
        if k == "op" and e["op"] in ("=", "+=", "-=", "*=", "/=", "%=", "<<") and e.get("f") not in self.F and e.get("m"):
            self.ev(e, st)
            return self.lv(e["a"][0], st) if e["op"] != "<<" else ("val", leaf(None))
        return ("val", self.ev(e, st))

    def lv_call(self, e, st):
        """lvalue returned by a trivial accessor (single return of an lvalue)"""
        fn = self.F.get(e["f"])
        b = (fn.get("s") or {}).get("a") or []
        if e["k"] == "mcall":
            o = self.ev_obj(e["b"], st)
            if o.c is not None or not isinstance(o.v, Obj):
                return None
            if e.get("virt") and o.v.info.get("exact"):
                fn = self.F.get(self.dispatch(o.v.cls, e["f"]), fn)
            elif e.get("virt") and self.all_over(e["f"]):
                return None
        else:
            o = None
        b = (fn.get("s") or {}).get("a") or []
        if len(b) != 1 or b[0]["k"] != "ret":
            return None
        fr = Frame(fn, o)
        for i, p in enumerate(fn["p"]):
            if i >= len(e["a"]):
                return None
            a = self.lv(e["a"][i], st)
            fr.b[p["id"]] = a if is_ref(p["t"]) else ("val", self.load(a, st))
        save = self.frame
        self.frame = fr
        self.inlined.add(fn["f"])
        try:
            return self.lv(b[0]["e"], st)
        finally:
            self.frame = save

    def is_container(self, e):
        t = strip(e.get("t"))
        return is_arma(t) or is_stdvec(t) or t.startswith(("std::map", "boost::ptr_vector", "boost::ptr_", "std::unordered_map", "std::array"))

    def deref(self, v):
        if v.c is not None:
            # gated pointer: only object identities can be followed
            return ("val", v)
        x = v.v
        if isinstance(x, tuple) and x and x[0] == "ptr":
            return x[1]
        if isinstance(x, Obj):
            return ("obj", x)
        if isinstance(x, R):
            for a in x.atoms():
                if a.op == "iter":
                    return ("elem", self.iters[a], x - ra(a))
            return ("val", v)
        if isinstance(x, tuple) and x and x[0] == "ext":
            return ("val", v)
        raise Opaque("dereference of %r" % (x,))

    def lv_mem(self, e, st):
        b, name = e["b"], e["n"]
        o = strip(e.get("o"))
        if is_arma(o) or o.startswith("arma::"):
            return ("val", self.arma_member(e, st))
        if o.startswith("std::pair"):
            lv = self.lv(b, st) if not e.get("arrow") else self.deref(self.ev(b, st))
            return ("pf", lv, 0 if name == "first" else 1)
        g = self.ev_obj(b, st) if b["k"] != "this" else self.this()
        if e.get("f") and e.get("f") in self.F:
            return ("val", leaf(("method", e["f"], g)))
        if g.c is None:
            return self.field_lv(g.v, o, name, st)
        vals = gapply(lambda x: self.load(self.field_lv(x, o, name, st), st), g)
        return ("val", vals)

    def field_lv(self, o, owner, name, st):
        if isinstance(o, R):
            a = o.single()
            if a is not None and a.op == "objref":
                o = self.iters[a]
        if isinstance(o, tuple) and o and o[0] == "ptr":
            g = self.load(o[1], st)
            if g.c is None:
                o = g.v
        if isinstance(o, Obj):
            key = ("f", o, owner, name)
            v = self.read(st, key)
            if v.c is None and isinstance(v.v, tuple) and v.v and v.v[0] == "ptr" and is_ref(self.field_type(owner, name)):
                return v.v[1]
            return ("key", key)
        if isinstance(o, R):
            t = self.field_type(owner, name)
            return ("val", leaf(ra(atom("field", owner, name, o, real=True, scalar=not (is_arma(t) or is_stdvec(t))))))
        raise Opaque("field %s of %r" % (name, o))

    def field_type(self, owner, name):
        c = self.C.get(owner)
        if c:
            for fl in c["fields"]:
                if fl["n"] == name:
                    return fl["t"]
        return ""

    def this(self):
        f = self.frame
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise Opaque("this outside a method")
        return f.this

    def ev_obj(self, e, st):
        """object (identity) an expression denotes, following references and pointers"""
        if e["k"] == "this":
            return self.this()
        v = self.ev(e, st)

        def f(x):
            if isinstance(x, tuple) and x and x[0] == "ptr":
                return self.load(x[1], st)
            return x
        return gapply(f, v)

    def evn(self, e, st):
        """scalar numeric value (gates kept inside)"""
        v = self.ev(e, st)
        return ungate(gapply(lambda x: self.num(x), v))

    def e_cast(self, e, st):
        c = e.get("c")
        v = self.ev(e["e"], st)
        if c == "FloatingToIntegral":
            def f(x):
                x = self.num(x)
                if x.isint:
                    return x
                k = x.const()
                if k is not None:
                    return const(int(k))
                return ra(atom("trunc", x, real=True, scalar=True, isint=True))
            return gapply(f, v)
        if c in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return T.truth(v)
        if c == "IntegralToFloating":
            return gapply(lambda x: const(int(x)) if isinstance(x, bool) else x, v)
        if c == "Dynamic":
            to = strip(e.get("t")).rstrip("*& ").strip()

            def g(x):
                o = self.referent(leaf(x), st)
                if not isinstance(o, Obj) or not o.info.get("exact"):
                    raise Opaque("dynamic cast")
                return x if strip(to) in self.bases(o.cls) else None
            return gapply(g, v)
        if is_int(e.get("t")) or strip(e.get("t")) in FLOATS:
            return gapply(lambda x: const(int(x)) if isinstance(x, bool) else x, v)
        return v

    def e_int(self, e, st):
        return leaf(const(int(e["v"])))

    def e_flt(self, e, st):
        return leaf(flt(e["v"]))

    def e_bool(self, e, st):
        return TRUE if e["v"] else FALSE

    def e_str(self, e, st):
        return leaf(str(e.get("v", "")))

    def e_null(self, e, st):
        return leaf(None)

    def e_zero(self, e, st):
        t = e.get("t")
        if is_num(t):
            return leaf(ZERO)
        v = self.default_value(t, st)
        return v if v is not None else leaf(None)

    def e_this(self, e, st):
        return self.this()

    def e_ref(self, e, st):
        d = e["d"]
        if d == "func":
            return leaf(("func", e.get("f"), e.get("q")))
        if d == "enum":
            if e.get("cv") is not None:
                return leaf(const(int(e["cv"])))
            return leaf(("enum", e.get("q")))
        if d in ("parm", "var", "binding"):
            lv = self.lv(e, st)
            v = self.load(lv, st)
            if v is UNDEF and lv[0] == "key" and lv[1][0] == "g":
                return self.glob(e, st)
            return v
        if d == "glob":
            return self.glob(e, st)
        raise Opaque("reference %s" % e.get("n"))

    def glob(self, e, st):
        q = e.get("q") or e["n"]
        n = e["n"]
        if "atum" in q:
            if n == "pi":
                return leaf(T.PI)
            if n == "inf":
                return leaf(T.INF)
            if n == "nan":
                return leaf(T.NAN)
            if n == "log_max":
                return leaf(ra(atom("const:log_max", real=True, scalar=True)))
        if e.get("cv") is not None:
            try:
                return leaf(flt(str(e["cv"])))
            except Exception:
                pass
        if q in ("std::cout", "std::cerr", "std::clog", "std::cin"):
            return leaf(("ext", "stream", q))
        if n == "endr" or q.startswith("arma::"):
            return leaf(("ext", "arma", n))
        v = self.read(st, ("g", q))
        if v is not UNDEF:
            return v
        return leaf(("ext", e.get("t"), q))

    def e_mem(self, e, st):
        lv = self.lv_mem(e, st)
        v = self.load(lv, st)
        if v.c is None and isinstance(v.v, tuple) and v.v and v.v[0] == "ptr" and is_ref(e.get("t", "")):
            return self.load(v.v[1], st)
        if v is UNDEF:
            o = strip(e.get("o"))
            return leaf(ra(atom("uninit", e["n"], real=True, scalar=not (is_arma(e.get("t")) or is_stdvec(e.get("t"))))))
        return v

    def arma_member(self, e, st):
        n = e["n"]
        v = self.ev(e["b"], st)
        if n == "n_elem":
            return gapply(lambda x: A.n_elem(self.num(x)), v)
        if n == "n_rows":
            return gapply(lambda x: A.nrows(self.num(x)), v)
        if n == "n_cols":
            return gapply(lambda x: A.ncols(self.num(x)), v)
        raise Opaque("arma member %s" % n)

    def e_sub(self, e, st):
        return self.load(self.lv(e, st), st)

    def e_unk(self, e, st):
        raise Opaque("unsupported expression (%s)" % e.get("w"))

    def e_throw(self, e, st):
        v = None
        et = strip(e.get("et") or "")
        self.pend.append((TRUE, st.copy(), leaf(("exc", et or "rethrow"))))
        return leaf(None)

    def e_sizeof(self, e, st):
        return leaf(ra(atom("sizeof", str(e.get("t")), e.get("l"), real=True, scalar=True, isint=True)))

    def e_ilist(self, e, st):
        vs = [self.ev(x, st) for x in e["a"]]
        if all(all(isinstance(l, (R, bool)) for l in v.leaves()) for v in vs):
            return leaf(A.explicit([ungate(v) for v in vs]))
        return gapply(lambda *xs: ("list",) + tuple(xs), *vs)

    def e_lambda(self, e, st):
        fr = Frame({"q": "lambda", "f": None, "t": "auto", "file": self.curfile, "p": []}, None, self.frame)
        for c in e.get("cap") or []:
            if c.get("ref") is False and c.get("id") is not None:
                lv = self.frame.look(c["id"])
                if lv is not None:
                    key = ("v", fr.fid, c["id"], c.get("n"))
                    st[key] = self.load(lv, st)
                    fr.b[c["id"]] = ("key", key)
        cl = Closure(e, fr)
        self.objs[("clo", id(e), fr.fid)] = cl
        return leaf(("closure", cl))

    def call_closure(self, cl, args, st):
        n = cl.node
        fr = Frame({"q": "lambda", "f": None, "t": n.get("rt") or "auto", "file": self.curfile, "p": n["p"]}, None, cl.frame)
        for i, p in enumerate(n["p"]):
            if is_ref(p["t"]):
                fr.b[p["id"]] = args[i]
            else:
                key = ("v", fr.fid, p["id"], p["n"])
                st[key] = self.load(args[i], st)
                fr.b[p["id"]] = ("key", key)
        save, sp = self.frame, self.pend
        self.frame, self.pend = fr, []
        try:
            outs = self.ex(n["s"], st.copy())
        finally:
            self.frame, self.pend = save, sp
        res = Outs()
        for kind, (c, s, v) in outs.items():
            if kind == "throw":
                self.pend.append((c, s, v))
            else:
                res.add(self, "done", c, s, v if v is not None else leaf(None))
        c, s, v = res["done"]
        st.clear()
        st.update(s)
        return v

    def e_cond(self, e, st):
        c = self.cond(e["c"], st)
        if c is TRUE:
            return self.ev(e["x"], st)
        if c is FALSE:
            return self.ev(e["y"], st)
        s1, s2 = st.copy(), st.copy()
        p0 = self.pend
        self.pend = []
        a = self.ev(e["x"], s1)
        pa, self.pend = self.pend, []
        b = self.ev(e["y"], s2)
        pb, self.pend = self.pend, p0
        for cc, s, v in pa:
            self.pend.append((gand(c, cc), s, v))
        for cc, s, v in pb:
            self.pend.append((gand(gnot(c), cc), s, v))
        m = self.merge(c, s1, s2)
        st.clear()
        st.update(m)
        a = gapply(lambda x: x, a)
        return gite(c, a, b)

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            c = self.cond(e["x"], st)
            if (op == "&&" and c is FALSE) or (op == "||" and c is TRUE):
                return c
            s1 = st.copy()
            p0, self.pend = self.pend, []
            d = self.cond(e["y"], s1)
            p1, self.pend = self.pend, p0
            for cc, s, v in p1:
                self.pend.append((gand(c if op == "&&" else gnot(c), cc), s, v))
            if s1 != st:
                m = self.merge(c if op == "&&" else gnot(c), s1, st)
                st.clear()
                st.update(m)
            return gand(c, d) if op == "&&" else gor(c, d)
        if op == ",":
            self.ev(e["x"], st)
            return self.ev(e["y"], st)
        x = self.ev(e["x"], st)
        y = self.ev(e["y"], st)
        return self.arith(op, x, y, e.get("xt") or e["x"].get("t"), e.get("yt") or e["y"].get("t"))

    def arith(self, op, x, y, xt, yt):
        if op in ("==", "!="):
            def f(a, b):
                if isinstance(a, (Obj, tuple)) or isinstance(b, (Obj, tuple)) or a is None or b is None:
                    return leaf(a is b or (isinstance(a, tuple) and a == b))
                if isinstance(a, str) and isinstance(b, R):
                    a = self.objref(a)
                if isinstance(b, str) and isinstance(a, R):
                    b = self.objref(b)
                return eq(a, b)
            r = gapply(f, x, y)
            return r if op == "==" else gnot(r)
        x = gapply(self.num, x)
        y = gapply(self.num, y)
        if op == "+":
            return gapply(lambda a, b: a + b, x, y)
        if op == "-":
            return gapply(lambda a, b: a - b, x, y)
        if op == "*":
            return gapply(lambda a, b: a * b, x, y)
        if op == "/":
            if is_int(xt) and is_int(yt) or strip(xt) == "bool":
                return gapply(T.idiv, x, y)
            return gapply(self.fdiv, x, y)
        if op == "%":
            return gapply(T.imod, x, y)
        if op == "<":
            return gapply(lt, x, y)
        if op == ">":
            return gapply(lambda a, b: lt(b, a), x, y)
        if op == "<=":
            return gapply(T.le, x, y)
        if op == ">=":
            return gapply(lambda a, b: T.le(b, a), x, y)
        if op in ("&", "|", "^", "<<", ">>"):
            return gapply(lambda a, b: ra(atom("bit" + op, a, b, real=True, scalar=True, isint=True)), x, y)
        raise Opaque("operator %s" % op)

    @staticmethod
    def fdiv(a, b):
        if not b.terms and b.scalar and T.sign_of(a) == "+":
            return T.INF        # a positive number over zero
        return a / b

    def e_asg(self, e, st):
        op = e["op"]
        if op == "=":
            y = self.ev(e["y"], st)
            lv = self.lv(e["x"], st)
            y = self.coerce(y, e.get("xt") or e["x"].get("t"))
            if y.c is None and isinstance(y.v, Obj) and strip(e.get("xt") or "") in self.C:
                cur = self.load(lv, st)
                if cur.c is None and isinstance(cur.v, Obj):
                    self.copy_obj_into(cur.v, y, st)
                    return cur
                y = self.copy_obj(y, st)
            self.store(lv, y, st)
            return y
        y = self.ev(e["y"], st)
        lv = self.lv(e["x"], st)
        x = self.load(lv, st)
        xt, yt = e.get("ct") or e.get("xt"), e.get("yt")
        v = self.arith(op[:-1], x, y, xt, yt)
        v = self.coerce(v, e.get("xt"))
        if is_int(e.get("xt")) and not is_int(xt or e.get("xt")):
            v = gapply(lambda r: r if r.isint else ra(atom("trunc", r, real=True, scalar=True, isint=True)), v)
        self.store(lv, v, st)
        return v

    def e_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            lv = self.lv(e["e"], st)
            v = self.load(lv, st)
            d = ONE if op == "++" else -ONE
            n = gapply(lambda x: self.num(x) + d, v)
            self.store(lv, n, st)
            return v if e.get("post") else n
        if op == "*":
            return self.load(self.lv(e, st), st)
        if op == "&":
            lv = self.lv(e["e"], st)
            v = self.load(lv, st)
            if v.leaves() and all(isinstance(l, Obj) for l in v.leaves()):
                return v
            return leaf(("ptr", lv))
        v = self.ev(e["e"], st)
        if op == "-":
            return gapply(lambda x: -self.num(x), v)
        if op == "+":
            return v
        if op == "!":
            return gnot(T.truth(v))
        raise Opaque("unary %s" % op)

    def e_new(self, e, st):
        if e.get("arr"):
            raise Opaque("array new")
        return self.ev(e["e"], st) if e["e"]["k"] == "ctor" else leaf(("ptr", ("val", self.ev(e["e"], st))))

    def e_delete(self, e, st):
        return leaf(None)

    def e_typeid(self, e, st):
        return leaf(("ext", "typeid", str(e.get("l"))))

    # -- constructors -----------------------------------------------------------
    def e_ctor(self, e, st):
        o = strip(e.get("o"))
        t = strip(e.get("t") or o)
        a = e["a"]
        if o in self.C:
            if self.abstract_new and self.abstract_new(o):
                vals = [self.argval(self.lv(x, st), st) for x in a]
                vals = [gapply(lambda x: x if isinstance(x, (R, str)) else (const(int(x)) if isinstance(x, bool) else self.objref(x)), v) for v in vals]
                return gapply(lambda *xs: ra(atom("new", o, tuple(self.objref(x) if isinstance(x, str) else x for x in xs), real=True, scalar=True)), *vals) if vals else \
                    leaf(ra(atom("new", o, (), real=True, scalar=True)))
            if e.get("copy") and len(a) == 1 and (self.F.get(e["f"]) or {}).get("s") is None:
                return self.copy_obj(self.ev(a[0], st), st)
            args = [self.lv(x, st) for x in a]
            return self.construct(o, e["f"], args, st, e)
        d = dist_of(o)
        if d:
            vals = [self.ev(x, st) for x in a]
            dflt = DIST_DEFAULT.get(d[0], ())
            if len(vals) == 1 and vals[0].c is None and isinstance(vals[0].v, tuple):
                return gapply(lambda x: ("dist", d[0], x[2]), vals[0])
            vals = [leaf(T.ungate(v)) for v in vals]
            return gapply(lambda *xs: ("param" if d[1] else "dist", d[0], tuple(xs) + dflt[len(xs):]), *vals) if vals else leaf(("param" if d[1] else "dist", d[0], dflt))
        if o.startswith("std::complex"):
            vals = [self.ev(x, st) for x in a]
            if not vals:
                return leaf(ZERO)
            if len(vals) == 1:
                return vals[0]
            return gapply(lambda x, y: self.num(x) + T.I * self.num(y), *vals)
        if o.startswith(("std::pair", "std::tuple")):
            if e.get("copy") and len(a) == 1:
                return self.ev(a[0], st)
            vals = [self.ev(x, st) for x in a]
            if not vals:
                return leaf(("pair", ZERO, ZERO))
            if len(vals) == 1:
                return vals[0]
            return gapply(lambda *xs: ("pair",) + xs, *vals)
        if o.startswith("arma::span"):
            vals = [self.evn(x, st) for x in a]
            if not vals:
                return leaf(("span", None, None))
            if len(vals) == 1:
                vals = vals * 2
            return leaf(("span", vals[0], vals[1] + ONE))
        if is_arma(o):
            return self.arma_ctor(o, e, st)
        if is_stdvec(o):
            return self.vec_ctor(o, e, st)
        if o.startswith(("std::basic_string",)):
            if not a:
                return leaf("")
            return self.ev(a[0], st)
        if o.startswith(("std::shared_ptr", "std::unique_ptr")):
            if not a:
                return leaf(None)
            return self.ev(a[0], st)
        if o.startswith(("std::set", "std::map", "boost::ptr_vector", "std::unordered", "std::multiset")):
            if a and e.get("copy"):
                return self.ev(a[0], st)
            return self.default_value(o, st)
        if "iterator" in o and a:
            return self.ev(a[0], st)
        for x in a:
            try:
                self.ev(x, st)
            except Opaque:
                pass
        return leaf(("ext", o, "obj"))

    def arma_ctor(self, o, e, st):
        a = e["a"]
        if e.get("list") and len(a) == 1 and a[0]["k"] == "ilist":
            return self.ev(a[0], st)
        if not a or len(a) == 1 and strip(a[0].get("t")).endswith("arma_empty_class"):
            return leaf(T.fill2(ZERO, ZERO, ZERO) if o.startswith("arma::Mat") else T.fill(ZERO, ZERO))
        t0 = strip(a[0].get("t"))
        if len(a) == 1:
            if is_int(t0):
                n = self.evn(a[0], st)
                return leaf(T.fill(ra(atom("uninit", "cell", real=True, scalar=True)), n)) if self.arma_uninit() else leaf(T.fill(ZERO, n))
            return self.ev(a[0], st)
        if is_int(t0) and is_int(strip(a[1].get("t"))) and o.startswith("arma::Mat"):
            n, m = self.evn(a[0], st), self.evn(a[1], st)
            if len(a) == 3:
                return self.fill_kind(a[2], n, m, st)
            return leaf(T.fill2(ra(atom("uninit", "cell", real=True, scalar=True)), n, m)) if self.arma_uninit() else leaf(T.fill2(ZERO, n, m))
        if is_int(t0):
            n = self.evn(a[0], st)
            return self.fill_kind(a[1], n, None, st)
        raise Opaque("arma constructor")

    def arma_uninit(self):
        """Armadillo before 10.5 leaves vectors uninitialised; newer versions zero them.  Treat as unspecified."""
        return True

    def fill_kind(self, e, n, m, st):
        v = None
        nm = e.get("n") or ""
        t = strip(e.get("t") or "")
        q = (e.get("q") or "") + t
        if is_num(t):
            v = self.evn(e, st)
        elif "zeros" in q or nm == "zeros":
            v = ZERO
        elif "ones" in q or nm == "ones":
            v = ONE
        elif "eye" in q or nm == "eye":
            return leaf(A.eye(n, m if m is not None else n))
        elif "randu" in q:
            return self.draw(st, "arma_uniform", [], size=n)
        elif "randn" in q:
            return self.draw(st, "arma_normal", [], size=n)
        elif "none" in q:
            v = ra(atom("uninit", "cell", real=True, scalar=True))
        else:
            raise Opaque("arma fill %s" % q)
        return leaf(T.fill(v, n) if m is None else T.fill2(v, n, m))

    def vec_ctor(self, o, e, st):
        a = [x for x in e["a"] if not strip(x.get("t") or "").startswith(("std::allocator", "allocator"))]
        if not a:
            return leaf(T.fill(ZERO, ZERO))
        if len(a) == 1:
            if is_int(strip(a[0].get("t"))):
                n = self.evn(a[0], st)
                return leaf(T.fill(ZERO, n))
            return self.ev(a[0], st)
        if is_int(strip(a[0].get("t"))) and len(a) == 2:
            n, v = self.evn(a[0], st), self.ev(a[1], st)
            return gapply(lambda x: T.fill(self.num(x), n), v)
        x, y = self.ev(a[0], st), self.ev(a[1], st)
        return self.range_value(x, y, st)

    def range_value(self, x, y, st):
        """contents of [first, last) given by two iterators"""
        if x.c is not None or y.c is not None:
            raise Opaque("gated iterator")
        if isinstance(x.v, tuple) and x.v[0] == "ptr":
            raise Opaque("pointer range")
        for a in x.v.atoms():
            if a.op == "iter":
                lv = self.iters[a]
                lo, hi = x.v - ra(a), y.v - ra(a)
                return gapply(lambda r: T.slice_(self.num(r), lo, hi), self.load(lv, st))
        raise Opaque("range of unknown iterators")

    # -- operators on library types ------------------------------------------------
    def lv_index(self, e, st):
        base = e["a"][0]
        t = strip(base.get("t"))
        b = self.lv(base, st)
        idx = e["a"][1:]
        if t.startswith(("std::map", "std::unordered_map")):
            return ("mapel", b, ungate(gapply(lambda x: x if isinstance(x, R) else self.objref(x), self.ev(idx[0], st))))
        vals = [self.ev(i, st) for i in idx]
        ivs = []
        for v in vals:
            if v.c is None and isinstance(v.v, tuple):
                ivs.append(v.v)
            elif v.leaves() and all(isinstance(l, (R, bool)) for l in v.leaves()):
                ivs.append(ungate(gapply(self.num, v)))
            else:
                raise Opaque("index")
        if len(ivs) == 1:
            i = ivs[0]
            if isinstance(i, tuple):
                if i[1] is None:
                    return b
                return ("slice", b, i[1], i[2])
            if not i.scalar:
                return ("gather", b, i)
            return ("elem", b, i)
        i, j = ivs
        isvec = t.startswith(("arma::Col",))
        if isvec and isinstance(j, R) and j.const() == 0:
            return ("elem", b, i) if isinstance(i, R) else ("slice", b, i[1], i[2])
        if t.startswith("arma::Row") and isinstance(i, R) and i.const() == 0:
            return ("elem", b, j) if isinstance(j, R) else ("slice", b, j[1], j[2])
        if isinstance(i, R) and isinstance(j, R):
            return ("elem", b, (i, j))
        if isinstance(i, R):
            if j[1] is None:
                return ("row", b, i)
            return ("rowslice", b, i, j[1], j[2])
        if isinstance(j, R):
            if i[1] is None:
                return ("col", b, j)
            return ("colslice", b, i[1], i[2], j)
        raise Opaque("submatrix")

    def e_op(self, e, st):
        op = e["op"]
        a = e["a"]
        f = e.get("f")
        fn = self.F.get(f)
        if fn is not None and fn.get("s") is not None and "lambda" not in fn["q"] and not fn["q"].startswith("(anonymous"):
            self.sites += 1
            if e.get("m"):
                o = self.ev_obj(a[0], st)
                args = [self.lv(x, st) for x in a[1:]]
                return self.call_virtual(f, o, args, st, {"virt": fn.get("virt"), "n": fn["n"], "o": fn["o"], "t": fn["t"], "f": f})
            return self.invoke(fn, None, [self.lv(x, st) for x in a], st)
        if op == "=" and strip(e.get("o") or "") in self.C:
            # implicit copy assignment
            src = self.ev(a[1], st)
            lv = self.lv(a[0], st)
            cur = self.load(lv, st)
            if cur.c is None and isinstance(cur.v, Obj):
                self.copy_obj_into(cur.v, src, st)
                return cur
            self.store(lv, src, st)
            return src
        if op in ("()", "[]"):
            if self.is_container(a[0]):
                return self.load(self.lv_index(e, st), st)
            return self.call_object(e, st)
        if op in ("<<", ">>"):
            t = strip(a[0].get("t"))
            if "stream" in t:
                for x in a:
                    try:
                        v = self.ev(x, st)
                    except Opaque:
                        continue
                if op == ">>":
                    for x in a[1:]:
                        try:
                            self.store(self.lv(x, st), leaf(T.opaque("stream input")), st)
                        except Opaque:
                            pass
                return leaf(("ext", "stream", "out"))
            if op == "<<":
                return self.stream_init(e, st)
        if op in ("=", "+=", "-=", "*=", "/=", "%="):
            y = self.ev(a[1], st)
            lv = self.lv(a[0], st)
            if op != "=":
                x = self.load(lv, st)
                y = self.lib_arith(op[:-1], x, y, a[0].get("t"), a[1].get("t"))
            elif is_arma(strip(a[0].get("t"))) and not strip(a[0].get("t")).startswith("arma::sub"):
                pass
            if lv[0] in ("key",) and is_arma(a[0].get("t")) and y.c is None and isinstance(y.v, R) and y.v.scalar:
                y = leaf(A.explicit([y.v]))     # vector assigned from a scalar has one element
            self.store(lv, y, st)
            return y
        if op == "->" or op == "*" and len(a) == 1:
            v = self.ev(a[0], st)
            if op == "*":
                return self.load(self.deref(v), st)
            return v
        if op in ("++", "--"):
            lv = self.lv(a[0], st)
            v = self.load(lv, st)
            if not all(isinstance(l, R) for l in v.leaves()):
                return leaf(None)           # progress displays and the like
            d = ONE if op == "++" else -ONE
            n = gapply(lambda x: x + d, v)
            self.store(lv, n, st)
            return v if len(a) > 1 else n
        if len(a) == 1:
            v = self.ev(a[0], st)
            if op == "-":
                return gapply(lambda x: -self.num(x), v)
            if op == "+":
                return v
            if op == "!":
                return gnot(T.truth(v))
        if len(a) == 2:
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            return self.lib_arith(op, x, y, a[0].get("t"), a[1].get("t"))
        raise Opaque("operator %s" % op)

    def lib_arith(self, op, x, y, xt, yt):
        xa, ya = is_arma(xt), is_arma(yt)
        if any(isinstance(l, (str, tuple)) for l in x.leaves() + y.leaves()):
            if op == "+" and all(isinstance(l, (str, R)) for l in x.leaves() + y.leaves()):
                return gapply(lambda a, b: a + b if isinstance(a, str) and isinstance(b, str) else ra(atom("strcat", self.objref(a), self.objref(b), real=True, scalar=True)), x, y)
            if op in ("==", "!="):
                return self.arith(op, x, y, xt, yt)
            raise Opaque("operator %s on library objects" % op)
        if op == "*" and xa and ya:
            return gapply(lambda a, b: A.matmul(self.num(a), self.num(b)), x, y)
        if op in ("+", "-", "*", "/", "%"):
            def f(a, b):
                a, b = self.num(a), self.num(b)
                if op == "+":
                    return a + b
                if op == "-":
                    return a - b
                if op == "*" or op == "%":
                    return a * b
                return a / b
            return gapply(f, x, y)
        if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||") and (xa or ya):
            return gapply(lambda a, b: A.cmp_array(op, self.num(a), self.num(b)), x, y)
        return self.arith(op, x, y, xt, yt)

    def stream_init(self, e, st):
        """v << a << b << endr"""
        parts = []
        x = e
        while x["k"] == "op" and x["op"] == "<<":
            parts.append(x["a"][1])
            x = x["a"][0]
        parts.reverse()
        lv = self.lv(x, st)
        vals = []
        for p in parts:
            v = self.ev(p, st)
            if v.c is None and isinstance(v.v, tuple):
                continue
            vals.append(ungate(gapply(self.num, v)))
        v = leaf(A.explicit(vals))
        self.store(lv, v, st)
        return v

    def call_object(self, e, st):
        a = e["a"]
        o = self.ev(a[0], st)
        if o.c is None and isinstance(o.v, tuple):
            if o.v[0] == "dist":
                gen = self.ev(a[1], st)
                return self.sample(o.v[1], o.v[2], st, gen)
            if o.v[0] == "closure":
                return self.call_closure(o.v[1], [self.lv(x, st) for x in a[1:]], st)
            if o.v[0] == "func":
                return self.call_fn_value(o.v, [self.lv(x, st) for x in a[1:]], st, e)
        raise Opaque("call of %r" % (o,))

    def sample(self, dist, params, st, gen):
        tag = ""
        if not (gen.c is None and isinstance(gen.v, tuple) and gen.v[:2] == ("gen", self.generator)):
            tag = "@other"
        params = [p if isinstance(p, G) else leaf(p) for p in params]
        if dist == "normal":
            z = self.draw(st, "normal" + tag, [ZERO, ONE])
            return gapply(lambda z, m, s: m + s * z, z, *params)
        if dist == "lognormal":
            z = self.draw(st, "normal" + tag, [ZERO, ONE])
            return gapply(lambda z, m, s: T.exp(m + s * z), z, *params)
        if dist == "uniform":
            u = self.draw(st, "uniform" + tag, [ZERO, ONE])
            return gapply(lambda u, lo, hi: lo + (hi - lo) * u, u, *params)
        if dist == "exponential":
            u = self.draw(st, "exponential" + tag, [ONE])
            return gapply(lambda u, lam: u / lam, u, *params)
        if dist == "gamma":
            u = self.draw(st, "gamma" + tag, [params[0], ONE])
            return gapply(lambda u, b: u * b, u, params[1])
        return self.draw(st, dist + tag, params)

    def call_fn_value(self, fv, args, st, e):
        fn = self.F.get(fv[1])
        if fn is not None:
            return self.invoke(fn, None, args, st)
        raise Opaque("call through function value")

    # -- method calls -------------------------------------------------------------
    def lv_method(self, e, st):
        n = e["n"]
        t = strip(e.get("bt") or e["b"].get("t"))
        if is_arma(t):
            if n in ("rows", "subvec", "cols") and len(e["a"]) == 2 and t.startswith(("arma::Col", "arma::Row")):
                b = self.lv(e["b"], st)
                lo, hi = self.evn(e["a"][0], st), self.evn(e["a"][1], st)
                return ("slice", b, lo, hi + ONE)
            if n in ("head", "tail") and t.startswith(("arma::Col", "arma::Row")):
                b = self.lv(e["b"], st)
                k = self.evn(e["a"][0], st)
                if n == "head":
                    return ("slice", b, ZERO, k)
                nn = ungate(gapply(lambda x: A.n_elem(x), self.load(b, st)))
                return ("slice", b, nn - k, nn)
            if n == "row" and t.startswith("arma::Mat"):
                return ("row", self.lv(e["b"], st), self.evn(e["a"][0], st))
            if n == "row" and t.startswith("arma::Col"):
                return ("elem", self.lv(e["b"], st), self.evn(e["a"][0], st))
            if n == "col" and t.startswith("arma::Mat"):
                return ("col", self.lv(e["b"], st), self.evn(e["a"][0], st))
            if n in ("diag",) and t.startswith("arma::Mat"):
                return ("diag", self.lv(e["b"], st))
            if n in ("elem",):
                return ("gather", self.lv(e["b"], st), self.evn(e["a"][0], st))
            if n == "at":
                idx = [self.evn(x, st) for x in e["a"]]
                return ("elem", self.lv(e["b"], st), idx[0] if len(idx) == 1 else tuple(idx))
        if is_stdvec(t) or t.startswith("boost::ptr"):
            if n == "at":
                return ("elem", self.lv(e["b"], st), self.evn(e["a"][0], st))
            if n in ("back", "front"):
                b = self.lv(e["b"], st)
                nn = ungate(gapply(lambda x: A.n_elem(x), self.load(b, st)))
                return ("elem", b, nn - ONE if n == "back" else ZERO)
        if t.startswith("std::map") and n == "at":
            return ("mapel", self.lv(e["b"], st), ungate(gapply(lambda x: x if isinstance(x, R) else self.objref(x), self.ev(e["a"][0], st))))
        return None

    def e_mcall(self, e, st):
        f = e.get("f")
        b = e["b"]
        bt = strip(e.get("bt") or b.get("t"))
        owner = strip(e.get("o"))
        if owner in self.C or f in self.F:
            fn = self.F.get(f)
            o = self.ev_obj(b, st)
            args = [self.lv(x, st) for x in e["a"]]
            self.sites += 1
            return self.call_virtual(f, o, args, st, e)
        if e["n"] == "~":
            return leaf(None)
        r = self.lv_method(e, st)
        if r is not None:
            return self.load(r, st)
        return self.lib_method(e, st, bt, owner)

    def lib_method(self, e, st, bt, owner):
        n, a = e["n"], e["a"]
        if bt.endswith("*"):
            bt = strip(bt[:-1])
        if is_arma(bt) or owner.startswith("arma::"):
            return self.arma_method(e, st, n, a)
        if is_stdvec(bt) or bt.startswith("boost::ptr") or "ptr_container" in owner or "ptr_sequence" in owner or bt.startswith(("std::set", "std::map")):
            blv = self.lv(e["b"], st)
            v = self.load(blv, st)
            if n == "size":
                return gapply(lambda x: A.n_elem(x) if isinstance(x, R) else const(len(x) - 1), v)
            if n == "empty":
                return gapply(lambda x: eq(A.n_elem(x), ZERO), v)
            if n in ("begin", "cbegin", "end", "cend"):
                it = atom("iter", repr(_lvkey(blv)), real=True, scalar=True, isint=True)
                self.iters[it] = blv
                if n in ("begin", "cbegin"):
                    return leaf(ra(it))
                return gapply(lambda x: ra(it) + A.n_elem(x), v)
            if n in ("push_back", "emplace_back"):
                x = self.ev(a[0], st)
                nv = gapply(lambda r, y: A.append(r, y if isinstance(y, R) else self.objref(y)), v, x)
                self.store(blv, nv, st)
                return leaf(None)
            if n == "insert" and bt.startswith(("std::set",)):
                x = self.ev(a[0], st)
                nv = gapply(lambda r, y: A.setinsert(r, y if isinstance(y, R) else self.objref(y)), v, x)
                self.store(blv, nv, st)
                return leaf(None)
            if n == "resize":
                m = self.evn(a[0], st)
                nv = gapply(lambda r: A.resize(r, m), v)
                self.store(blv, nv, st)
                return leaf(None)
            if n in ("reserve", "shrink_to_fit"):
                return leaf(None)
            if n == "clear":
                self.store(blv, leaf(T.fill(ZERO, ZERO)), st)
                return leaf(None)
            if n == "assign" and len(a) == 2 and is_int(strip(a[0].get("t"))):
                m, x = self.evn(a[0], st), self.evn(a[1], st)
                self.store(blv, leaf(T.fill(x, m)), st)
                return leaf(None)
            if n in ("count",):
                x = self.ev(a[0], st)
                return gapply(lambda r, y: ra(atom("count", r, y if isinstance(y, R) else self.objref(y), real=True, scalar=True, isint=True, nonneg=True)), v, x)
            raise Opaque("container method %s" % n)
        d = dist_of(bt)
        if d:
            lv = self.lv(e["b"], st)
            if n == "param" and a:
                p = self.ev(a[0], st)
                self.store(lv, gapply(lambda x: ("dist", d[0], x[2]), p), st)
                return leaf(None)
            if n == "reset":
                return leaf(None)
        if "mersenne" in bt or "mersenne" in owner:
            if n == "seed":
                v = [self.ev(x, st) for x in a]
                st[("seed",)] = v[0] if v else leaf(ZERO)
                return leaf(None)
        if bt.startswith("std::complex"):
            v = self.ev(e["b"], st)
            if n == "real":
                return gapply(lambda x: T.real(x), v)
            if n == "imag":
                return gapply(lambda x: T.imag(x), v)
        if bt.startswith(("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")):
            v = self.ev(e["b"], st)
            if n in ("get",):
                return v
            if n == "reset":
                self.store(self.lv(e["b"], st), self.ev(a[0], st) if a else leaf(None), st)
                return leaf(None)
        if bt.startswith("std::basic_string") or "stream" in bt or "progress" in bt or "timer" in bt:
            for x in a:
                try:
                    self.ev(x, st)
                except Opaque:
                    pass
            if n in ("c_str", "str", "data"):
                return self.ev(e["b"], st)
            return leaf(("ext", e.get("t"), n))
        self.externals.add(e.get("q"))
        raise Opaque("library method %s" % e.get("q"))

    def arma_method(self, e, st, n, a):
        b = e["b"]
        if n in ("t", "ht"):
            return gapply(lambda x: T.herm(self.num(x)), self.ev(b, st))
        if n == "st":
            return gapply(lambda x: T.transpose(self.num(x)), self.ev(b, st))
        if n in ("max", "min") and not a:
            return gapply(lambda x: A.extreme(n, self.num(x)), self.ev(b, st))
        if n in ("size",):
            return gapply(lambda x: A.n_elem(self.num(x)), self.ev(b, st))
        if n == "is_empty":
            return gapply(lambda x: eq(A.n_elem(self.num(x)), ZERO), self.ev(b, st))
        if n == "is_finite":
            return gapply(lambda x: A.all_finite(self.num(x)), self.ev(b, st))
        if n in ("print", "save", "load"):
            return leaf(None)
        if n in ("eval", "as_col"):
            return self.ev(b, st)
        if n in ("begin", "end"):
            blv = self.lv(b, st)
            it = atom("iter", repr(_lvkey(blv)), real=True, scalar=True, isint=True)
            self.iters[it] = blv
            if n == "begin":
                return leaf(ra(it))
            return gapply(lambda x: ra(it) + A.n_elem(x), self.load(blv, st))
        lv = self.lv(b, st)
        cur = self.load(lv, st)
        t = strip(b.get("t"))
        ismat = t.startswith("arma::Mat")
        if n in ("zeros", "ones", "fill", "eye", "set_size", "resize", "randu", "randn"):
            args = [self.evn(x, st) for x in a]
            val = None
            if n == "fill":
                val = args.pop(0)
            if n == "zeros":
                val = ZERO
            if n == "ones":
                val = ONE
            if not args:
                if t.startswith("arma::subview") or lv[0] in ("slice", "diag", "rowslice", "row"):
                    self.store(lv, gapply(lambda x: T.fill(val, A.n_elem(x)), cur), st)
                    return leaf(None)
                shape = (ungate(gapply(lambda x: A.nrows(x), cur)), ungate(gapply(lambda x: A.ncols(x), cur))) if ismat else (ungate(gapply(lambda x: A.n_elem(x), cur)),)
            else:
                shape = tuple(args)
            if n == "eye":
                nv = leaf(A.eye(shape[0], shape[-1]))
            elif n in ("randu", "randn"):
                if len(shape) == 2:
                    raise Opaque("random matrix")
                nv = self.draw(st, "arma_uniform" if n == "randu" else "arma_normal", [], size=shape[0])
            elif n == "set_size":
                nv = leaf(T.fill2(ra(atom("uninit", "cell", real=True, scalar=True)), *shape) if len(shape) == 2 else T.fill(ra(atom("uninit", "cell", real=True, scalar=True)), shape[0]))
                if len(shape) == 1 and not ismat:
                    # set_size keeps the vector when the size does not change
                    def keep(x):
                        return x if A.n_elem(x) is shape[0] else nv.v
                    nv = gapply(keep, cur)
            elif n == "resize":
                nv = gapply(lambda x: A.resize(x, shape[0]), cur) if len(shape) == 1 else gapply(lambda x: A.resize2(x, *shape), cur)
            else:
                nv = leaf(T.fill2(val, *shape) if len(shape) == 2 or ismat else T.fill(val, shape[0]))
            self.store(lv, nv, st)
            return leaf(None)
        if n == "insert_rows":
            i = self.evn(a[0], st)
            v = self.ev(a[1], st)
            if is_int(strip(a[1].get("t"))):
                v = gapply(lambda x: T.fill(ZERO, x), v)
            nv = gapply(lambda x, y: A.insert(self.num(x), i, self.num(y)), cur, v)
            self.store(lv, nv, st)
            return leaf(None)
        if n in ("shed_row", "shed_rows"):
            i = self.evn(a[0], st)
            j = self.evn(a[-1], st)
            nv = gapply(lambda x: T.concat((T.slice_(x, ZERO, i), T.slice_(x, j + ONE, A.n_elem(x)))), cur)
            self.store(lv, nv, st)
            return leaf(None)
        if n == "reset":
            self.store(lv, leaf(T.fill2(ZERO, ZERO, ZERO) if ismat else T.fill(ZERO, ZERO)), st)
            return leaf(None)
        raise Opaque("arma method %s" % n)

    # -- free calls ------------------------------------------------------------------
    def e_call(self, e, st):
        f = e.get("f")
        fn = self.F.get(f)
        q = e.get("q") or ""
        if e.get("fe") is not None and not q:
            v = self.ev(e["fe"], st)
            args = [self.lv(x, st) for x in e["a"]]
            if v.c is None and isinstance(v.v, tuple) and v.v[0] == "closure":
                return self.call_closure(v.v[1], args, st)
            raise Opaque("indirect call")
        if q in self.stubs:
            return self.stubs[q](self, None, [self.lv(x, st) for x in e["a"]], st, e)
        if fn is not None and fn.get("s") is not None:
            self.sites += 1
            return self.invoke(fn, None, [self.lv(x, st) for x in e["a"]], st)
        return self.lib_call(e, st, q)

    def lib_call(self, e, st, q):
        n, a = e["n"], e["a"]
        vs = lambda: [self.ev(x, st) for x in a]
        num = self.num
        if n in ("make_shared", "make_unique"):
            m = re.match(r"std::(?:shared_ptr|unique_ptr)<([^,]*(?:<.*>)?[^,]*)", strip(e.get("t")))
            t = strip(e.get("t"))
            c = t[t.index("<") + 1:-1].split(",")[0].strip() if "<" in t else ""
            c = strip(c)
            if c in self.C:
                args = [self.lv(x, st) for x in a]
                if len(a) == 1:
                    src = self.referent(self.load(args[0], st), st)
                    own = [mt for mt in self.C[c]["methods"] if mt.get("ctor") and len(mt.get("pt") or []) == 1 and strip(mt["pt"][0]) == c
                           and (self.F.get(mt["f"]) or {}).get("s") is not None]
                    if isinstance(src, Obj) and c in self.bases(src.cls) and not own:
                        dst = Obj(c + "@%s" % e.get("l", ""), c, exact=True)
                        for b in self.bases(c):
                            for fl in (self.C.get(b) or {"fields": []})["fields"]:
                                v = self.read(st, ("f", src, b, fl["n"]))
                                if v is not UNDEF:
                                    st[("f", dst, b, fl["n"])] = v
                        return leaf(dst)
                # pick the constructor by arity (and parameter types when ambiguous)
                cands = [mt for mt in self.C[c]["methods"] if mt.get("ctor") and len(mt.get("pt") or []) >= len(a) and mt["f"] in self.F]
                ok = [mt for mt in cands if len(mt["pt"]) == len(a)] or [mt for mt in cands if len([p for p in self.F[mt["f"]]["p"] if p.get("def") is None]) <= len(a)]
                if len(ok) > 1:
                    ts = [strip(x.get("t")) for x in a]
                    def score(mt):
                        return sum(1 for p, q2 in zip(mt["pt"], ts) if strip(p) == q2)
                    ok.sort(key=score, reverse=True)
                if ok:
                    return self.construct(c, ok[0]["f"], args, st, e)
                if not a:
                    return self.construct(c, None, [], st, e)
            raise Opaque("make_shared of %s" % c)
        if q.startswith("arma::conv_to") or n == "from" and "conv_to" in q:
            v = self.ev(a[0], st)
            return v
        if n in ("move", "forward", "ref", "cref", "as_const"):
            return self.load(self.lv(a[0], st), st)
        if n == "swap" and len(a) == 2:
            l1, l2 = self.lv(a[0], st), self.lv(a[1], st)
            x, y = self.load(l1, st), self.load(l2, st)
            self.store(l1, y, st)
            self.store(l2, x, st)
            return leaf(None)
        if n in ("accumulate",):
            x, y, z = vs()[:3]
            if len(a) > 3:
                raise Opaque("accumulate with functor")
            r = self.range_value(x, y, st)
            return gapply(lambda r, z: A.total(num(r)) + num(z), r, z)
        if n in ("inner_product",):
            x, y, z, w = vs()[:4]
            r = self.range_value(x, y, st)
            ln = gapply(lambda p, q2: p - q2, y, x)
            r2 = self.range_value(z, gapply(lambda p, q2: p + q2, z, ln), st)
            return gapply(lambda r, r2, w: A.total(num(r) * num(r2)) + num(w), r, r2, w)
        if n in ("is_sorted",):
            x, y = vs()[:2]
            r = self.range_value(x, y, st)
            return gapply(lambda r: A.is_sorted(num(r)), r)
        if n in ("min_element", "max_element") and False:
            pass
        if n in ("sort", "stable_sort") and q.startswith("std::") and len(a) == 2:
            x, y = vs()
            if x.c is None and y.c is None:
                for it in x.v.atoms():
                    if it.op == "iter":
                        lv = self.iters[it]
                        r = self.load(lv, st)
                        lo, hi = x.v - ra(it), y.v - ra(it)
                        nv = gapply(lambda r: A.sort(num(r)) if not lo.terms and hi is A.n_elem(r) else (_ for _ in ()).throw(Opaque("partial sort")), r)
                        self.store(lv, nv, st)
                        return leaf(None)
            raise Opaque("std::sort")
        if n in ("lower_bound", "upper_bound") and len(a) == 3:
            x, y, z = vs()
            r = self.range_value(x, y, st)
            def f(r, z):
                v = T.sym("lb", isint=True, nonneg=True).single()
                el = sel(r, ra(v))
                stop = gnot(lt(el, num(z))) if n == "lower_bound" else lt(num(z), el)
                return x.v + T.first(v, A.n_elem(r), stop)
            return gapply(f, r, z)
        if n == "distance":
            x, y = vs()
            return gapply(lambda p, q2: q2 - p, x, y)
        if n in ("begin", "end") and len(a) == 1:
            return self.lib_method({"n": n, "a": [], "b": a[0], "bt": a[0].get("t"), "o": strip(a[0].get("t")), "t": e.get("t")}, st, strip(a[0].get("t")), strip(a[0].get("t")))
        if n in ("min", "max") and len(a) == 2 and not is_arma(a[0].get("t")):
            x, y = vs()
            if q.startswith("std::numeric"):
                pass
            return gapply(lambda p, q2: T.minmax(n, (num(p), num(q2))), x, y)
        if "numeric_limits" in q:
            t = q[q.index("<") + 1:q.rindex(">")]
            if n == "infinity":
                return leaf(T.INF)
            if n == "quiet_NaN":
                return leaf(T.NAN)
            return leaf(ra(atom("limit:%s:%s" % (t, n), real=True, scalar=True, isint=t in INTS, nonneg=n in ("max", "epsilon"))))
        if n == "time":
            return leaf(ra(atom("clock", real=True, scalar=True, isint=True)))
        if n in ("isfinite", "is_finite"):
            v = vs()
            return gapply(lambda x: A.all_finite(num(x)), v[0])
        if n in ("isnan",):
            return gapply(lambda x: T.isnan(num(x)), vs()[0])
        if n in ("isinf",):
            return gapply(lambda x: gand(gnot(T.isfinite(num(x))), gnot(T.isnan(num(x)))), vs()[0])
        if n == "binomial_coefficient" or n == "binom":
            return gapply(lambda x, y: A.binom(num(x), num(y)), *vs())
        if n in LIBM and len(a) == 1:
            v = vs()[0]
            nm = {"fabs": "abs"}.get(n, n)
            return gapply(lambda x: T.fn1(nm, num(x)), v)
        if n == "norm" and not q.startswith("arma::"):
            return gapply(lambda x: num(x) * T.conj(num(x)), vs()[0])
        if n in ("real", "imag", "conj"):
            return gapply(lambda x: T.fn1(n, num(x)), vs()[0])
        if n == "arg":
            return gapply(lambda x: ra(atom("arg", num(x), real=True, scalar=x.scalar)), vs()[0])
        if n == "polar" and len(a) == 2:
            return gapply(lambda r, t: num(r) * T.exp(T.I * num(t)), *vs())
        if n == "pow":
            return gapply(lambda x, y: T.rpow(num(x), num(y)), *vs())
        if n == "hypot":
            return gapply(lambda x, y: T.sqrt(num(x) * num(x) + num(y) * num(y)), *vs())
        if n in ("make_pair", "make_tuple"):
            return gapply(lambda *xs: ("pair",) + xs, *vs())
        if n == "tie":
            raise Opaque("tie")
        if n == "to_string":
            return gapply(lambda x: ra(atom("to_string", num(x), real=True, scalar=True)), vs()[0])
        if q.startswith("arma::"):
            r = self.arma_call(e, st, n, a, vs, num)
            if r is not None:
                return r
        self.externals.add(q)
        raise Opaque("library call %s" % q)

    def may_fail(self, what, m, st):
        if self.nothrow:
            return
        c = gapply(lambda x: T.cond(what + "_fails", x), m)
        self.pend.append((c, st.copy(), leaf(("exc", "std::runtime_error"))))

    def arma_call(self, e, st, n, a, vs, num):
        if n in ("strans", "trans", "htrans"):
            v = self.ev(a[0], st)
            return gapply(lambda x: T.transpose(num(x)) if n == "strans" else T.herm(num(x)), v)
        if n == "as_scalar":
            return gapply(lambda x: A.as_scalar(num(x)), self.ev(a[0], st))
        if n in ("zeros", "ones"):
            args = [x for x in a if is_int(strip(x.get("t"))) or x["k"] == "cast"]
            ns = [self.evn(x, st) for x in args]
            t = strip(e.get("t"))
            v = ZERO if n == "zeros" else ONE
            if "Mat" in t and len(ns) >= 2:
                return leaf(T.fill2(v, ns[0], ns[1]))
            return leaf(T.fill(v, ns[0]))
        if n == "eye":
            ns = [self.evn(x, st) for x in a[:2]]
            return leaf(A.eye(*ns))
        if n == "linspace":
            x, y, k = [self.evn(z, st) for z in a[:3]]
            return leaf(A.linspace_arma(x, y, k))
        if n == "regspace":
            raise Opaque("regspace")
        if n in ("sum", "accu"):
            return gapply(lambda x: A.total(num(x)), self.ev(a[0], st))
        if n == "prod":
            return gapply(lambda x: A.product(num(x)), self.ev(a[0], st))
        if n == "mean":
            return gapply(lambda x: A.mean(num(x)), self.ev(a[0], st))
        if n in ("var", "stddev"):
            k = self.evn(a[1], st) if len(a) > 1 and a[1].get("k") else ZERO
            return gapply(lambda x: A.var(num(x), k) if n == "var" else T.sqrt(A.var(num(x), k)), self.ev(a[0], st))
        if n == "median":
            return gapply(lambda x: A.median(num(x)), self.ev(a[0], st))
        if n in ("min", "max") and len(a) == 1:
            return gapply(lambda x: A.extreme(n, num(x)), self.ev(a[0], st))
        if n == "norm":
            k = self.evn(a[1], st) if len(a) > 1 else const(2)
            if k.const() == 1:
                return gapply(lambda x: A.total(T.rabs(num(x))), self.ev(a[0], st))
            if k.const() != 2:
                raise Opaque("norm")
            return gapply(lambda x: A.norm2(num(x)), self.ev(a[0], st))
        if n == "dot":
            return gapply(lambda x, y: A.total(num(x) * num(y)), *[self.ev(z, st) for z in a[:2]])
        if n in ("cdot",):
            return gapply(lambda x, y: A.total(T.conj(num(x)) * num(y)), *[self.ev(z, st) for z in a[:2]])
        if n == "diff" and (len(a) == 1 or self.evn(a[1], st).const() == 1):
            return gapply(lambda x: A.diff(num(x)), self.ev(a[0], st))
        if n == "find":
            return gapply(lambda x: A.find(num(x)), self.ev(a[0], st))
        if n in ("any", "all"):
            return gapply(lambda x: A.anyall(n, num(x)), self.ev(a[0], st))
        if n == "sort":
            desc = False
            if len(a) > 1:
                s = self.ev(a[1], st)
                desc = s.c is None and isinstance(s.v, str) and s.v.startswith("d")
            return gapply(lambda x: A.sort(num(x), desc), self.ev(a[0], st))
        if n in ("sort_index", "stable_sort_index"):
            return gapply(lambda x: A.argsort(num(x)), self.ev(a[0], st))
        if n == "unique":
            return gapply(lambda x: A.unique(num(x)), self.ev(a[0], st))
        if n == "solve":
            x, y = [self.ev(z, st) for z in a[:2]]
            self.may_fail("solve", x, st)
            return gapply(lambda m, v: A.solve(num(m), num(v)), x, y)
        if n in ("inv", "pinv"):
            x = self.ev(a[0], st)
            self.may_fail("inv", x, st)
            return gapply(lambda m: A.inv(num(m)), x)
        if n == "chol":
            x = self.ev(a[0], st)
            lay = "upper"
            if len(a) > 1:
                s = self.ev(a[1], st)
                if s.c is None and isinstance(s.v, str):
                    lay = s.v
            self.may_fail("chol", x, st)
            return gapply(lambda m: A.chol(num(m), lay), x)
        if n in ("symmatu", "symmatl"):
            return gapply(lambda m: A.symmat(num(m), n[-1]), self.ev(a[0], st))
        if n in ("join_cols", "join_vert", "join_rows", "join_horiz"):
            x, y = [self.ev(z, st) for z in a[:2]]
            return gapply(lambda p, q: T.concat((num(p), num(q))), x, y)
        if n in ("diagmat", "diagvec"):
            return gapply(lambda m: A.diag(num(m)) if n == "diagvec" else A.diagmat(num(m)), self.ev(a[0], st))
        if n in ("trunc_exp", "trunc_log"):
            return None
        if n in ("cumsum",):
            return gapply(lambda m: A.cumsum(num(m)), self.ev(a[0], st))
        if n in ("polyval", "poly", "roots", "conv"):
            return None
        return None


def flt(s):
    x = float(s)
    for k in (1, 2, 4):
        if abs(x - k * math.pi) < 1e-8:
            return const(k) * T.PI
    if abs(x - math.pi / 2) < 1e-8:
        return T.PI / const(2)
    if math.isinf(x):
        return T.INF if x > 0 else -T.INF
    return const(Fraction(repr(x)))


def walk(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if "k" in y:
                yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def _lvkey(lv):
    out = []
    for x in lv:
        if isinstance(x, tuple):
            out.append(_lvkey(x))
        elif isinstance(x, Obj):
            out.append(("o", x.oid))
        elif isinstance(x, (R, G)):
            out.append(("r", x.uid))
        else:
            out.append(x)
    return tuple(out)


EXC_BASE = {"std::runtime_error": "std::exception", "std::logic_error": "std::exception", "std::invalid_argument": "std::logic_error",
            "std::out_of_range": "std::logic_error", "std::domain_error": "std::logic_error", "std::bad_alloc": "std::exception", "std::range_error": "std::runtime_error",
            "std::overflow_error": "std::runtime_error", "std::length_error": "std::logic_error"}


def catches(ht, exc):
    if ht in (None, "", "...") or "..." in ht:
        return True
    h = strip(ht)
    x = exc[1] if isinstance(exc, tuple) else str(exc)
    while x:
        if x == h:
            return True
        x = EXC_BASE.get(x)
    return False
