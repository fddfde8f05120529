"""Array and matrix library operations as value-number constructors, and elementwise expansion.

`expand` resolves element reads of written arrays (point writes, quantified writes, concatenations,
symmetrised matrices) into choices on the index, so that arrays built in different ways but equal
cell by cell get the same value number.
"""
import functools, itertools
import terms as T
from terms import (R, G, Atom, Opaque, leaf, gite, gnode, gapply, gand, gor, gnot, TRUE, FALSE, ZERO, ONE, ra, const, atom, subst, ungate, sel,
                   eq, lt, mkR, F1, hom)

_fresh = itertools.count()
POS = ("+", "0", "+0")


def idx_sym(n=None, tag="ix"):
    v = T.sym("%s%d" % (tag, next(_fresh)), isint=True, nonneg=True).single()
    if n is not None:
        T.RANGES[v] = (ZERO, n - ONE)
    return v


# -- shapes ------------------------------------------------------------------------

def n_elem(r):
    if r.scalar:
        return ONE
    if ismap(r):
        ks = mapkeys(r)
        if ks is None:
            raise T.Opaque("size of a map")
        return const(len(ks))
    d = dims(r)
    if d is not None and d[0] == "mat" and d[1] is not None and d[2] is not None:
        return d[1] * d[2]
    if d is not None and d[0] in ("col", "row") and T.size_of(r) is None:
        return d[1]
    return T.n_elem(r)


@functools.lru_cache(maxsize=None)
def dims(r):
    """('col', n) | ('row', n) | ('mat', nr, nc) | None"""
    best = None
    for m, c in r.terms:
        for a, e in m:
            if a.scalar:
                continue
            d = adims(a)
            if d is not None and d[0] == "mat":
                if None not in d:
                    return d
                best = d
            elif d is not None and best is None:
                best = d
    return best


def adims(a):
    if a.op == "T":
        d = dims(a.args[0])
        if d is None:
            return None
        if d[0] == "col":
            return ("row", d[1])
        if d[0] == "row":
            return ("col", d[1])
        return ("mat", d[2], d[1])
    if a.op in T.POINTWISE or a.op in ("P", "pow", "let"):
        return dims(a.args[0])
    if a.op == "E":
        return dims(mkR({a.args[0]: F1}))
    if a.op == "fill" and len(a.args) == 3:
        return ("mat", a.args[1], a.args[2])
    if a.op in ("store", "qupd"):
        d = dims(a.args[0])
        if d is not None:
            return d
    if a.op == "ite":
        for l in a.args[0].leaves():
            if isinstance(l, R) and not l.scalar:
                d = dims(l)
                if d is not None:
                    return d
        return None
    if a.op == "mm":
        d1, d2 = dims(a.args[0][0]), dims(a.args[0][-1])
        if d1 is None or d2 is None:
            return None
        nr = {"col": lambda: d1[1], "row": lambda: ONE, "mat": lambda: d1[1]}[d1[0]]()
        nc = {"col": lambda: ONE, "row": lambda: d2[1], "mat": lambda: d2[2]}[d2[0]]()
        if nr is ONE and nc is not ONE:
            return ("row", nc)
        if nc is ONE and nr is not ONE:
            return ("col", nr)
        return ("mat", nr, nc)
    if a.op in ("symmatu", "symmatl", "inv", "chol"):
        return dims(a.args[0])
    if a.op == "arr2":
        return ("mat", a.args[2], a.args[3])
    if a.op == "diagmat":
        n = n_elem(a.args[0])
        return ("mat", n, n)
    if a.op in ("sym", "mu", "rec", "bv") and a.size is None:
        s = SHAPES.get(a) or (SHAPES.get(a.args[0]) if a.op == "sym" else None)
        if s is not None:
            return ("mat",) + s
        if a.op == "rec":
            s = RECSHAPE(a)
            return s
        return None
    if a.size is not None:
        return ("col", a.size)
    if a.op == "slice":
        return ("col", a.args[2] - a.args[1])
    return None


SHAPES = {}
RECSHAPE = lambda a: None


def nrows(r):
    if r.scalar:
        return ONE
    d = dims(r)
    if d is not None:
        if d[0] == "mat":
            if d[1] is not None:
                return d[1]
        else:
            return d[1] if d[0] == "col" else ONE
    return ra(atom("nrows", r, real=True, scalar=True, isint=True, nonneg=True))


def ncols(r):
    if r.scalar:
        return ONE
    d = dims(r)
    if d is not None:
        if d[0] == "mat":
            if d[2] is not None:
                return d[2]
        else:
            return d[1] if d[0] == "row" else ONE
    return ra(atom("ncols", r, real=True, scalar=True, isint=True, nonneg=True))


# -- element stores -------------------------------------------------------------------

def store_elem(x, i, v):
    if isinstance(v, bool):
        v = const(int(v))
    a = x.single()
    if not isinstance(i, tuple):
        c = i.const()
        if a is not None and a.op == "vstackc" and c is not None and 0 <= c < len(a.args[0]):
            p = list(a.args[0])
            p[int(c)] = v
            return explicit(p)
        d = dims(x)
        if d is not None and d[0] == "row":
            return T.transpose(T.store(T.transpose(x), i, v))
    if not v.scalar:
        return T.store(x, (i, ":"), v)
    return T.store(x, i, v)


def store_slice(x, lo, hi, v):
    """x[lo:hi] = v"""
    d = dims(x)
    if d is not None and d[0] == "row":
        return T.transpose(store_slice(T.transpose(x), lo, hi, T.transpose(v) if not v.scalar else v))
    n = n_elem(x)
    if not lo.terms and hi is n:
        return v if not v.scalar else T.fill(v, n)
    b = idx_sym()
    val = v if v.scalar else sel(v, ra(b))
    return T.qupd(x, ((b, hi - lo),), None, ra(b) + lo, val)


def store_rowslice(x, i, lo, hi, v):
    b = idx_sym()
    val = v if v.scalar else sel(v, ra(b))
    return T.qupd(x, ((b, hi - lo),), None, (i, ra(b) + lo), val)


def store_colslice(x, j, lo, hi, v):
    b = idx_sym()
    val = v if v.scalar else sel(v, ra(b))
    return T.qupd(x, ((b, hi - lo),), None, (ra(b) + lo, j), val)


def store_diag(x, v):
    b = idx_sym()
    return T.qupd(x, ((b, nrows(x)),), None, (ra(b), ra(b)), v if v.scalar else sel(v, ra(b)))


def scatter(x, idx, v):
    b = idx_sym()
    return T.qupd(x, ((b, n_elem(idx)),), None, sel(idx, ra(b)), v if v.scalar else sel(v, ra(b)))


def diag(x):
    v = idx_sym()
    return T.arr(v, nrows(x), sel(x, (ra(v), ra(v))))


def diagmat(x):
    return ra(atom("diagmat", x, real=x.real, scalar=False))


def gather(x, idx):
    v = idx_sym()
    return T.arr(v, n_elem(idx), sel(x, sel(idx, ra(v))))


def eye(n, m):
    b = idx_sym()
    return T.qupd(T.fill2(ZERO, n, m), ((b, n),), None, (ra(b), ra(b)), ONE)


def explicit(vals):
    vals = tuple(vals)
    if not vals:
        return T.fill(ZERO, ZERO)
    if any(not v.scalar for v in vals):
        return ra(atom("vstackc", vals, real=all(v.real for v in vals), scalar=False, size=const(len(vals))))
    return ra(atom("vstackc", vals, real=all(v.real for v in vals), scalar=False, size=const(len(vals)), isint=all(v.isint for v in vals)))


T.REBUILD["vstackc"] = lambda vals: explicit(vals)


def append(r, y):
    n = n_elem(r)
    if not n.terms:
        return explicit([y])
    a = r.single()
    if a is not None and a.op == "vstackc":
        return explicit(a.args[0] + (y,))
    return ra(atom("append", r, y, real=r.real and y.real, scalar=False, size=n + ONE, isint=r.isint and y.isint))


T.REBUILD["append"] = append


def _sel_append(a, idx):
    if isinstance(idx, (tuple, str)):
        return None
    r, y = a.args
    t = T.idx_same(idx, n_elem(r))
    if t is True:
        return y
    if t is False and T.sign_of(n_elem(r) - idx) == "+":
        return sel(r, idx)
    return None


T.SELHOOK["append"] = _sel_append


def resize(r, n):
    o = n_elem(r)
    if o is n:
        return r
    if not o.terms:
        return T.fill(ZERO, n)
    v = idx_sym()
    return T.arr(v, n, ungate(gite(lt(ra(v), o), leaf(sel(r, ra(v))), leaf(ZERO))))


def resize2(r, n, m):
    raise Opaque("matrix resize")


def insert(x, i, y):
    if y.scalar:
        y = explicit([y])
    return T.concat((T.slice_(x, ZERO, i), y, T.slice_(x, i, n_elem(x))))


# maps and sets --------------------------------------------------------------------------

def mapset(m, k, v):
    a = m.single()
    if a is not None and a.op == "mapset" and a.args[1] is k:
        return mapset(a.args[0], k, v)
    return ra(atom("mapset", m, k, v, real=True, scalar=False))


def mapget(m, k):
    a = m.single()
    if a is not None and a.op == "mapset":
        if a.args[1] is k:
            return a.args[2]
        x, y = a.args[1].single(), k.single()
        if x is not None and y is not None and x.op == "str" and y.op == "str":
            return mapget(a.args[0], k)
    return ra(atom("mapget", m, k, real=True, scalar=True))


def mapkeys(m):
    """keys of a map filled with known strings, in order; None if they are not known"""
    out = []
    a = m.single()
    while a is not None and a.op == "mapset":
        k = a.args[1].single()
        if k is None or k.op != "str":
            return None
        if a.args[1] not in out:
            out.append(a.args[1])
        a = a.args[0].single()
    if a is None or a.op != "emptymap":
        return None
    return sorted(out, key=lambda k: k.single().args[0])


def ismap(x):
    a = x.single() if isinstance(x, R) else None
    return a is not None and a.op in ("mapset", "emptymap")


def mapitem(m, i):
    """i-th (key, value) of a map"""
    ks = mapkeys(m)
    c = i.const()
    if ks is None or c is None or not 0 <= int(c) < len(ks):
        raise T.Opaque("position in a map")
    return ("pair", ks[int(c)], mapget(m, ks[int(c)]))


T.REBUILD["mapset"] = mapset
T.REBUILD["mapget"] = mapget


def strings(r):
    """elements of an explicit array of known strings, or None"""
    a = r.single()
    if not r.scalar and n_elem(r) is ZERO:
        return []
    if a is not None and a.op == "vstackc":
        xs = [x.single() for x in a.args[0]]
        if all(x is not None and x.op == "str" for x in xs):
            return list(a.args[0])
    return None


def setinsert(r, y):
    a = r.single()
    have = strings(r)
    if have is not None and y.single() is not None and y.single().op == "str":
        if y in have:
            return r
        return explicit(sorted(have + [y], key=lambda x: x.single().args[0]))
    while a is not None and a.op == "setins":
        if a.args[1] is y:
            return r
        a = a.args[0].single()
    return ra(atom("setins", r, y, real=True, scalar=False))


T.REBUILD["setins"] = setinsert

# reductions -------------------------------------------------------------------------------


def total(x):
    if x.scalar:
        return x
    v = idx_sym()
    n = n_elem(x)
    c = n.const()
    d = dims(x)
    if d is not None and d[0] == "mat":
        w = idx_sym()
        return T.Sum(v, ZERO, d[1], T.Sum(w, ZERO, d[2], sel(x, (ra(v), ra(w)))))
    if c is not None and 0 <= c <= 8:
        out = ZERO
        for i in range(int(c)):
            out = out + sel(x, const(i))
        return out
    return T.Sum(v, ZERO, n, sel(x, ra(v)))


def product(x):
    if x.scalar:
        return x
    v = idx_sym()
    return T.Prod(v, ZERO, n_elem(x), sel(x, ra(v)))


def mean(x):
    return total(x) / n_elem(x)


def var(x, norm=ZERO):
    """norm 0: divide by n-1; 1: by n"""
    n = n_elem(x)
    mu = mean(x)
    d = x - mu
    if norm.const() == 0:
        den = n - ONE
    elif norm.const() == 1:
        den = n
    else:
        raise Opaque("variance normalisation")
    return total(d * T.conj(d)) / den


def norm2(x):
    return T.sqrt(total(x * T.conj(x)))


def cumsum(x):
    v, w = idx_sym(), idx_sym()
    return T.arr(v, n_elem(x), T.Sum(w, ZERO, ra(v) + ONE, sel(x, ra(w))))


def diff(x):
    n = n_elem(x)
    return T.slice_(x, ONE, n) - T.slice_(x, ZERO, n - ONE)


def extreme(op, x):
    """smallest / largest element"""
    if x.scalar:
        return x
    x = canon(x)
    c, mono, prim = T.content(x)
    a = x.single()
    if a is not None and a.op == "fill" and len(a.args) == 2:
        return a.args[0]
    sx = sorted_dir(x)
    n = n_elem(x)
    if sx == 1:
        return sel(x, ZERO if op == "min" else n - ONE)
    return ra(atom(op + "val", x, real=True, scalar=True, nonneg=all_nonneg(x), isint=x.isint))


T.REBUILD["minval"] = lambda x: extreme("min", x)
T.REBUILD["maxval"] = lambda x: extreme("max", x)

# arrays assumed strictly increasing (times), and arrays assumed elementwise positive
INCREASING = set()
POSITIVE = T.POSITIVE


def sorted_dir(x):
    a = x.single()
    if a is None:
        return None
    if a in INCREASING:
        return 1
    if a.op == "slice":
        return sorted_dir(a.args[0])
    return None


def elem_positive(r):
    """scalar r provably > 0 by the declared assumptions"""
    a = r.single()
    if a is not None and a.op in ("minval", "maxval"):
        x = a.args[0]
        v = idx_sym(n_elem(x))
        return elem_positive(sel(x, ra(v)))
    s = inc_sign(r)
    if s == "+":
        return True
    if r.terms and all(c > 0 and all(positive_atom(a) for a, e in m) for m, c in r.terms):
        return True
    return False


def positive_atom(a):
    if a in POSITIVE or a.op in ("pi", "E", "C"):
        return True
    if a.op == "sel":
        b = a.args[0].single()
        return b is not None and b in POSITIVE
    if a.op in ("minval", "maxval"):
        return elem_positive(ra(a))
    if a.op == "P":
        return elem_positive(a.args[0])
    if a.op == "draw" and str(a.args[0]).startswith(("uniform", "exponential", "gamma", "chisq")) and a.args[0] != "uniform_int":
        return True
    if a in T.LOWER and T.LOWER[a] > 0:
        return True
    return False


def all_nonneg(x):
    return False


def inc_sign(d):
    """sign of a difference of two cells of an increasing array"""
    if len(d.terms) != 2:
        return None
    (m1, c1), (m2, c2) = d.terms
    if len(m1) != 1 or len(m2) != 1 or c1 + c2 != 0 or m1[0][1] != 1 or m2[0][1] != 1:
        return None
    a1, a2 = m1[0][0], m2[0][0]
    if a1.op != "sel" or a2.op != "sel" or a1.args[0] is not a2.args[0]:
        return None
    b = a1.args[0].single()
    if b is None or b not in INCREASING:
        return None
    if isinstance(a1.args[1], (tuple, str)) or isinstance(a2.args[1], (tuple, str)):
        return None
    s = T.sign_of(a1.args[1] - a2.args[1])
    if s is None:
        return None
    if c1 < 0:
        s = {"+": "-", "-": "+", "0": "0", "+0": "-0", "-0": "+0"}[s]
    return s


def sign_assumed(d):
    if elem_positive(d):
        return "+"
    if elem_positive(-d):
        return "-"
    return inc_sign(d)


T.SIGNHOOK.append(sign_assumed)


def is_sorted(x):
    v = idx_sym()
    return T.quant("All", v, n_elem(x) - ONE, T.le(sel(x, ra(v)), sel(x, ra(v) + ONE)))


def argsort(x, desc=False):
    x = canon(x)
    n = n_elem(x)
    if sorted_dir(x) == 1 and not desc:
        v = idx_sym()
        return T.arr(v, n, ra(v))
    return ra(atom("argsortd" if desc else "argsort", x, real=True, scalar=False, isint=True, nonneg=True, size=n))


T.REBUILD["argsort"] = argsort
T.REBUILD["argsortd"] = lambda x: argsort(x, True)


def sort(x, desc=False):
    if sorted_dir(x) == 1 and not desc:
        return x
    return gather(x, argsort(x, desc))


def unique(x):
    x = canon(x)
    if sorted_dir(x) == 1:
        return x
    return ra(atom("unique", x, real=True, scalar=False))


def median(x):
    x = canon(x)
    return ra(atom("median", x, real=True, scalar=True))


T.REBUILD["median"] = median


def cmp_array(op, a, b):
    x = a if not a.scalar else b
    n = n_elem(x)
    v = idx_sym(n)
    p, q = sel(a, ra(v)), sel(b, ra(v))
    if op == "<":
        c = lt(p, q)
    elif op == ">":
        c = lt(q, p)
    elif op == "<=":
        c = T.le(p, q)
    elif op == ">=":
        c = T.le(q, p)
    elif op == "==":
        c = eq(p, q)
    elif op == "!=":
        c = gnot(eq(p, q))
    elif op == "&&":
        c = gand(T.truth(leaf(p)), T.truth(leaf(q)))
    else:
        c = gor(T.truth(leaf(p)), T.truth(leaf(q)))
    return T.arr(v, n, ungate(gapply(lambda t: const(int(t)), c)))


def anyall(op, x):
    v = idx_sym()
    return T.quant("Any" if op == "any" else "All", v, n_elem(x), gnot(T.regate_cond(eq(sel(x, ra(v)), ZERO))))


def _regate_cond(g):
    return T.regate(g)


T.regate_cond = _regate_cond


def find(x):
    """indices of the nonzero elements"""
    a = x.single()
    n = n_elem(x)
    if a is not None and a.op == "fill" and a.args[0].const() == 1:
        v = idx_sym()
        return T.arr(v, n, ra(v))
    if not x.terms or a is not None and a.op == "fill" and a.args[0].const() == 0:
        return T.fill(ZERO, ZERO)
    v = idx_sym()
    cnt = T.Sum(v, ZERO, n, sel(x, ra(v)))
    return ra(atom("find", x, real=True, scalar=False, isint=True, nonneg=True, size=cnt))


T.REBUILD["find"] = find


def all_finite(x):
    if x.scalar:
        return T.isfinite(x)
    v = idx_sym()
    return T.quant("All", v, n_elem(x), T.isfinite(sel(x, ra(v))))


def linspace_arma(x, y, n):
    v = idx_sym(n)
    step = (y - x) / (n - ONE)
    return T.arr(v, n, ungate(gite(eq(n, ONE), leaf(y), leaf(x + ra(v) * step))))


def linspace_np(x, y, n):
    v = idx_sym(n)
    step = (y - x) / (n - ONE)
    return T.arr(v, n, ungate(gite(eq(n, ONE), leaf(x), leaf(x + ra(v) * step))))


def binom(n, k):
    if not k.terms or n is k:
        return ONE
    return ra(atom("binom", n, k, real=True, scalar=True, isint=True, nonneg=True))


T.REBUILD["binom"] = binom

# matrices -------------------------------------------------------------------------------


def solve(m, v):
    m = canon(m)
    v = canon(v)
    out = ZERO
    for mm, c in v.terms:
        sc = tuple((a, e) for a, e in mm if a.scalar)
        mt = tuple((a, e) for a, e in mm if not a.scalar)
        if not mt:
            return ra(atom("solve", m, v, real=m.real and v.real, scalar=False, size=T.size_of(v)))
        x = mkR({mt: F1})
        out = out + mkR({sc: c}) * ra(atom("solve", m, x, real=m.real and x.real, scalar=False, size=T.size_of(x) if T.size_of(x) is not None else T.size_of(v)))
    return out


T.REBUILD["solve"] = solve


def inv(m):
    m = canon(m)
    return ra(atom("inv", m, real=m.real, scalar=False))


T.REBUILD["inv"] = inv


def chol(m, lay="upper"):
    m = canon(m)
    r = ra(atom("chol", m, real=m.real, scalar=False))
    return r if lay == "upper" else T.herm(r)


T.REBUILD["chol"] = chol


def symmat(m, which):
    return ra(atom("symmat" + which, m, real=m.real, scalar=False))


T.REBUILD["symmatu"] = lambda m: symmat(m, "u")
T.REBUILD["symmatl"] = lambda m: symmat(m, "l")


def _sel_symm(a, idx):
    if not (isinstance(idx, tuple) and len(idx) == 2 and all(isinstance(x, R) for x in idx)):
        return None
    i, j = idx
    if a.op == "symmatl":
        i, j = j, i
    s = T.sign_of(j - i)
    m = a.args[0]
    if s in POS:
        return sel(m, idx)
    if s == "-":
        return T.conj(sel(m, (idx[1], idx[0])))
    return None


T.SELHOOK["symmatu"] = T.SELHOOK["symmatl"] = _sel_symm


def _sel_diagmat(a, idx):
    if isinstance(idx, tuple) and len(idx) == 2 and all(isinstance(x, R) for x in idx):
        t = T.idx_same(idx[0], idx[1])
        if t is True:
            return sel(a.args[0], idx[0])
        if t is False:
            return ZERO
    return None


T.SELHOOK["diagmat"] = _sel_diagmat


def _sel_mm(a, idx):
    """element of a matrix product as an inner sum"""
    fs = a.args[0]
    d = adims(a)
    if d is None:
        return None
    if not isinstance(idx, tuple):
        if d[0] == "col":
            return mm_elem(fs, idx, None)
        if d[0] == "row":
            return mm_elem(fs, None, idx)
        return None
    if len(idx) != 2:
        return None
    i, j = idx
    if isinstance(i, str) and isinstance(j, str):
        return None
    if isinstance(i, str) or isinstance(j, str):
        return None
    return mm_elem(fs, i, j)


T.SELHOOK["mm"] = _sel_mm


def at2(x, i, j):
    """cell (i, j) of one factor, whose orientation decides which index is used"""
    d = dims(x)
    if d is None:
        return sel(x, (i, j)) if i is not None and j is not None else None
    if d[0] == "col":
        return sel(x, i)
    if d[0] == "row":
        return sel(T.transpose(x), j)
    return sel(x, (i, j))


def mm_elem(fs, i, j):
    """(f1 f2 ... fk)[i, j] as nested sums, None if an inner dimension is unknown"""
    f = fs[0]
    d = dims(f)
    if len(fs) == 1:
        return at2(f, i if i is not None else ZERO, j if j is not None else ZERO)
    if d is None or d[0] == "col":
        # inner dimension 1 (outer product) or unknown
        if d is None:
            return None
        rest = mm_elem(fs[1:], ZERO, j)
        if rest is None:
            return None
        return at2(f, i, ZERO) * rest
    n = d[1] if d[0] == "row" else d[2]
    if n is None:
        d2 = dims(fs[1])
        n = d2[1] if d2 is not None and d2[0] in ("col", "mat") else None
    if n is None:
        return None
    v = idx_sym(n)
    x = at2(f, i if i is not None else ZERO, ra(v))
    rest = mm_elem(fs[1:], ra(v), j)
    if x is None or rest is None:
        return None
    return T.Sum(v, ZERO, n, x * rest)


def matmul(a, b):
    if a.scalar or b.scalar:
        return a * b
    d1, d2 = dims(a), dims(b)
    if d1 is not None and d2 is not None and d1[0] == "row" and d2[0] == "col":
        r = mm_elem((a, b), None, None)
        if r is not None:
            return r
    return T.matmul(a, b)


def npdot(a, b):
    """numpy dot: one-dimensional operands are not transposed"""
    if a.scalar or b.scalar:
        return a * b
    d1, d2 = dims(a), dims(b)
    if d1 is not None and d2 is not None and d1[0] == "col" and d2[0] == "col":
        return total(a * b)
    if d1 is not None and d1[0] == "col" and (d2 is None or d2[0] == "mat"):
        return T.transpose(T.matmul(T.transpose(a), b))
    return T.matmul(a, b)


def as_scalar(x):
    if x.scalar:
        return x

    def f(a):
        if a.scalar:
            return ra(a)
        if a.op == "mm":
            d1, d2 = dims(a.args[0][0]), dims(a.args[0][-1])
            if d1 is not None and d2 is not None and d1[0] == "row" and d2[0] == "col":
                r = mm_elem(a.args[0], None, None)
                if r is not None:
                    return r
        d = adims(a)
        if d is not None and d[0] in ("col", "row"):
            return sel(ra(a) if d[0] == "col" else T.transpose(ra(a)), ZERO)
        return T.as_scalar(ra(a))
    return hom(x, f)


# -- elementwise expansion -------------------------------------------------------------------

BINDERS = {"Sum", "Prod", "arr", "first", "MinOver", "MaxOver", "qupd", "arr2"}
_opened = {}


def open_binder(v, n):
    k = (v, n.uid)
    if k not in _opened:
        s = T.sym("o%d" % next(_fresh), isint=True, nonneg=True).single()
        if not T.contains_inf(n):
            T.RANGES[s] = (ZERO, n - ONE)
        _opened[k] = s
    return _opened[k]


_exp = {}


def expand(x):
    """resolve stuck element reads; choices stay inside as 'ite' atoms"""
    if isinstance(x, R):
        k = ("R", x.uid)
        if k not in _exp:
            _exp[k] = hom(x, expand_atom)
        return _exp[k]
    if isinstance(x, G):
        k = ("G", x.uid)
        if k not in _exp:
            if x.c is None:
                _exp[k] = leaf(expand(x.v))
            else:
                _exp[k] = gite(expand_cond(x.c), expand(x.hi), expand(x.lo))
        return _exp[k]
    if isinstance(x, tuple):
        return tuple(expand(y) if not isinstance(y, Atom) else y for y in x)
    return x


def expand_cond(c):
    k = ("C", c.uid)
    if k in _exp:
        return _exp[k]
    if c.op in ("All", "Any"):
        v, n, body = c.args
        n = expand(n)
        s = open_binder(v, n)
        b = expand(subst(body, {v: ra(s)}))
        b = T.regate(b)
        r = T.quant(c.op, s, n, b)
    elif c.op == "lt0":
        r = lt(expand(c.args[0]), ZERO)
    elif c.op == "eq0":
        r = eq(expand(c.args[0]), ZERO)
    elif c.op == "isfinite":
        r = T.isfinite(expand(c.args[0]))
    elif c.op == "isnan":
        r = T.isnan(expand(c.args[0]))
    elif c.op in T.CREBUILD:
        r = T.CREBUILD[c.op](*[expand(y) for y in c.args])
    else:
        r = T.cond(c.op, *[expand(y) if isinstance(y, (R, G, tuple)) else y for y in c.args])
    _exp[k] = r
    return r


def expand_atom(a):
    k = ("A", a.uid)
    if k in _exp:
        return _exp[k]
    r = _expand_atom(a)
    _exp[k] = r
    return r


def _expand_atom(a):
    op = a.op
    if op in ("Sum", "Prod"):
        v, lo, hi, body = a.args
        hi = expand(hi)
        s = open_binder(v, hi)
        body = expand(subst(body, {v: ra(s)}))
        return simp_sum(op, s, hi, body)
    if op == "arr":
        v, n, body = a.args
        n = expand(n)
        s = open_binder(v, n)
        return T.arr(s, n, expand(subst(body, {v: ra(s)})))
    if op == "first":
        v, n, body = a.args
        n = expand(n)
        s = open_binder(v, n)
        return T.first(s, n, T.regate(expand(subst(body, {v: ra(s)}))))
    if op in ("MinOver", "MaxOver"):
        v, n, body = a.args
        n = expand(n)
        s = open_binder(v, n)
        v2, b2 = T.canon_binder(s, expand(subst(body, {v: ra(s)})))
        return ra(atom(op, v2, n, b2, real=True, scalar=True, binders=(v2,)))
    if op == "sel":
        base, idx = expand(a.args[0]), expand(a.args[1])
        r = sel(base, idx)
        b = r.single()
        if b is not None and b.op == "sel":
            g = read_through(b)
            if g is not None:
                g = gapply(lambda y: expand(y) if isinstance(y, R) else y, g)
                return ungate(absorb(T.prune(T.regate(g))))
            return r
        if r is not ra(a):
            return expand(r)
        return r
    if op == "E":
        return T.exp(expand(mkR({a.args[0]: F1})))
    if op == "ite":
        g = T.regate(expand(a.args[0]))
        return ungate(absorb(T.prune(g)))
    if op == "qupd":
        return ra(a)
    if op in ("sym", "mu", "bv", "pi", "I", "inf", "nan"):
        return ra(a)
    args = [expand(y) if isinstance(y, (R, G, tuple)) else y for y in a.args]
    if all(x is y or x == y for x, y in zip(args, a.args)):
        return ra(a)
    return T.rebuild(a, args)


def simp_sum(op, s, hi, body):
    """sums of indicator choices on the index"""
    if op == "Prod":
        return T.Prod(s, ZERO, hi, body)
    return T.Sum(s, ZERO, hi, body)


def absorb(g):
    """ite(i == c, a, b) with a = b[i := c] is b"""
    memo = {}

    def go(n):
        if n.c is None:
            return n
        if n.uid in memo:
            return memo[n.uid]
        hi, lo = go(n.hi), go(n.lo)
        r = gnode(n.c, hi, lo)
        if n.c.op == "eq0" and hi is not lo:
            d = n.c.args[0]
            if d.isint:
                for m, c in d.terms:
                    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == "sym":
                        v = m[0][0]
                        rest = (d - mkR({m: c})) / const(-c)
                        if v in rest.syms:
                            continue
                        try:
                            if subst(lo, {v: rest}) is subst(hi, {v: rest}):
                                r = lo
                                break
                        except Opaque:
                            pass
        memo[n.uid] = r
        return r
    return go(g)


def read_through(b):
    """gated value of a stuck read sel(written array, idx), or None"""
    base, idx = b.args
    a = base.single()
    if a is None:
        return None
    if a.op == "store":
        arr, j, v = a.args
        return choose(arr, j, v, idx)
    if a.op == "qupd":
        arr, bnds, cond, j, v = a.args
        return quantified(arr, bnds, cond, j, v, idx)
    if a.op == "append":
        r, y = a.args
        if isinstance(idx, (tuple, str)):
            return None
        return gite(eq(idx, n_elem(r)), leaf(y), leaf(sel(r, idx)))
    if a.op == "concat" and not isinstance(idx, (tuple, str)):
        off = ZERO
        parts = []
        for x in a.args[0]:
            n = n_elem(x)
            parts.append((off, off + n, x))
            off = off + n
        lo, hi, x = parts[-1]
        g = leaf(sel(x, idx - lo))
        for lo, hi, x in reversed(parts[:-1]):
            g = gite(lt(idx, hi), leaf(sel(x, idx - lo)), g)
        return g
    if a.op in ("symmatu", "symmatl") and isinstance(idx, tuple) and len(idx) == 2 and all(isinstance(x, R) for x in idx):
        i, j = idx if a.op == "symmatu" else (idx[1], idx[0])
        m = a.args[0]
        return gite(lt(j, i), leaf(T.conj(sel(m, (idx[1], idx[0])))), leaf(sel(m, idx)))
    if a.op == "diagmat" and isinstance(idx, tuple) and all(isinstance(x, R) for x in idx):
        return gite(eq(idx[0], idx[1]), leaf(sel(a.args[0], idx[0])), leaf(ZERO))
    if a.op == "vstackc" and not isinstance(idx, (tuple, str)):
        g = leaf(a.args[0][-1])
        for i in range(len(a.args[0]) - 2, -1, -1):
            g = gite(eq(idx, const(i)), leaf(a.args[0][i]), g)
        return g
    if a.op == "vstackc" and isinstance(idx, tuple) and isinstance(idx[0], R):
        rest = idx[1:] if len(idx) > 2 else idx[1]
        g = leaf(sel(a.args[0][-1], rest))
        for i in range(len(a.args[0]) - 2, -1, -1):
            g = gite(eq(idx[0], const(i)), leaf(sel(a.args[0][i], rest)), g)
        return g
    return None


def choose(arr, j, v, idx):
    if isinstance(j, tuple) != isinstance(idx, tuple):
        return None
    if not isinstance(j, tuple):
        if isinstance(j, str) or isinstance(idx, str):
            return None
        return gite(eq(idx, j), leaf(v), leaf(sel(arr, idx)))
    if len(j) != len(idx):
        return None
    c = TRUE
    free = []
    for x, y in zip(j, idx):
        if isinstance(x, str):
            free.append(y)
            continue
        if isinstance(y, str):
            return None
        c = gand(c, eq(x, y))
    if free and not v.scalar:
        if not all(isinstance(y, str) for y in free):
            v = sel(v, free[0] if len(free) == 1 else tuple(free))
    return gite(c, leaf(v), leaf(sel(arr, idx)))


def quantified(arr, bnds, cond, j, v, idx):
    js = j if isinstance(j, tuple) else (j,)
    ii = idx if isinstance(idx, tuple) else (idx,)
    if len(js) != len(ii):
        return None
    m = {}
    c = TRUE
    free = []
    pending = []
    for x, y in zip(js, ii):
        if isinstance(x, str):
            free.append(y)
        elif isinstance(y, str):
            return None
        else:
            pending.append((x, y))
    bs = [b for b, t in bnds]
    progress = True
    while pending and progress:
        progress = False
        for p in list(pending):
            x, y = p
            x = subst(x, m) if m else x
            un = [b for b in bs if b in x.syms and b not in m]
            if not un:
                c = gand(c, eq(x, y))
                pending.remove(p)
                progress = True
                continue
            if len(un) > 1:
                continue
            b = un[0]
            c0 = subst(x, {b: ZERO})
            c1 = subst(x, {b: ONE}) - c0
            k = c1.const()
            if k is None or k == 0 or (x - c0 - c1 * ra(b)).terms:
                return None
            if abs(k) == 1:
                m[b] = (y - c0) / const(k)
            else:
                num = (y - c0) * const(1 if k > 0 else -1)
                kk = const(abs(k))
                q = num / kk
                if q.isint:
                    m[b] = q
                elif T._nonint_const(q):
                    return leaf(sel(arr, idx))
                else:
                    c = gand(c, eq(T.imod(num, kk), ZERO))
                    m[b] = T.idiv(num, kk)
            pending.remove(p)
            progress = True
    if pending or len(m) < len(bs):
        return None
    for b, t in bnds:
        tt = subst(t, m)
        q = m[b]
        c = gand(c, gnot(lt(q, ZERO)))
        c = gand(c, lt(q, tt))
    if cond is not None:
        c = gand(c, subst(cond, m))
    val = subst(v, m)
    if free and not val.scalar:
        if not all(isinstance(y, str) for y in free):
            val = sel(val, free[0] if len(free) == 1 else tuple(free))
    return gite(c, leaf(val), leaf(sel(arr, idx)))


_canon = {}


def canon(x):
    """array or matrix in cell-by-cell canonical form"""
    if x.scalar:
        return expand(x)
    if x.uid in _canon:
        return _canon[x.uid]
    d = dims(x)
    r = None
    if d is not None and d[0] == "col" or d is None and T.size_of(x) is not None:
        n = d[1] if d is not None else T.size_of(x)
        n = expand(n)
        c = n.const()
        if c is not None and 0 < c <= 12:
            r = explicit([expand(sel(x, const(i))) for i in range(int(c))])
        else:
            v = canon_idx(n)
            body = expand(sel(x, ra(v)))
            r = T.arr(v, n, body)
    elif d is not None and d[0] == "row":
        r = T.transpose(canon(T.transpose(x)))
    elif d is not None and d[0] == "mat" and d[1] is not None and d[2] is not None:
        n, m = expand(d[1]), expand(d[2])
        v, w = canon_idx(n, 0), canon_idx(m, 1)
        body = expand(sel(x, (ra(v), ra(w))))
        r = arr2(v, w, n, m, body)
    else:
        r = expand(x)
    _canon[x.uid] = r
    _canon[r.uid] = r
    return r


_cidx = {}


def canon_idx(n, p=0):
    k = (n.uid, p)
    if k not in _cidx:
        _cidx[k] = idx_sym(n, "c%d_" % p)
    return _cidx[k]


def arr2(v, w, n, m, body):
    h = T.binder_height(body)
    b1, b2 = T.bv(5000 + 2 * h), T.bv(5001 + 2 * h)
    body = subst(body, {v: ra(b1), w: ra(b2)})
    a = body.single()
    if a is not None and a.op == "sel" and a.args[1] == (ra(b1), ra(b2)) and not (a.args[0].syms & {b1, b2}):
        return a.args[0]
    if not (body.syms & {b1, b2}):
        return T.fill2(body, n, m)
    return ra(atom("arr2", b1, b2, n, m, body, real=body.real, scalar=False, binders=(b1, b2)))


def _sel_arr2(a, idx):
    if isinstance(idx, tuple) and len(idx) == 2:
        b1, b2, n, m, body = a.args
        i, j = idx
        if isinstance(i, R) and isinstance(j, R):
            return subst(body, {b1: i, b2: j})
        if isinstance(i, R):
            v = idx_sym(m)
            return T.arr(v, m, subst(body, {b1: i, b2: ra(v)}))
        if isinstance(j, R):
            v = idx_sym(n)
            return T.arr(v, n, subst(body, {b1: ra(v), b2: j}))
    return None


T.SELHOOK["arr2"] = _sel_arr2


def _rebuild_arr2(b1, b2, n, m, body):
    v, w = idx_sym(n), idx_sym(m)
    return arr2(v, w, n, m, subst(body, {b1: ra(v), b2: ra(w)}))


T.REBUILDB["arr2"] = _rebuild_arr2
