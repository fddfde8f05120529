"""Value-number terms and their algebraic normal form.

A value is a Laurent polynomial (class R) with rational coefficients and rational
exponents over *atoms*.  Atoms are interned operator applications: array cells,
exponentials, matrix products, sums over a bound index, uninterpreted calls.
Addition, multiplication, division, powers, exp, log, conjugation, elementwise
array operations and bilinear matrix products are normalised on construction, so
two expressions that are equal by ring/field algebra get the same value number.

Gated values (class G) are ordered decision diagrams over interned atomic
conditions whose leaves are values: they are the result of joining definitions
that reach a point along different branches.
"""
from fractions import Fraction
import functools, itertools, math
import time

F0, F1 = Fraction(0), Fraction(1)


class Opaque(Exception):
    """A construct outside the modelled fragment was met."""


# --------------------------------------------------------------------------
# atoms

_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("op", "args", "uid", "real", "scalar", "isint", "nonneg", "syms", "opaque", "size", "unit", "_h")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.uid < o.uid


def _key(x):
    if isinstance(x, Atom):
        return ("A", x.uid)
    if isinstance(x, R):
        return ("R", x.uid)
    if isinstance(x, G):
        return ("G", x.uid)
    if isinstance(x, tuple):
        return ("T",) + tuple(_key(y) for y in x)
    if isinstance(x, bool):
        return ("b", x)
    return x


def _syms(x):
    if isinstance(x, (Atom, R, G)):
        return x.syms
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s = s | _syms(y)
        return s
    return frozenset()


def _opq(x):
    if isinstance(x, (Atom, R, G)):
        return x.opaque
    if isinstance(x, tuple):
        return any(_opq(y) for y in x)
    return False


# operators that are real valued whatever their arguments
REAL_OPS = {"real", "imag", "abs", "n", "sin", "cos", "norm", "minval", "maxval", "floor", "ceil"}
INT_OPS = {"n", "nrows", "ncols", "floor", "ceil", "idiv", "mod", "round", "trunc"}
# elementwise functions: real if argument real; push element access inside
POINTWISE = {"sin", "cos", "tan", "real", "imag", "abs", "conj", "log", "floor", "ceil", "trunc", "round", "sign", "lgamma", "arg", "erf", "atan", "sinh", "cosh", "tanh"}


def atom(op, *args, real=None, scalar=None, isint=None, nonneg=None, size=None, binders=(), opaque=False):
    k = (op,) + tuple(_key(a) for a in args)
    a = _atoms.get(k)
    if a is not None:
        return a
    a = Atom()
    a.op, a.args = op, args
    a.uid = len(_atom_list)
    a._h = None
    s = frozenset()
    opq = opaque or op == "opaque"
    for x in args:
        s = s | _syms(x)
        opq = opq or _opq(x)
    if op in ("sym", "mu", "bv"):
        s = s | frozenset([a])
    for b in binders:
        s = s - frozenset([b])
    a.syms = s
    a.opaque = opq
    rargs = [x for x in args if isinstance(x, R)]
    if real is None:
        if op in REAL_OPS or op in INT_OPS:
            real = True
        elif op in ("sym",):
            real = False
        else:
            real = bool(rargs) and all(x.real for x in rargs)
    if scalar is None:
        if op in POINTWISE:
            scalar = bool(rargs) and all(x.scalar for x in rargs)
        elif op in ("n", "norm", "minval", "maxval"):
            scalar = True
        else:
            scalar = True
    a.real, a.scalar = real, scalar
    a.isint = (op in INT_OPS) if isint is None else isint
    a.nonneg = (op in ("abs", "n", "norm")) if nonneg is None else nonneg
    a.size = size
    _atoms[k] = a
    _atom_list.append(a)
    return a


# --------------------------------------------------------------------------
# normal form

_rs = {}
_r_list = []


class R:
    __slots__ = ("terms", "uid", "syms", "opaque", "real", "scalar", "isint", "_d")

    def __add__(s, o): return add(s, tor(o))
    def __radd__(s, o): return add(tor(o), s)
    def __sub__(s, o): return add(s, neg(tor(o)))
    def __rsub__(s, o): return add(tor(o), neg(s))
    def __mul__(s, o): return mul(s, tor(o))
    def __rmul__(s, o): return mul(tor(o), s)
    def __truediv__(s, o): return div(s, tor(o))
    def __rtruediv__(s, o): return div(tor(o), s)
    def __neg__(s): return neg(s)
    def __pow__(s, e): return rpow(s, e)
    def __repr__(s): return show(s)

    def const(s):
        """The rational value if constant, else None."""
        if not s.terms:
            return F0
        if len(s.terms) == 1 and s.terms[0][0] == ():
            return s.terms[0][1]
        return None

    def single(s):
        """The atom if this is exactly one atom, else None."""
        if len(s.terms) == 1:
            m, c = s.terms[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(s):
        out = []
        for m, c in s.terms:
            for a, e in m:
                out.append(a)
        return out


def mkR(d):
    terms = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda t: tuple((a.uid, e) for a, e in t[0])))
    k = tuple((tuple((a.uid, e) for a, e in m), c) for m, c in terms)
    r = _rs.get(k)
    if r is None:
        r = R()
        r.terms = terms
        r.uid = len(_r_list)
        s = frozenset()
        opq, real, scalar, isint = False, True, True, True
        for m, c in terms:
            if c.denominator != 1:
                isint = False
            for a, e in m:
                s = s | a.syms
                opq = opq or a.opaque
                real = real and a.real
                scalar = scalar and a.scalar
                isint = isint and a.isint and e.denominator == 1 and e > 0
        r.syms, r.opaque, r.real, r.scalar, r.isint = s, opq, real, scalar, isint
        _rs[k] = r
        _r_list.append(r)
    return r


def fr(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x == math.pi:
            raise Opaque("pi")
        return Fraction(repr(x))
    return Fraction(x)


def const(x):
    x = fr(x)
    return mkR({(): x} if x else {})


def ra(a, e=1):
    """atom -> R"""
    return mkR({((a, fr(e)),): F1})


ZERO, ONE, TWO = const(0), const(1), const(2)


def tor(x):
    if isinstance(x, R):
        return x
    if isinstance(x, Atom):
        return ra(x)
    if isinstance(x, (int, float, Fraction)):
        return const(x)
    raise Opaque("not a value: %r" % (x,))


def sym(name, real=True, scalar=True, isint=False, nonneg=False, size=None):
    return ra(atom("sym", name, real=real, scalar=scalar, isint=isint, nonneg=nonneg, size=size))


PI = ra(atom("pi", real=True, scalar=True, nonneg=True))
INF = ra(atom("inf", real=True, scalar=True, nonneg=True))
NAN = ra(atom("nan", real=True, scalar=True))
IU = atom("I", real=False, scalar=True)
I = ra(IU)


def opaque(why):
    return ra(atom("opaque", why, opaque=True))


def neg(a):
    return mkR({m: -c for m, c in a.terms})


def _plain(r):
    return not any(a.op == "P" for m, c in r.terms for a, e in m)


class Timeout(Exception):
    """a comparison of normal forms took longer than its budget"""


DEADLINE = [None]


def check_time():
    if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
        raise Timeout()


@functools.lru_cache(maxsize=None)
def _add(a, b):
    check_time()
    d = dict(a.terms)
    for m, c in b.terms:
        d[m] = d.get(m, F0) + c
    r = mkR(d)
    if _plain(r):
        return r
    return normP(r)


def add(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    return _add(a, b)


def _special(a, e):
    return a.op in ("I", "abs", "P", "C", "real")


def mulmono(m1, m2):
    """Product of two monomials -> (coef, monomial, extra R list)."""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, F0) + e
    coef = F1
    extra = []
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "I" and e.denominator == 1:
            k = int(e) % 4
            if k == 0:
                continue
            if k == 2:
                coef = -coef
                continue
            if k == 3:
                coef = -coef
            e = F1
        elif a.op == "abs" and e.denominator == 1 and abs(e) >= 2:
            x = a.args[0]
            h = int(e) // 2 if e > 0 else -((-int(e)) // 2)
            extra.append(rpow(mul(x, conj(x)), h))
            e = e - 2 * h
            if e == 0:
                continue
        elif a.op == "C":
            w = e.numerator // e.denominator
            if w:
                coef *= Fraction(a.args[0]) ** w
                e = e - w
            if e == 0:
                continue
        out.append((a, e))
    out.sort(key=lambda t: t[0].uid)
    return coef, tuple(out), extra


@functools.lru_cache(maxsize=None)
def _mul(a, b):
    d = {}
    ex = ZERO
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            c, m, extra = mulmono(m1, m2)
            if extra:
                t = mkR({m: c * c1 * c2})
                for x in extra:
                    t = mul(t, x)
                ex = add(ex, t)
            else:
                d[m] = d.get(m, F0) + c * c1 * c2
    r = mkR(d)
    if not _plain(r):
        r = normP(r)
    return add(r, ex)


def mul(a, b):
    if a.uid > b.uid:
        a, b = b, a
    if len(a.terms) * len(b.terms) > MULLIMIT:
        a, b = let(a), let(b)
    return _mul(a, b)


MULLIMIT = 4000
LEAN = [None]           # values of more terms than this are named when stored (None: never)


def let(r, keep=12):
    """a name for a value whose expansion would be unwieldy; the definition stays inside the atom"""
    if len(r.terms) <= keep or r.isint:
        return r
    size = None if r.scalar else size_of(r)
    return ra(atom("let", r, real=r.real, scalar=r.scalar, isint=r.isint, size=size))


def div(a, b):
    return mul(a, rpow(b, -1))


_factor_cache = {}


def _factor(r):
    """Irreducible factors of a primitive polynomial: list of (R, k)."""
    if r in _factor_cache:
        return _factor_cache[r]
    res = [(r, 1)]
    deg = max(sum(abs(e) for a, e in m) for m, c in r.terms)
    if deg > 1 and len(r.terms) <= 60:
        try:
            import sympy
            atoms = sorted({a for m, c in r.terms for a, e in m}, key=lambda a: a.uid)
            den = 1
            for m, c in r.terms:
                for a, e in m:
                    den = den * e.denominator // math.gcd(den, e.denominator)
            if deg * den > 48:
                raise ValueError("degree")
            xs = {a: sympy.Symbol("x%d" % i) for i, a in enumerate(atoms)}
            inv = {str(xs[a]): a for a in atoms}
            expr = sum(sympy.Rational(c.numerator, c.denominator) * sympy.Mul(*[xs[a] ** int(e * den) for a, e in m]) for m, c in r.terms)
            cc, fs = sympy.factor_list(expr)
            if len(fs) > 1 or (fs and fs[0][1] > 1):
                res = []
                for f, k in fs:
                    gens = f.free_symbols
                    po = sympy.Poly(f, *sorted(gens, key=str))
                    d = {}
                    for mon, co in po.terms():
                        m = tuple(sorted(((inv[str(g)], Fraction(e, den)) for g, e in zip(po.gens, mon) if e), key=lambda t: t[0].uid))
                        d[m] = Fraction(int(co.p), int(co.q))
                    q = mkR(d)
                    lead = q.terms[0][1]
                    q = mkR({m: c / lead for m, c in q.terms})
                    res.append((q, k))
        except Opaque:
            raise
        except Exception:
            res = [(r, 1)]
    _factor_cache[r] = res
    return res


def content(r):
    """r = coef * monomial * primitive, primitive has leading coefficient 1 and no common atom factor."""
    common = None
    for m, c in r.terms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) if a in d else None for a, e in common.items()}
            common = {a: e for a, e in common.items() if e is not None}
        # atoms absent from a monomial have exponent 0
    full = {}
    allatoms = {a for m, c in r.terms for a, e in m}
    for a in allatoms:
        es = [dict(m).get(a, F0) for m, c in r.terms]
        mn = min(es)
        if mn != 0:
            full[a] = mn
    mono = tuple(sorted(((a, e) for a, e in full.items()), key=lambda t: t[0].uid))
    inv = {a: -e for a, e in full.items()}
    d = {}
    for m, c in r.terms:
        dm = dict(m)
        for a, e in inv.items():
            dm[a] = dm.get(a, F0) + e
        mm = tuple(sorted(((a, e) for a, e in dm.items() if e != 0), key=lambda t: t[0].uid))
        d[mm] = d.get(mm, F0) + c
    q = mkR(d)
    lead = q.terms[0][1]
    q = mkR({m: c / lead for m, c in q.terms})
    return lead, mono, q


def cpow(c, e):
    """rational constant to a rational power."""
    if e.denominator == 1:
        return const(c ** int(e))
    if c < 0:
        return ra(atom("cpow", const(c), e, real=False, scalar=True))
    out = ONE
    for num, s in ((c.numerator, 1), (c.denominator, -1)):
        n = num
        p = 2
        fac = {}
        while p * p <= n and p < 100000:
            while n % p == 0:
                fac[p] = fac.get(p, 0) + 1
                n //= p
            p += 1
        if n > 1:
            fac[n] = fac.get(n, 0) + 1
        for p, k in fac.items():
            ex = e * k * s
            w = ex.numerator // ex.denominator
            frac = ex - w
            t = const(Fraction(p) ** w)
            if frac:
                t = mul(t, ra(atom("C", p, real=True, scalar=True, nonneg=True), frac))
            out = mul(out, t)
    return out


@functools.lru_cache(maxsize=None)
def _flip(r):
    """write a product with positive factors where their sign is known, before a fractional power is distributed over it"""
    c, mono, prim = content(r)
    odd = lambda a, x: a.op == "P" and a.real and x.denominator == 1 and x % 2
    if not any(odd(a, x) for a, x in mono):
        return r
    out = []
    for a, x in mono:
        if odd(a, x) and sign_of(a.args[0]) in ("-", "-0"):
            a = atom("P", neg(a.args[0]), real=a.real, scalar=a.scalar)
            c = -c
        out.append((a, x))
    if c < 0 and len(r.terms) == 1:
        for i, (a, x) in enumerate(out):
            if odd(a, x) and sign_of(a.args[0]) not in ("+", "+0"):
                out[i] = (atom("P", neg(a.args[0]), real=a.real, scalar=a.scalar), x)
                c = -c
                break
    t = mkR({tuple(sorted(out, key=lambda t: t[0].uid)): c})
    return mkR(_rawmul(t, prim)) if len(r.terms) > 1 else t


def _declared(a):
    if a.op == "sel":
        a = a.args[0].single()
    return a in POSITIVE


def _rpow(r, e):
    if e == 0:
        return ONE
    if e == 1:
        return r
    if not r.terms:
        if e > 0:
            return ZERO
        return ra(atom("div0", real=True, scalar=True))
    if e.denominator != 1:
        r = _flip(r)
    if len(r.terms) == 1:
        m, c = r.terms[0]
        if e.denominator != 1 and c < 0:
            # the sign belongs to the factor whose own sign is not known
            for i, (a, ex) in enumerate(m):
                if a.real and not a.nonneg and not _declared(a) and a.op not in ("E", "pi", "C", "P", "I") and ex.denominator == 1 and ex % 2 and sign_of(ra(a)) not in ("+", "+0"):
                    c = -c
                    P = atom("P", neg(ra(a)), real=True, scalar=a.scalar)
                    m = m[:i] + ((P, ex),) + m[i + 1:]
                    break
        out = cpow(c, e)
        for a, ex in m:
            if a.op == "I" and e.denominator != 1:
                out = mul(out, ra(atom("cpow", ra(a), e, real=False, scalar=True)))
                continue
            if a.op == "I" and e == -1:
                out = mul(out, neg(I))
                continue
            ne = ex * e
            cc, mm, extra = mulmono(((a, ne),), ())
            t = mkR({mm: cc})
            for x in extra:
                t = mul(t, x)
            if not _plain(t):
                t = normP(t)
            out = mul(out, t)
        return out
    if e.denominator == 1 and 0 < e <= 8:
        out = ONE
        for _ in range(int(e)):
            out = mul(out, r)
        return out
    c, mono, prim = content(r)
    if e.denominator != 1 and c < 0:
        # keep the sign inside: sqrt(-(x)) != i sqrt(x) in real arithmetic
        prim = neg(prim)
        c = -c
        out = mul(cpow(c, e), _rpow(mkR({mono: F1}), e))
        P = atom("P", prim, real=prim.real, scalar=prim.scalar)
        return mul(out, ra(P, e))
    out = mul(cpow(c, e), _rpow(mkR({mono: F1}), e)) if mono else cpow(c, e)
    if e.denominator != 1:
        facs = [(prim, 1)]
    else:
        facs = _factor(prim)
    for q, k in facs:
        P = atom("P", q, real=q.real, scalar=q.scalar)
        ex = e * k
        t = mkR({((P, ex),): F1})
        if ex > 0:
            t = normP(t)
        out = mul(out, t)
    return out


def rpow(r, e):
    if isinstance(e, R):
        c = e.const()
        if c is not None:
            return rpow(r, c)
        # symbolic exponent
        rc = r.const()
        if rc == 1:
            return ONE
        if rc == 0 and sign_of(e) == "+":
            return ZERO
        if len(r.terms) == 1:
            m, co = r.terms[0]
            if len(m) == 1 and co == 1 and m[0][0].op == "E" and m[0][1] == 1:
                return exp(mul(e, mkR({m[0][0].args[0]: F1})))
        # a^(x+c) = a^x a^c for integer constant part
        cst = dict(e.terms).get((), F0)
        if cst != 0 and cst.denominator == 1:
            return mul(rpow(r, e - const(cst)), rpow(r, cst))
        return ra(atom("pow", r, e, real=r.real and e.real and (e.isint or r_nonneg(r)), scalar=r.scalar and e.scalar))
    return _rpow(r, fr(e))


def r_nonneg(r):
    for m, c in r.terms:
        if c < 0:
            return False
        for a, e in m:
            if not (a.nonneg or a.op in ("E", "pi", "C") or (a.real and e.denominator == 1 and e % 2 == 0)):
                return False
    return True


def _lead_order(m, atoms):
    d = dict(m)
    return tuple(d.get(a, F0) for a in atoms)


def divide_exact(n, p):
    """n / p for polynomials in normal form, or None."""
    check_time()
    if not n.terms:
        return ZERO
    c, mono, _ = content(n)
    # strip monomial content so exponents are >= 0
    inv = mkR({tuple((a, -e) for a, e in mono): F1}) if mono else ONE
    rem = dict(n.terms) if not mono else dict(_rawmul(n, inv))
    pt = p.terms
    atoms = sorted({a for m in rem for a, e in m} | {a for m, cc in pt for a, e in m}, key=lambda a: a.uid)
    lp = max(pt, key=lambda t: _lead_order(t[0], atoms))
    lo = _lead_order(lp[0], atoms)
    q = {}
    guard = 0
    while rem:
        guard += 1
        if guard > 4000:
            return None
        m = max(rem, key=lambda mm: _lead_order(mm, atoms))
        mo = _lead_order(m, atoms)
        ex = tuple(x - y for x, y in zip(mo, lo))
        if any(x < 0 for x in ex):
            return None
        cq = rem[m] / lp[1]
        mq = tuple((a, x) for a, x in zip(atoms, ex) if x != 0)
        q[mq] = q.get(mq, F0) + cq
        for pm, pc in pt:
            d = dict(mq)
            for a, e in pm:
                d[a] = d.get(a, F0) + e
            mm = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda t: t[0].uid))
            v = rem.get(mm, F0) - cq * pc
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
    out = mkR(q)
    if mono:
        out = mkR(dict(_rawmul(out, mkR({mono: F1}))))
    return out


def _rawmul(a, b):
    """product without P normalisation (used inside normP)."""
    d = {}
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            dd = dict(m1)
            for x, e in m2:
                dd[x] = dd.get(x, F0) + e
            m = tuple(sorted(((x, e) for x, e in dd.items() if e != 0), key=lambda t: t[0].uid))
            d[m] = d.get(m, F0) + c1 * c2
    return {m: c for m, c in d.items() if c != 0}


@functools.lru_cache(maxsize=None)
def normP(r):
    for _ in range(40):
        # expand positive integer parts
        again = False
        d = {}
        for m, c in r.terms:
            hit = None
            for a, e in m:
                if a.op == "P" and e >= 1:
                    hit = (a, e)
                    break
            if hit is None:
                d[m] = d.get(m, F0) + c
            else:
                a, e = hit
                w = e.numerator // e.denominator
                rest = tuple((x, y) for x, y in m if x is not a)
                if e - w:
                    rest = tuple(sorted(rest + ((a, e - w),), key=lambda t: t[0].uid))
                t = mkR({rest: c})
                base = a.args[0]
                for _i in range(w):
                    t = mul(t, base)
                for mm, cc in t.terms:
                    d[mm] = d.get(mm, F0) + cc
                again = True
        r = mkR(d)
        if again:
            continue
        Ps = {}
        for m, c in r.terms:
            for a, e in m:
                if a.op == "P" and e < 0 and e.denominator == 1:
                    Ps[a] = max(Ps.get(a, 0), int(-e))
        changed = False
        for a in sorted(Ps, key=lambda x: x.uid):
            k = Ps[a]
            base = a.args[0]
            n = {}
            for m, c in r.terms:
                dm = dict(m)
                e = dm.get(a, F0)
                if e.denominator != 1:
                    # fractional mix: leave alone
                    n = None
                    break
                up = int(e + k)
                dm.pop(a, None)
                t = mkR({tuple(sorted(dm.items(), key=lambda t: t[0].uid)): c})
                for _i in range(up):
                    t = mkR(_rawmul(t, base))
                for mm, cc in t.terms:
                    n[mm] = n.get(mm, F0) + cc
            if n is None:
                continue
            N = mkR(n)
            kk = k
            while kk > 0:
                q = divide_exact(N, base)
                if q is None:
                    break
                N = q
                kk -= 1
            if kk:
                res = mkR(_rawmul(N, mkR({((a, Fraction(-kk)),): F1})))
            else:
                res = N
            if res is not r:
                r = res
                changed = True
        if not changed:
            return r
    return r


# --------------------------------------------------------------------------
# functions

@functools.lru_cache(maxsize=None)
def exp(r):
    out = ONE
    for m, c in r.terms:
        # exp(c * log(x)) = x^c
        if len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1:
            out = mul(out, rpow(m[0][0].args[0], c))
            continue
        base = mkR({m: F1})
        a = atom("E", m, real=base.real, scalar=base.scalar, nonneg=base.real)
        out = mul(out, mkR({((a, c),): F1}))
    return out


@functools.lru_cache(maxsize=None)
def log(r):
    if not r.terms:
        return ra(atom("log", ZERO, real=True, scalar=True))
    if len(r.terms) == 1:
        m, c = r.terms[0]
        out = ZERO
        if c != 1:
            if c > 0:
                for n, s in ((c.numerator, 1), (c.denominator, -1)):
                    if n != 1:
                        p = 2
                        while n > 1 and p < 100000:
                            while n % p == 0:
                                out = add(out, mul(const(s), ra(atom("log", const(p), real=True, scalar=True))))
                                n //= p
                            p += 1
                        if n > 1:
                            out = add(out, mul(const(s), ra(atom("log", const(n), real=True, scalar=True))))
            else:
                return ra(atom("log", r, real=r.real, scalar=r.scalar))
        for a, e in m:
            if a.op == "E":
                out = add(out, mkR({a.args[0]: e}))
            elif a.op == "P":
                out = add(out, mul(const(e), ra(atom("log", a.args[0], real=a.args[0].real, scalar=a.scalar))))
            elif a.op == "C":
                out = add(out, mul(const(e), ra(atom("log", const(a.args[0]), real=True, scalar=True))))
            else:
                out = add(out, mul(const(e), ra(atom("log", ra(a), real=a.real, scalar=a.scalar))))
        return out
    c, mono, prim = content(r)
    if c < 0:
        prim = neg(prim)
        c = -c
    if c == 1 and not mono:
        fs = _factor(prim) if all(e.denominator == 1 for m, cc in prim.terms for a, e in m) else [(prim, 1)]
        sgn = prim
        tot = ONE
        for q, k in fs:
            tot = mul(tot, rpow(q, k))
        if len(fs) == 1 and fs[0][1] == 1 or tot is not prim:
            return ra(atom("log", prim, real=prim.real, scalar=prim.scalar))
        out = ZERO
        for q, k in fs:
            out = add(out, mul(const(k), ra(atom("log", q, real=q.real, scalar=q.scalar))))
        return out
    out = log(mkR({mono: c})) if (mono or c != 1) else ZERO
    return add(out, log(prim))


def sqrt(r):
    return rpow(r, Fraction(1, 2))


# maps: apply a ring homomorphism given on atoms

def hom(r, f):
    """Apply to each atom the map f(atom)->R and rebuild (f must be multiplicative on powers)."""
    out = ZERO
    for m, c in r.terms:
        t = const(c)
        for a, e in m:
            x = f(a)
            t = mul(t, rpow(x, e))
        out = add(out, t)
    return out


@functools.lru_cache(maxsize=None)
def conj(r):
    if r.real:
        return r

    def f(a):
        if a.real:
            return ra(a)
        if a.op == "I":
            return neg(I)
        if a.op == "conj":
            return a.args[0]
        if a.op == "E":
            return exp(conj(mkR({a.args[0]: F1})))
        if a.op == "P":
            return conj(a.args[0])
        if a.op == "mm":
            return matmul(*[conj(x) for x in a.args[0]])
        if a.op == "Sum":
            v, lo, hi, body = a.args
            return Sum(v, lo, hi, conj(body))
        if a.op == "Prod":
            v, lo, hi, body = a.args
            return Prod(v, lo, hi, conj(body))
        if a.op == "pow" and a.args[1].isint:
            return rpow(conj(a.args[0]), a.args[1])
        if a.op == "cplx":
            return ra(a)
        return ra(atom("conj", ra(a), real=False, scalar=a.scalar, size=a.size))
    return hom(r, f)


def _split_real(m):
    """split monomial into real factor and rest"""
    re = tuple((a, e) for a, e in m if a.real)
    im = tuple((a, e) for a, e in m if not a.real)
    return re, im


@functools.lru_cache(maxsize=None)
def real(r):
    if r.real:
        return r
    out = ZERO
    for m, c in r.terms:
        re, im = _split_real(m)
        k = mkR({re: c})
        if not im:
            out = add(out, k)
            continue
        if im == ((IU, F1),):
            continue
        body = mkR({im: F1})
        # factor out I
        d = dict(im)
        if d.get(IU) == 1:
            d.pop(IU)
            b2 = mkR({tuple(sorted(d.items(), key=lambda t: t[0].uid)): F1})
            out = add(out, neg(mul(k, imag(b2))))
            continue
        out = add(out, mul(k, _reatom(body)))
    return out


def _reatom(body):
    # Re(x) with x and conj(x) identified
    cb = conj(body)
    if cb.uid < body.uid and not cb.opaque:
        if len(cb.terms) > 1:
            return real(cb)
        m, c = next(iter(cb.terms))
        re, im = _split_real(m)
        if re or c != 1:
            return mul(mkR({re: c}), _reatom(mkR({im: F1})))
        body = cb
    return ra(atom("real", body, real=True, scalar=body.scalar))


@functools.lru_cache(maxsize=None)
def imag(r):
    if r.real:
        return ZERO
    out = ZERO
    for m, c in r.terms:
        re, im = _split_real(m)
        k = mkR({re: c})
        if not im:
            continue
        if im == ((IU, F1),):
            out = add(out, k)
            continue
        d = dict(im)
        if d.get(IU) == 1:
            d.pop(IU)
            b2 = mkR({tuple(sorted(d.items(), key=lambda t: t[0].uid)): F1})
            out = add(out, mul(k, real(b2)))
            continue
        body = mkR({im: F1})
        sgn = 1
        cb = conj(body)
        if cb.uid < body.uid:
            body, sgn = cb, -1
        t = ra(atom("imag", body, real=True, scalar=body.scalar))
        out = add(out, mul(k, mul(const(sgn), t)))
    return out


@functools.lru_cache(maxsize=None)
def rabs(r):
    c = r.const()
    if c is not None:
        return const(abs(c))
    if r_nonneg(r):
        return r
    if r.real and len(r.terms) > 1:
        sg = sign_of(r) if r.isint else None
        for h in SIGNHOOK:
            sg = sg or h(r)
        if sg in ("+", "+0", "0"):
            return r
        if sg in ("-", "-0"):
            return neg(r)
    if len(r.terms) == 1:
        m, c = r.terms[0]
        out = const(abs(c))
        for a, e in m:
            if a.nonneg or a.op in ("E", "pi", "C") and a.real:
                out = mul(out, ra(a, e))
            elif a.op == "I":
                continue
            elif a.op == "abs":
                out = mul(out, ra(a, e))
            elif a.op == "P" and e.denominator == 1:
                out = mul(out, rpow(rabs(a.args[0]), e))
            else:
                out = mul(out, rpow(ra(atom("abs", ra(a), real=True, scalar=a.scalar, nonneg=True)), e))
        return out
    c, mono, prim = content(r)
    if c != 1 or mono:
        return mul(rabs(mkR({mono: c})), rabs(prim))
    npm = neg(prim)
    base = prim if prim.uid < npm.uid else npm
    cb = conj(base)
    if not base.real:
        cands = sorted([prim, npm, conj(prim), conj(npm)], key=lambda x: x.uid)
        base = cands[0]
    return ra(atom("abs", base, real=True, scalar=base.scalar, nonneg=True))


def fn1(name, r):
    """pointwise real-analytic function"""
    if name == "exp":
        return exp(r)
    if name == "log":
        return log(r)
    if name == "sqrt":
        return sqrt(r)
    if name == "log10":
        return div(log(r), log(const(10)))
    if name == "log2":
        return div(log(r), log(const(2)))
    if name == "log1p":
        return log(add(ONE, r))
    if name == "expm1":
        return add(exp(r), const(-1))
    if name == "abs":
        return rabs(r)
    if name == "conj":
        return conj(r)
    if name == "real":
        return real(r)
    if name == "imag":
        return imag(r)
    if name == "square":
        return mul(r, r)
    return ra(atom(name, r, real=r.real, scalar=r.scalar))


# --------------------------------------------------------------------------
# arrays

def size_of(r):
    """Symbolic number of elements of a one-dimensional array value, or None."""
    for m, c in r.terms:
        for a, e in m:
            if a.scalar:
                continue
            s = atom_size(a)
            if s is not None:
                return s
    return None


def atom_size(a):
    if a.size is not None:
        return a.size
    if a.op in POINTWISE:
        return size_of(a.args[0])
    if a.op == "E":
        return size_of(mkR({a.args[0]: F1}))
    if a.op == "P":
        return size_of(a.args[0])
    if a.op == "pow":
        return size_of(a.args[0]) or size_of(a.args[1])
    return None


def n_elem(r):
    s = size_of(r)
    if s is not None:
        return s
    return ra(atom("n", r, real=True, scalar=True, isint=True, nonneg=True))


# an index is an R or ':' or a tuple of those


@functools.lru_cache(maxsize=None)
def sel(r, idx):
    """element access, pushed through elementwise structure."""
    def f(a):
        if a.scalar:
            return ra(a)
        return sel_atom(a, idx)
    return hom(r, f)


def zero_test(r):
    c = r.const()
    if c is None:
        return None
    return c == 0


def idx_same(i, j):
    """True / False / None (unknown)"""
    if isinstance(i, tuple) != isinstance(j, tuple):
        return None
    if isinstance(i, tuple):
        if len(i) != len(j):
            return None
        res = True
        for x, y in zip(i, j):
            t = idx_same(x, y)
            if t is False:
                return False
            if t is None:
                res = None
        return res
    if isinstance(i, str) or isinstance(j, str):
        return True if i == j else None
    d = i - j
    c = d.const()
    if c is None:
        s = sign_of(d)
        if s in ("+", "-"):
            return False
        return None
    return c == 0


def sel_atom(a, idx):
    if a.op in POINTWISE:
        return fn1(a.op, sel(a.args[0], idx))
    if a.op == "E":
        return exp(sel(mkR({a.args[0]: F1}), idx))
    if a.op == "P":
        return sel(a.args[0], idx)
    if a.op == "pow":
        return rpow(sel(a.args[0], idx), sel(a.args[1], idx))
    if a.op == "fill":           # constant array
        return a.args[0]
    if a.op == "store":
        base, j, v = a.args
        if isinstance(j, tuple) and len(j) == 2 and isinstance(j[1], str) and isinstance(idx, R) and a.size is not None:
            idx = (idx, ":")                      # element of a vector of vectors
        if isinstance(j, tuple) and isinstance(idx, tuple) and len(j) == len(idx) and any(x == ":" for x in j):
            rest = tuple(y for x, y in zip(j, idx) if isinstance(x, str))
            t = idx_same(tuple(x for x in j if not isinstance(x, str)), tuple(y for x, y in zip(j, idx) if not isinstance(x, str)))
            if t is True:
                if all(isinstance(y, str) for y in rest) or v.scalar:
                    return v
                return sel(v, rest[0] if len(rest) == 1 else rest)
            if t is False:
                return sel(base, idx)
        else:
            t = idx_same(idx, j)
            if t is True:
                return v
            if t is False:
                return sel(base, idx)
    if a.op == "sel" and isinstance(a.args[1], tuple) and any(isinstance(x, str) for x in a.args[1]):
        fill_ = list(idx) if isinstance(idx, tuple) else [idx]
        free = [i for i, x in enumerate(a.args[1]) if isinstance(x, str)]
        if len(free) == len(fill_):
            full = list(a.args[1])
            for i, x in zip(free, fill_):
                full[i] = x
            return sel(a.args[0], tuple(full))
    if a.op == "ite":
        return ungate(gapply(lambda r: sel(r, idx), a.args[0]))
    if a.op == "concat" and not isinstance(idx, (tuple, str)):
        off = ZERO
        for x in a.args[0]:
            n = n_elem(x)
            if sign_of(off + n - idx) == "+":
                if sign_of(idx - off) in ("+", "0", "+0"):
                    return sel(x, idx - off)
                break
            if sign_of(idx - off - n) not in ("+", "0", "+0"):
                break
            off = off + n
    if a.op == "slice" and not isinstance(idx, tuple):
        base, lo, hi = a.args
        return sel(base, idx + lo)
    if a.op == "arr" and not isinstance(idx, tuple):
        v, n, body = a.args
        return subst(body, {v: idx})
    if a.op == "qupd":
        base, bnds, cond, j, v = a.args
        # solve j(binders) == idx, each binder occurring alone in one component
        js = j if isinstance(j, tuple) else (j,)
        ii = idx if isinstance(idx, tuple) else (idx,)
        if len(js) == len(ii) and cond is None and not any(isinstance(x, str) for x in ii):
            m = {}
            ok = True
            free = []
            for x, y in zip(js, ii):
                if isinstance(x, str):
                    free.append(y)
                    continue
                bs = [b for b, t in bnds if b in x.syms]
                if not bs:
                    t = idx_same(x, y)
                    if t is None:
                        ok = None
                    elif t is False:
                        return sel(base, idx)
                    continue
                if len(bs) > 1:
                    ok = None
                    break
                b = bs[0]
                c0 = subst(x, {b: ZERO})
                c1 = subst(x, {b: ONE}) - c0
                k = c1.const()
                if k is None or abs(k) != 1 or b in m or (x - c0 - c1 * ra(b)).terms:
                    if k is not None and k != 0 and b not in m and not (x - c0 - c1 * ra(b)).terms:
                        q = (y - c0) / const(k)
                        qc = q.const()
                        if q.isint:
                            m[b] = q
                            continue
                        if not q.isint and _nonint_const(q):
                            return sel(base, idx)
                    ok = None
                    break
                m[b] = (y - c0) / const(k)
            if ok and len(m) == len(bnds):
                inr = True
                for b, t in bnds:
                    tt = subst(t, m)
                    q = m[b]
                    lo = sign_of(q)
                    up = sign_of(tt - q)
                    if lo == "-" or up in ("-", "0", "-0"):
                        return sel(base, idx)
                    if lo not in ("+", "0", "+0") or up != "+":
                        inr = False
                if inr:
                    val = subst(v, m)
                    if free and not val.scalar:
                        val = sel(val, free[0] if len(free) == 1 else tuple(free))
                    return val
    if a.op == "col" and not isinstance(idx, tuple):
        return sel(a.args[0], (idx, a.args[1]))
    if a.op == "row" and not isinstance(idx, tuple):
        return sel(a.args[0], (a.args[1], idx))
    if a.op == "T" and isinstance(idx, tuple) and len(idx) == 2:
        return sel(a.args[0], (idx[1], idx[0]))
    if a.op == "T" and not isinstance(idx, tuple):
        return sel(a.args[0], idx)
    if a.op == "vstackc":        # explicit vector of known entries
        if not isinstance(idx, (tuple, str)):
            c = idx.const()
            if c is not None and c.denominator == 1 and -len(a.args[0]) <= c < len(a.args[0]):
                return a.args[0][int(c)]
    h = SELHOOK.get(a.op)
    if h is not None:
        r = h(a, idx)
        if r is not None:
            return r
    return ra(atom("sel", ra(a), idx, real=a.real, scalar=not (isinstance(idx, tuple) and any(isinstance(x, str) for x in idx) or isinstance(idx, str)), isint=a.isint, nonneg=a.nonneg))


SELHOOK = {}


def _nonint_const(q):
    """q is an integer expression plus a non-integer constant."""
    d = dict(q.terms)
    c = d.get((), F0)
    rest = q - const(c)
    return c.denominator != 1 and rest.isint


@functools.lru_cache(maxsize=None)
def slice_(r, lo, hi):
    """r[lo:hi] (hi exclusive)."""
    def f(a):
        if a.scalar:
            return ra(a)
        if a.op in POINTWISE:
            return fn1(a.op, slice_(a.args[0], lo, hi))
        if a.op == "E":
            return exp(slice_(mkR({a.args[0]: F1}), lo, hi))
        if a.op == "P":
            return slice_(a.args[0], lo, hi)
        if a.op == "pow":
            return rpow(slice_(a.args[0], lo, hi), slice_(a.args[1], lo, hi))
        n = atom_size(a)
        if n is not None and lo.const() == 0 and hi is n:
            return ra(a)
        if a.op == "slice":
            return slice_(a.args[0], a.args[1] + lo, a.args[1] + hi)
        return ra(atom("slice", ra(a), lo, hi, real=a.real, scalar=False, size=hi - lo, isint=a.isint, nonneg=a.nonneg))
    return hom(r, f)


def store(r, idx, v):
    n = size_of(r)
    if LEAN[0] is not None:
        v = let(v, LEAN[0])
    a = r.single()
    if a is not None and a.op == "store":
        base, j, w = a.args
        t = idx_same(idx, j)
        if t is True:
            return store(base, idx, v)
        if t is False and _idx_key(idx) < _idx_key(j):
            return store(store(base, idx, v), j, w)
    if not isinstance(idx, str) and sel(r, idx) is v:
        return r
    return ra(atom("store", r, idx, v, real=r.real and v.real, scalar=False, size=n, isint=r.isint and v.isint))


def _idx_key(i):
    if isinstance(i, tuple):
        return tuple(_idx_key(x) for x in i)
    if isinstance(i, str):
        return (-1,)
    return (i.uid,)


def fill(v, n):
    return ra(atom("fill", v, n, real=v.real, scalar=False, size=n, isint=v.isint))


def fill2(v, n, m):
    return ra(atom("fill", v, n, m, real=v.real, scalar=False))


def lift_pointwise(v, n, body):
    """[body(v) for v in range(n)] as an elementwise expression, or None."""
    ok = [True]

    @functools.lru_cache(maxsize=None)
    def g(r):
        def f(a):
            if v not in a.syms:
                return ra(a)
            if a.op == "sel" and not isinstance(a.args[1], (tuple, str)):
                base, i = a.args
                if v not in base.syms and i is ra(v):
                    s = size_of(base)
                    if s is not None and s is n:
                        return base
                if v not in base.syms:
                    off = i - ra(v)
                    if v not in off.syms:
                        return slice_(base, off, off + n)
            if a.op in POINTWISE:
                return fn1(a.op, g(a.args[0]))
            if a.op == "E":
                return exp(g(mkR({a.args[0]: F1})))
            if a.op == "P":
                return g(a.args[0])
            if a.op == "pow" and v not in a.args[1].syms:
                return rpow(g(a.args[0]), a.args[1])
            raise _NoLift()
        return hom(r, f)
    try:
        x = g(body)
    except _NoLift:
        return None
    if x.scalar:
        return None
    return x


class _NoLift(Exception):
    pass


def arr(v, n, body):
    """array comprehension, bound atom v"""
    if v not in body.syms:
        return fill(body, n)
    x = lift_pointwise(v, n, body)
    if x is not None:
        return x
    b = canon_binder(v, body)
    v2, body = b
    return ra(atom("arr", v2, n, body, real=body.real, scalar=False, size=n, isint=body.isint, binders=(v2,)))


# binders: bound variables are renamed to a canonical symbol chosen by nesting height

def binder_height(x, seen=None):
    if isinstance(x, R):
        return max([0] + [binder_height(a) for a in x.atoms()])
    if isinstance(x, G):
        return max([0] + [binder_height(l) for l in x.leaves()] + [binder_height(c) for c in x.conds()])
    if isinstance(x, tuple):
        return max([0] + [binder_height(y) for y in x])
    if isinstance(x, Atom):
        h = _bh.get(x)
        if h is None:
            h = 0
            for y in x.args:
                h = max(h, binder_height(y))
            if x.op in ("Sum", "Prod", "arr", "All", "Any", "first", "MinOver", "MaxOver", "lam", "qupd", "arr2"):
                h += 1
            _bh[x] = h
        return h
    return 0


_bh = {}


def bv(h, isint=True):
    return atom("bv", h, real=True, scalar=True, isint=isint)


def canon_binder(v, body):
    h = binder_height(body)
    v2 = bv(h)
    if v2 is v:
        return v, body
    while v2 in _syms(body):
        h += 1
        v2 = bv(h)
    return v2, subst(body, {v: ra(v2)})


def Sum(v, lo, hi, body):
    """sum_{v=lo}^{hi-1} body; nested independent sums are flattened and re-nested in a canonical order"""
    if not body.terms:
        return ZERO
    if lo.terms:
        body = subst(body, {v: ra(v) + lo})
        hi = hi - lo
        lo = ZERO
    out = ZERO
    for m, c in body.terms:
        inv = tuple((a, e) for a, e in m if v not in a.syms)
        dep = tuple((a, e) for a, e in m if v in a.syms)
        k = mkR({inv: c})
        if not dep:
            out = add(out, mul(k, hi))
            continue
        out = add(out, mul(k, _msum(((v, hi),), mkR({dep: F1}))))
    return out


_wfresh = itertools.count()


def _msum(bnds, body):
    """sum over all binders (independent ranges) of body"""
    out = ZERO
    bs = {b for b, h in bnds}
    for m, c in body.terms:
        opened = None
        if len(bnds) < 7:
            for a, e in m:
                if a.op == "Sum" and e in (1, 2) and a.syms & bs and not (a.args[2].syms & bs):
                    opened = (a, e)
                    break
        if opened is not None:
            a, e = opened
            full = mkR({tuple(x for x in m if x[0] is not a): c})
            nb = bnds
            w, _, hw, g = a.args
            for _ in range(int(e)):
                w2 = sym("w%d" % next(_wfresh), isint=True, nonneg=True).single()
                RANGES[w2] = (ZERO, hw - ONE)
                full = mul(full, subst(g, {w: ra(w2)}))
                nb = nb + ((w2, hw),)
            out = add(out, _msum(nb, full))
            continue
        # real and imaginary parts are taken of the whole sum
        part = [a for a, e in m if a.op in ("real", "imag") and e == 1 and a.syms & bs]
        if len(part) == 1 and all(a.real for a, e in m):
            a = part[0]
            s = _msum(bnds, mul(mkR({tuple(x for x in m if x[0] is not a): c}), a.args[0]))
            out = add(out, real(s) if a.op == "real" else imag(s))
            continue
        t = const(c)
        left = []
        for a, e in m:
            if a.syms & bs:
                left.append((a, e))
            else:
                t = mul(t, ra(a, e))
        for b, h in bnds:
            if not any(b in a.syms for a, e in left):
                t = mul(t, h)
        for cb, cf in _components(bnds, left):
            t = mul(t, _sumcomp(cb, cf))
        out = add(out, t)
    return out


def _components(bnds, factors):
    """connected components of factors under shared binders"""
    bs = {b for b, h in bnds}
    comps = []
    for f in factors:
        s = f[0].syms & bs
        hit = [c for c in comps if c[0] & s]
        new = (set(s), [f])
        for c in hit:
            new = (new[0] | c[0], c[1] + new[1])
            comps.remove(c)
        comps.append(new)
    return [(tuple((b, h) for b, h in bnds if b in s), tuple(sorted(fs, key=lambda x: x[0].uid))) for s, fs in comps]


def _sumcomp(bnds, factors):
    if len(bnds) == 1:
        return _rawsum(bnds[0][0], bnds[0][1], mkR({factors: F1}))
    sig = {}
    for b, h in bnds:
        mp = {x: (MARK1 if x is b else MARK0) for x, _ in bnds}
        sig[b] = (h.uid, tuple(sorted((subst(ra(a), mp).uid, e) for a, e in factors if b in a.syms)))
    groups = {}
    for b, h in bnds:
        groups.setdefault(sig[b], []).append((b, h))
    gl = [groups[k] for k in sorted(groups)]
    n = 1
    for g in gl:
        n *= math.factorial(len(g))
    if n > 120:
        perms = [[x for g in gl for x in g]]
    else:
        perms = [[x for g in pp for x in g] for pp in itertools.product(*[itertools.permutations(g) for g in gl])]
    best = None
    for p in perms:
        r = _nest(p, factors)
        if best is None or r.uid < best.uid:
            best = r
    return best


def _nest(order, factors):
    (b, h), rest = order[0], order[1:]
    rb = {x for x, _ in rest}
    outer = tuple(f for f in factors if not (f[0].syms & rb))
    inner = [f for f in factors if f[0].syms & rb]
    t = mkR({tuple(sorted(outer, key=lambda x: x[0].uid)): F1})
    for cb, cf in _components(rest, inner):
        t = mul(t, _nest(list(cb), cf))
    return _rawsum(b, h, t)


def _rawsum(v, hi, body):
    """one summation of a body that is already in canonical shape"""
    out = ZERO
    for m, c in body.terms:
        inv = tuple((a, e) for a, e in m if v not in a.syms)
        dep = tuple((a, e) for a, e in m if v in a.syms)
        k = mkR({inv: c})
        if not dep:
            out = add(out, mul(k, hi))
            continue
        v2, b2 = _rename_binder(v, mkR({dep: F1}))
        out = add(out, mul(k, ra(atom("Sum", v2, ZERO, hi, b2, real=b2.real and hi.real, scalar=b2.scalar, binders=(v2,), isint=b2.isint))))
    return out


def _rename_binder(v, body):
    h = binder_height(body)
    v2 = bv(h)
    while v2 is not v and v2 in _syms(body):
        h += 1
        v2 = bv(h)
    if v2 is v:
        return v, body
    _raw[0] += 1
    try:
        return v2, subst(body, {v: ra(v2)})
    finally:
        _raw[0] -= 1


_raw = [0]


def Prod(v, lo, hi, body):
    if lo.terms:
        body = subst(body, {v: ra(v) + lo})
        hi = hi - lo
        lo = ZERO
    c = body.const()
    if c == 1:
        return ONE
    v2, b2 = canon_binder(v, body)
    return ra(atom("Prod", v2, ZERO, hi, b2, real=b2.real, scalar=b2.scalar, binders=(v2,)))


# --------------------------------------------------------------------------
# matrices

def transpose(r):
    def f(a):
        if a.scalar:
            return ra(a)
        if a.op == "T":
            return a.args[0]
        if a.op == "mm":
            return matmul(*[transpose(x) for x in reversed(a.args[0])])
        if a.op in POINTWISE:
            return fn1(a.op, transpose(a.args[0]))
        if a.op == "E":
            return exp(transpose(mkR({a.args[0]: F1})))
        if a.op == "P":
            return transpose(a.args[0])
        if a.op == "pow":
            return rpow(transpose(a.args[0]), a.args[1])
        if a.op == "fill" and len(a.args) == 2:
            return ra(atom("T", ra(a), real=a.real, scalar=False, size=a.size))
        return ra(atom("T", ra(a), real=a.real, scalar=False, size=a.size))
    return hom(r, f)


def herm(r):
    return transpose(conj(r))


def matmul(*xs):
    """matrix product; distributes over sums and pulls scalar factors out."""
    if len(xs) == 1:
        return xs[0]
    flat = []
    coef = ONE

    # expand each factor into list of (scalarR, matrixmonomial or None)
    parts = [[(ONE, ())]]
    res = [(ONE, ())]
    for x in xs:
        if x.scalar:
            res = [(mul(k, x), w) for k, w in res]
            continue
        nres = []
        for m, c in x.terms:
            sc = tuple((a, e) for a, e in m if a.scalar)
            mt = tuple((a, e) for a, e in m if not a.scalar)
            k2 = mkR({sc: c})
            if not mt:
                # scalar added to matrix: keep the whole factor atomic
                nres = None
                break
            if len(mt) == 1 and mt[0][1] == 1 and mt[0][0].op == "mm":
                w2 = mt[0][0].args[0]
            else:
                w2 = (mkR({mt: F1}),)
            for k, w in res:
                nres.append((mul(k, k2), w + w2))
        if nres is None:
            P = ra(atom("whole", x, real=x.real, scalar=False))
            nres = [(k, w + (P,)) for k, w in res]
        res = nres
        if len(res) > 60:
            short = [let(x, 3) for x in xs]
            if any(x is not y for x, y in zip(short, xs)):
                return matmul(*short)
            if len(res) > 400:
                raise Opaque("matrix product too large")
    out = ZERO
    for k, w in res:
        if not w:
            out = add(out, k)
        elif len(w) == 1:
            out = add(out, mul(k, w[0]))
        else:
            out = add(out, mul(k, ra(atom("mm", tuple(w), real=all(x.real for x in w), scalar=False))))
    return out


def as_scalar(r):
    """1x1 value -> scalar"""
    def f(a):
        if a.scalar:
            return ra(a)
        if a.op == "mm":
            return ra(atom("scal", ra(a), real=a.real, scalar=True))
        if a.op in POINTWISE:
            return fn1(a.op, as_scalar(a.args[0]))
        return ra(atom("scal", ra(a), real=a.real, scalar=True))
    out = hom(r, f)

    # canonicalise scal(mm): x = x^T for 1x1
    def g(a):
        if a.op == "scal":
            t = transpose(a.args[0])
            if t.uid < a.args[0].uid and t.single() is not None:
                return ra(atom("scal", t, real=a.real, scalar=True))
        return ra(a)
    return hom(out, g)


# --------------------------------------------------------------------------
# substitution of sym/mu/bv atoms

def subst(x, m):
    """m: Atom -> R (or Atom -> G is not allowed here)."""
    ks = frozenset(m)
    return _subst(x, m, ks, {})


def _subst(x, m, ks, memo):
    if isinstance(x, R):
        if not (x.syms & ks):
            return x
        k = ("R", x.uid)
        if k not in memo:
            memo[k] = hom(x, lambda a: _subst_atom(a, m, ks, memo))
        return memo[k]
    if isinstance(x, Atom):
        return _subst_atom(x, m, ks, memo)
    if isinstance(x, G):
        if not (x.syms & ks):
            return x
        k = ("G", x.uid)
        if k not in memo:
            memo[k] = gmap_subst(x, m, ks, memo)
        return memo[k]
    if isinstance(x, tuple):
        return tuple(_subst(y, m, ks, memo) for y in x)
    return x


def _subst_atom(a, m, ks, memo):
    if a in m:
        v = m[a]
        return v if isinstance(v, R) else ra(v)
    if not (a.syms & ks):
        return ra(a)
    k = ("A", a.uid)
    if k not in memo:
        x = a
        if a.op in BINDOPS:
            bs = bound_of(a)
            if any(b in ks for b in bs) or any(b in tor(m[y]).syms for y in a.syms & ks for b in bs):
                x = freshen(a, bs)
        memo[k] = rebuild(x, [_subst_arg(x, i, y, m, ks, memo) for i, y in enumerate(x.args)])
    return memo[k]


BINDOPS = {"Sum", "Prod", "arr", "All", "Any", "first", "MinOver", "MaxOver", "lam", "qupd", "arr2"}


def bound_of(a):
    if a.op == "qupd":
        return [b for b, _ in a.args[1]]
    if a.op == "arr2":
        return list(a.args[:2])
    return [a.args[0]]


def freshen(a, bs):
    """the same binding atom with new names for its bound variables"""
    ren = {}
    for b in bs:
        w = sym("w%d" % next(_wfresh), isint=b.isint, nonneg=True).single()
        if b in RANGES:
            RANGES[w] = RANGES[b]
        ren[b] = w
    mp = {b: ra(w) for b, w in ren.items()}

    def go(y):
        if isinstance(y, Atom):
            return ren.get(y, y)
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        if isinstance(y, (R, G)):
            return subst(y, mp)
        return y
    return atom(a.op, *[go(y) for y in a.args], real=a.real, scalar=a.scalar, isint=a.isint, nonneg=a.nonneg, size=a.size, binders=tuple(ren.values()))


def _subst_arg(a, i, y, m, ks, memo):
    if a.op == "E" and i == 0:
        return _subst(mkR({y: F1}), m, ks, memo)
    # avoid capture: binders are chosen by height so inner heights are below free ones
    return _subst(y, m, ks, memo)


def rebuild(a, args):
    op = a.op
    if op == "E":
        return exp(args[0])
    if op == "P":
        return args[0]
    if op == "let":
        return let(args[0], 1)
    if op == "sel":
        return sel(args[0], args[1])
    if op == "slice":
        return slice_(args[0], args[1], args[2])
    if op == "store":
        return store(args[0], args[1], args[2])
    if op == "mm":
        return matmul(*args[0])
    if op == "T":
        return transpose(args[0])
    if op == "scal":
        return as_scalar(args[0])
    if op == "log":
        return log(args[0])
    if op == "abs":
        return rabs(args[0])
    if op == "real":
        return real(args[0])
    if op == "imag":
        return imag(args[0])
    if op == "conj":
        return conj(args[0])
    if op == "pow":
        return rpow(args[0], args[1])
    if op == "n":
        return n_elem(args[0])
    if op in ("Sum", "Prod"):
        v, lo, hi, body = a.args[0], args[1], args[2], args[3]
        if op == "Sum" and _raw[0]:
            return _rawsum(v, hi, body)
        return (Sum if op == "Sum" else Prod)(v, lo, hi, body)
    if op == "arr":
        return arr(a.args[0], args[1], args[2])
    if op == "fill" and len(args) == 2:
        return fill(args[0], args[1])
    if op == "fill" and len(args) == 3:
        return fill2(*args)
    if op == "ite":
        return ungate(args[0])
    if op == "concat":
        return concat(args[0])
    if op in REBUILD:
        return REBUILD[op](*args)
    if op in REBUILDB:
        return REBUILDB[op](*(x if isinstance(x, Atom) else y for x, y in zip(a.args, args)))
    if op == "idiv":
        return idiv(args[0], args[1])
    if op == "mod":
        return imod(args[0], args[1])
    if op in ("min", "max"):
        return minmax(op, args[0])
    if op == "first":
        return first(a.args[0], args[1], args[2])
    if op in ("MinOver", "MaxOver"):
        return ra(atom(op, a.args[0], *args[1:], real=True, scalar=True, isint=a.isint, binders=(a.args[0],), nonneg=a.nonneg))
    if op == "qupd":
        bnds = tuple((b, t) for (b, _), t in zip(a.args[1], [t for _, t in args[1]])) if False else tuple((b0, t1[1]) for (b0, _), t1 in zip(a.args[1], args[1]))
        return qupd(args[0], bnds, args[2], args[3], args[4])
    sz = a.size
    b = [y for y in a.args if isinstance(y, Atom) and y.op == "bv"]
    binders = tuple(y for y in b if y not in a.syms)
    na = tuple(a.args[i] if isinstance(a.args[i], Atom) and a.args[i] in binders else args[i] for i in range(len(args)))
    return ra(atom(op, *na, real=a.real, scalar=a.scalar, isint=a.isint, nonneg=a.nonneg, size=sz, binders=binders))


REBUILD = {}
REBUILDB = {}        # operators with bound atoms among their arguments


def ungate(g):
    """gated value -> value, with the choice kept as an 'ite' atom."""
    if not isinstance(g, G):
        return g
    if g.c is None:
        if isinstance(g.v, bool):
            return const(int(g.v))
        return g.v if isinstance(g.v, R) else tor(g.v)
    ls = [const(int(l)) if isinstance(l, bool) else l for l in g.leaves()]
    if not all(isinstance(l, R) for l in ls):
        raise Opaque("gated non-numeric value")
    sizes = {size_of(l) for l in ls if not l.scalar}
    return ra(atom("ite", g, real=all(l.real for l in ls), scalar=all(l.scalar for l in ls), isint=all(l.isint for l in ls),
                   nonneg=all(r_nonneg(l) for l in ls), size=sizes.pop() if len(sizes) == 1 else None))


def regate(x, depth=0):
    """lift 'ite' atoms to the top (those not under a binder)."""
    if isinstance(x, R):
        return _regate_r(x)
    if isinstance(x, G):
        memo = {}

        def go(g):
            if g.uid in memo:
                return memo[g.uid]
            if g.c is None:
                r = _regate_r(g.v) if isinstance(g.v, R) else (gapply_tuple(g.v) if isinstance(g.v, tuple) else g)
            else:
                r = gite(_regate_c(g.c), go(g.hi), go(g.lo))
            memo[g.uid] = r
            return r
        return go(x)
    return leaf(x)


def gapply_tuple(t):
    parts = [regate(y) if isinstance(y, (R, G)) else leaf(y) for y in t]
    return gapply(lambda *ys: tuple(ys), *parts)


def _has_ite(x):
    """ite atoms reachable without passing a binder"""
    out = []
    seen = set()

    def go(y, bound):
        if isinstance(y, R):
            if y.uid in seen:
                return
            seen.add(y.uid)
            for a in y.atoms():
                go(a, bound)
        elif isinstance(y, Atom):
            if ("a", y.uid) in seen:
                return
            seen.add(("a", y.uid))
            if y.op == "ite":
                out.append(y)
                return
            if y.op in ("Sum", "Prod", "arr", "All", "Any", "first", "qupd", "MinOver", "MaxOver", "lam", "arr2"):
                return
            for z in y.args:
                go(z, bound)
        elif isinstance(y, tuple):
            for z in y:
                go(z, bound)
    go(x, False)
    return out


@functools.lru_cache(maxsize=None)
def _regate_r(r):
    its = _has_ite(r)
    if not its:
        return leaf(r)
    a = its[0]

    def f(v):
        return _regate_r(replace_atom(r, a, v))
    return gapply(lambda v: f(v), regate(a.args[0]))


def _regate_c(c):
    its = []
    if c.op in ("lt0", "eq0", "isfinite", "isnan"):
        its = _has_ite(c.args[0])
    if not its:
        return gnode(c, TRUE, FALSE)
    g = _regate_r(c.args[0])
    if c.op == "lt0":
        return gapply(lambda v: lt(v, ZERO), g)
    if c.op == "eq0":
        return gapply(lambda v: eq(v, ZERO), g)
    if c.op == "isnan":
        return gapply(lambda v: isnan(v), g)
    return gapply(lambda v: isfinite(v), g)


def replace_atom(x, old, new):
    """replace every occurrence of an atom (anywhere outside binders of its variables)."""
    memo = {}

    def go(y):
        if isinstance(y, R):
            k = ("R", y.uid)
            if k not in memo:
                memo[k] = hom(y, goa)
            return memo[k]
        if isinstance(y, Atom):
            return goa(y)
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        return y

    def goa(a):
        if a is old:
            return new
        k = ("A", a.uid)
        if k not in memo:
            if not contains_atom(a, old):
                memo[k] = ra(a)
            else:
                memo[k] = rebuild(a, [go(mkR({z: F1})) if a.op == "E" else go(z) for z in a.args])
        return memo[k]
    return go(x)


@functools.lru_cache(maxsize=None)
def contains_atom(x, old):
    if x is old:
        return True
    if isinstance(x, R):
        return any(contains_atom(a, old) for a in x.atoms())
    if isinstance(x, Atom):
        return any(contains_atom(y, old) for y in x.args if isinstance(y, (R, Atom, tuple)))
    if isinstance(x, tuple):
        return any(contains_atom(y, old) for y in x if isinstance(y, (R, Atom, tuple)))
    return False


def concat(parts):
    flat = []
    for x in parts:
        a = x.single()
        if a is not None and a.op == "concat":
            flat.extend(a.args[0])
        else:
            n = size_of(x)
            if n is not None and not n.terms:
                continue
            flat.append(x)
    if len(flat) == 1:
        return flat[0]
    # consecutive slices of one array merge
    out = [flat[0]] if flat else []
    for x in flat[1:]:
        p = out[-1].single()
        q = x.single()
        if p is not None and q is not None and p.op == "slice" and q.op == "slice" and p.args[0] is q.args[0] and p.args[2] is q.args[1]:
            out[-1] = slice_(p.args[0], p.args[1], q.args[2])
            continue
        out.append(x)
    if len(out) == 1:
        return out[0]
    n = ZERO
    for x in out:
        n = n + n_elem(x)
    return ra(atom("concat", tuple(out), real=all(x.real for x in out), scalar=False, size=n, isint=all(x.isint for x in out)))


def first(v, bound, body):
    """least v in [0, bound) with body(v), else bound (bound may be INF)."""
    if body is FALSE:
        return bound
    if body is TRUE:
        return minmax("min", (ZERO, bound)) if bound.const() is not None else ZERO
    h = binder_height(body)
    v2 = bv(h)
    while v2 is not v and v2 in body.syms:
        h += 1
        v2 = bv(h)
    if v2 is not v:
        body = subst(body, {v: ra(v2)})
    return ra(atom("first", v2, bound, body, real=True, scalar=True, isint=True, nonneg=True, binders=(v2,)))


def isnan(r):
    if r.const() is not None:
        return FALSE
    a = r.single()
    while a is not None and a.op == "let":
        r = a.args[0]
        a = r.single()
    c, mono, prim = content(r)
    return cond("isnan", mkR({mono: F1}) * prim)


def qupd(base, bnds, cond, idx, val):
    """base with base[idx(b)] = val(b) for every binding b of the binders (quantified update)."""
    n = size_of(base)
    if cond is None and len(bnds) == 1 and not isinstance(idx, tuple):
        b, t = bnds[0]
        if idx is ra(b) and n is not None and t is n:
            return arr(b, n, val)
    # canonical binder names
    h = max(binder_height(idx), binder_height(val), binder_height(cond) if cond is not None else 0)
    m = {}
    out = []
    for i, (b, t) in enumerate(bnds):
        v2 = bv(1000 + h * 10 + i)
        if v2 is not b:
            m[b] = ra(v2)
        out.append((v2, subst(t, m) if m else t))
    if m:
        idx, val = subst(idx, m), subst(val, m)
        cond = subst(cond, m) if cond is not None else None
    return ra(atom("qupd", base, tuple(out), cond, idx, val, real=base.real and val.real, scalar=False, size=n, binders=tuple(b for b, t in out)))


def idiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0 and ca.denominator == 1 and cb.denominator == 1:
        q = abs(int(ca)) // abs(int(cb))
        return const(q if (ca >= 0) == (cb > 0) else -q)
    if cb is not None and cb != 0:
        q = div(a, b)
        if q.isint:
            return q
        # pull integer multiples out: (2x + r)/2 with r constant in [0,2)
        out, rest = ZERO, ZERO
        for m, c in a.terms:
            t = mkR({m: c})
            if m and (c / cb).denominator == 1 and all(x.isint for x, e in m):
                out = add(out, mkR({m: c / cb}))
            else:
                rest = add(rest, t)
        if out.terms and (rest.const() is not None or True) and sign_of(out) in ("+", "0", "+0") and (rest.const() is None or rest.const() >= 0):
            if rest.const() is not None:
                return add(out, idiv(rest, b))
    return ra(atom("idiv", a, b, real=True, scalar=True, isint=True, nonneg=r_nonneg(a) and r_nonneg(b)))


def imod(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return const(math.fmod(int(ca), int(cb)).__int__())
    return ra(atom("mod", a, b, real=True, scalar=True, isint=True, nonneg=r_nonneg(a)))


def minmax(op, xs):
    flat = []
    for x in xs:
        a = x.single()
        if a is not None and a.op == op:
            flat.extend(a.args[0])
        else:
            flat.append(x)
    # constants
    cs = [x.const() for x in flat if x.const() is not None]
    rest = [x for x in flat if x.const() is None]
    if op == "min" and INF in rest and len(flat) > 1:
        rest = [x for x in rest if x is not INF]
    u = []
    for x in sorted(set(rest), key=lambda r: r.uid):
        u.append(x)
    if cs:
        u.append(const(min(cs) if op == "min" else max(cs)))
    if len(u) == 1:
        return u[0]
    return ra(atom(op, tuple(u), real=True, scalar=all(x.scalar for x in u), isint=all(x.isint for x in u)))


# --------------------------------------------------------------------------
# sign of integer index expressions, using known ranges of bound symbols

POSITIVE = set()   # atoms assumed (elementwise) positive
RANGES = {}     # Atom -> (lo R, hi R) with lo <= atom <= hi   (inclusive)


def sign_of(r, depth=0):
    """'+', '-', '0', '+0' (>=0), '-0' (<=0) or None."""
    c = r.const()
    if c is not None:
        return "0" if c == 0 else ("+" if c > 0 else "-")
    lo = lower(r, depth)
    if lo is not None:
        if lo > 0:
            return "+"
        if lo == 0:
            return "+0"
    up = lower(neg(r), depth)
    if up is not None:
        if up > 0:
            return "-"
        if up == 0:
            return "-0"
    return None


def lower(r, depth=0):
    """a constant lower bound of r, or None."""
    c = r.const()
    if c is not None:
        return c
    if depth > 6:
        return None
    # eliminate one ranged symbol occurring linearly
    for m, c in r.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in RANGES:
            a = m[0][0]
            if any(a in {x for x, e in mm} or any(a in x.syms for x, e in mm) for mm, cc in r.terms if mm is not m):
                continue
            lo, hi = RANGES[a]
            b = lo if c > 0 else hi
            if b is None:
                continue
            v = lower(subst(r, {a: b}), depth + 1)
            if v is not None:
                return v
    for m, c in r.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("max", "min", "first"):
            a = m[0][0]
            cands = []
            if a.op == "first":
                cands = [a.args[1]] if c < 0 else [ZERO]
            elif (a.op == "max") == (c > 0):
                cands = list(a.args[0])
            best = None
            for b in cands:
                if contains_inf(b):
                    continue
                v = lower(r - mkR({m: c}) + const(c) * b, depth + 1)
                if v is not None and (best is None or v > best):
                    best = v
            if best is not None:
                return best
            if a.op in ("max", "min") and (a.op == "max") != (c > 0):
                vs = [lower(r - mkR({m: c}) + const(c) * b, depth + 1) for b in a.args[0]]
                if all(v is not None for v in vs):
                    return min(vs)
    tot = F0
    for m, c in r.terms:
        if m == ():
            tot += c
            continue
        if c > 0 and all(a.nonneg for a, e in m):
            lb = F0
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in LOWER:
                lb = LOWER[m[0][0]]
            tot += c * lb
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in LOWER and c > 0:
            tot += c * LOWER[m[0][0]]
            continue
        return None
    return tot


def contains_inf(r):
    return any(a.op == "inf" for a in r.atoms())


LOWER = {}   # Atom -> constant lower bound (sizes of user inputs)


# --------------------------------------------------------------------------
# gated values

_gs = {}
_g_list = []


class G:
    __slots__ = ("c", "hi", "lo", "v", "uid", "syms", "opaque")

    def isleaf(s):
        return s.c is None

    def leaves(s):
        if s.c is None:
            return [s.v]
        out, seen, st = [], set(), [s]
        while st:
            g = st.pop()
            if g.uid in seen:
                continue
            seen.add(g.uid)
            if g.c is None:
                out.append(g.v)
            else:
                st += [g.hi, g.lo]
        return out

    def conds(s):
        out, seen, st = [], set(), [s]
        while st:
            g = st.pop()
            if g.uid in seen:
                continue
            seen.add(g.uid)
            if g.c is not None:
                out.append(g.c)
                st += [g.hi, g.lo]
        return list(dict.fromkeys(out))

    def __repr__(s):
        return show_g(s)


def leaf(v):
    k = ("L", _key(v), type(v).__name__)
    g = _gs.get(k)
    if g is None:
        g = G()
        g.c = g.hi = g.lo = None
        g.v = v
        g.uid = len(_g_list)
        g.syms = _syms(v)
        g.opaque = _opq(v)
        _gs[k] = g
        _g_list.append(g)
    return g


def gnode(c, hi, lo):
    if hi is lo:
        return hi
    k = ("N", c.uid, hi.uid, lo.uid)
    g = _gs.get(k)
    if g is None:
        g = _case_merge(c, hi, lo)
        if g is not None:
            _gs[k] = g
            return g
        g = G()
        g.c, g.hi, g.lo, g.v = c, hi, lo, None
        g.uid = len(_g_list)
        g.syms = c.syms | hi.syms | lo.syms
        g.opaque = c.opaque or hi.opaque or lo.opaque
        _gs[k] = g
        _g_list.append(g)
    return g


def _case_merge(c, hi, lo):
    """a case distinction on an integer that gives the general value in the special cases"""
    if c.op not in ("eq0", "lt0") or not isinstance(c.args[0], R):
        return None
    r = c.args[0]
    if not r.isint or len(r.terms) > 4:
        return None
    if not all(isinstance(l, R) for l in hi.leaves()) or not all(isinstance(l, R) for l in lo.leaves()):
        return None
    for m, k in r.terms:
        if len(m) != 1 or m[0][1] != 1 or abs(k) != 1:
            continue
        b = m[0][0]
        if b.op not in ("sym", "bv") or not b.isint:
            continue
        rest = mkR({mm: cc for mm, cc in r.terms if mm is not m})
        if b in rest.syms:
            continue
        val = rest if k < 0 else neg(rest)
        if c.op == "eq0":
            if b not in lo.syms:
                if b in hi.syms and subst(hi, {b: val}) is lo:
                    return lo
                continue
            if subst(lo, {b: val}) is subst(hi, {b: val}):
                return lo
            continue
        v = val.const()
        if v is None or not (b.nonneg or b.op == "bv"):
            continue
        # b < v (k > 0) or b > v (k < 0)
        n = v if k > 0 else v + 1
        small, big = (hi, lo) if k > 0 else (lo, hi)
        if n != int(n) or not 0 < n <= 4 or b not in big.syms:
            continue
        if all(subst(small, {b: const(j)}) is subst(big, {b: const(j)}) for j in range(int(n))):
            return big
    return None


TRUE, FALSE = leaf(True), leaf(False)


def tog(x):
    return x if isinstance(x, G) else leaf(x)


def _implied(c, known):
    """truth of atomic condition c given known: dict cond->bool, or None"""
    if c in known:
        return known[c]
    if c.op in ("lt0", "eq0"):
        d = c.args[0]
        for k, t in known.items():
            if k.op not in ("lt0", "eq0"):
                continue
            d2 = k.args[0]
            s = d - d2
            cs = s.const()
            if cs is not None:
                # d = d2 + cs
                if k.op == "lt0" and t:
                    if c.op == "lt0" and cs <= 0:
                        return True
                    if c.op == "eq0" and cs <= 0:
                        return False
                    if d.isint and d2.isint:
                        if c.op == "lt0" and cs <= 0:
                            return True
                elif k.op == "lt0" and not t:      # d2 >= 0
                    if c.op == "lt0" and cs >= 0:
                        return False
                    if c.op == "eq0" and cs > 0:
                        return False
                elif k.op == "eq0" and t:          # d2 == 0
                    if c.op == "lt0":
                        return cs < 0
                    return cs == 0
                elif k.op == "eq0" and not t:
                    if c.op == "eq0" and cs == 0:
                        return False
            s = d + d2
            cs = s.const()
            if cs is not None:
                # d = cs - d2
                if k.op == "lt0" and t:            # d2 < 0 -> d > cs
                    if c.op == "lt0":
                        if cs >= 0:
                            return False
                        if d.isint and d2.isint and cs >= -1:
                            return False
                    if c.op == "eq0" and cs >= 0:
                        return False
                elif k.op == "lt0" and not t:      # d2 >= 0 -> d <= cs
                    if c.op == "lt0" and cs < 0:
                        return True
                    if c.op == "eq0" and cs < 0:
                        return False
                elif k.op == "eq0" and t:
                    if c.op == "lt0":
                        return cs < 0
                    return cs == 0
                elif k.op == "eq0" and not t:
                    if c.op == "eq0" and cs == 0:
                        return False
        # lt0 known false and its mirror known false => eq
        if c.op == "eq0":
            nd = neg(d)
            f1 = any(k.op == "lt0" and k.args[0] is d and t is False for k, t in known.items())
            f2 = any(k.op == "lt0" and k.args[0] is nd and t is False for k, t in known.items())
            if f1 and f2:
                return True
    return None


def prune(g, known=None):
    """remove tests implied by the tests above them."""
    if known is None:
        known = {}
    if g.c is None:
        return g
    t = _implied(g.c, known)
    if t is True:
        return prune(g.hi, known)
    if t is False:
        return prune(g.lo, known)
    k1 = dict(known)
    k1[g.c] = True
    hi = prune(g.hi, k1)
    k1[g.c] = False
    lo = prune(g.lo, k1)
    return gnode(g.c, hi, lo)


_ite_cache = {}


def gite(c, a, b):
    """if c then a else b, all gated."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.uid, a.uid, b.uid)
    r = _ite_cache.get(k)
    if r is None:
        r = _gite(c, a, b)
        r = _minmax_pat(r)
        _ite_cache[k] = r
    return r


def _minmax_pat(g):
    if g.c is not None and g.c.op == "lt0" and g.hi.c is None and g.lo.c is None and isinstance(g.hi.v, R) and isinstance(g.lo.v, R):
        d = g.c.args[0]
        x, y = g.hi.v, g.lo.v
        if x.const() is None or y.const() is None:
            dd = x - y
            if dd.isint or not dd.terms or not x.real or not y.real:
                return g
            if norm_cmp(dd) is d:
                return leaf(minmax("min", (x, y)))
            if norm_cmp(neg(dd)) is d:
                return leaf(minmax("max", (x, y)))
    return g


def _gite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.uid, a.uid, b.uid, 1)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    tops = [g.c for g in (c, a, b) if g.c is not None]
    t = min(tops, key=lambda x: x.uid)

    def br(g, side):
        if g.c is t:
            return g.hi if side else g.lo
        return g
    r = gnode(t, _gite(br(c, 1), br(a, 1), br(b, 1)), _gite(br(c, 0), br(a, 0), br(b, 0)))
    if len(_g_list) > 3000000:
        raise Opaque("decision diagram too large")
    _ite_cache[k] = r
    return r


def gapply(f, *gs):
    """apply f leafwise"""
    gs = [tog(g) for g in gs]
    memo = {}

    def go(xs):
        k = tuple(x.uid for x in xs)
        if k in memo:
            return memo[k]
        tops = [g.c for g in xs if g.c is not None]
        if not tops:
            r = tog(f(*[x.v for x in xs]))
        else:
            t = min(tops, key=lambda x: x.uid)
            h = go([x.hi if x.c is t else x for x in xs])
            l = go([x.lo if x.c is t else x for x in xs])
            # f may have introduced conditions above t
            r = gite(gnode(t, TRUE, FALSE), h, l)
        memo[k] = r
        return r
    return go(list(gs))


def gnot(a):
    return gapply(lambda x: not x, a) if a.c is not None or isinstance(a.v, bool) else gnot(truth(a))


def gand(a, b):
    return gite(a, b, FALSE)


def gor(a, b):
    return gite(a, TRUE, b)


def condatom(op, *args):
    return atom(op, *args, real=True, scalar=True)


def cond(op, *args):
    return gnode(condatom(op, *args), TRUE, FALSE)


def norm_cmp(d):
    """scale a difference by a positive factor to a canonical representative."""
    if not d.terms:
        return d
    # positive common monomial factors (exp, pi, sizes) are removed
    c, mono, prim = content(d)
    keep = []
    for a, e in mono:
        if a.op in ("E", "pi", "C") or (a.op == "P" and e.denominator != 1):
            continue
        keep.append((a, e))
    isint = d.isint
    r = mkR({tuple(keep): F1})
    r = mul(r, prim)
    s = 1 if c > 0 else -1
    if isint:
        # keep integer scaling minimal
        den = 1
        num = 0
        for m, cc in r.terms:
            den = den * cc.denominator // math.gcd(den, cc.denominator)
        for m, cc in r.terms:
            num = math.gcd(num, int(cc * den))
        r = mul(r, Fraction(den, max(num, 1)) * ONE if False else const(Fraction(den, max(num, 1))))
    return r if s > 0 else neg(r)


SIGNHOOK = []        # functions giving the sign of a difference from declared assumptions


def lt(a, b):
    """a < b (leaf R values) -> gated bool"""
    d = a - b
    c = d.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    for x, y in ((a, b),):
        pass
    if d.isint:
        s = sign_of(d)
        if s == "-":
            return TRUE
        if s in ("+", "0", "+0"):
            return FALSE
    else:
        # comparing through exp: log x < y  <=> x < exp(y)
        r = _cmp_exp(a, b)
        if r is not None:
            a, b = r
            d = a - b
        # u < min(x, 1) for a standard uniform draw u  <=> u < x
        ua, ub = a.single(), b.single()
        if ua is not None and ub is not None and ua.op == "draw" and ua.args[0] == "uniform" and ub.op == "min":
            hi = ua.args[1][1] if len(ua.args[1]) > 1 else None
            xs = [x for x in ub.args[0] if not (hi is not None and x is hi)]
            if len(xs) < len(ub.args[0]):
                bb = xs[0] if len(xs) == 1 else minmax("min", tuple(xs))
                return lt(a, bb)
        for h in SIGNHOOK:
            s = h(d)
            if s == "-":
                return TRUE
            if s in ("+", "0", "+0"):
                return FALSE
    d = norm_cmp(d)
    if not d.terms:
        return FALSE
    c = d.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if d.opaque:
        return cond("lt0", d)
    return cond("lt0", d)


def _cmp_exp(a, b):
    d = a - b
    logs = [(m, c) for m, c in d.terms if len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1 and m[0][0].args[0].single() is not None and m[0][0].args[0].single().op == "draw"]
    if len(logs) == 1:
        m, c = logs[0]
        x = m[0][0].args[0]
        rest = (d - mkR({m: c})) / const(-c)       # c*log x + .. < 0
        if c > 0:
            return x, exp(rest)
        return exp(rest), x
    return None


def le(a, b):
    d = a - b
    if d.isint:
        return lt(a, b + ONE)
    return gnot(lt(b, a))


def eq(a, b):
    if not isinstance(a, R) or not isinstance(b, R):
        if isinstance(a, bool) and isinstance(b, R):
            a = const(int(a))
        elif isinstance(b, bool) and isinstance(a, R):
            b = const(int(b))
        else:
            if type(a) is type(b) and not isinstance(a, (Atom, G)):
                return TRUE if a == b else FALSE
            if a is None or b is None:
                return TRUE if a is b else FALSE
            raise Opaque("comparison of %r and %r" % (a, b))
    d = a - b
    c = d.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if d.isint:
        s = sign_of(d)
        if s in ("+", "-"):
            return FALSE
        if _nonint_const(d):
            return FALSE
    for h in SIGNHOOK:
        s = h(d)
        if s in ("+", "-"):
            return FALSE
        if s == "0":
            return TRUE
    d1, d2 = norm_cmp(d), norm_cmp(neg(d))
    return cond("eq0", d1 if d1.uid < d2.uid else d2)


def truth(g):
    """value used as a condition"""
    def f(v):
        if isinstance(v, bool):
            return leaf(v)
        if v is None:
            return FALSE
        if isinstance(v, R):
            return gnot(eq(v, ZERO))
        if isinstance(v, (str, tuple)):
            return leaf(bool(v))
        return cond("truth", v) if isinstance(v, Atom) else TRUE
    return gapply(f, g)


def gmap_subst(g, m, ks, memo):
    if g.c is None:
        return leaf(_subst(g.v, m, ks, memo))
    c = subst_cond(g.c, m, ks, memo)
    return gite(c, _subst(g.hi, m, ks, memo), _subst(g.lo, m, ks, memo))


def subst_cond(c, m, ks, memo):
    if c in m:
        v = m[c]
        return v if isinstance(v, G) else truth(leaf(v))
    if not (c.syms & ks):
        return gnode(c, TRUE, FALSE)
    args = [_subst(y, m, ks, memo) for y in c.args]
    if c.op == "lt0":
        return lt(args[0], ZERO)
    if c.op == "eq0":
        return eq(args[0], ZERO)
    if c.op == "isfinite":
        return isfinite(args[0])
    if c.op == "isnan":
        return isnan(args[0])
    if c.op in CREBUILD:
        return CREBUILD[c.op](*args)
    if c.op in ("All", "Any"):
        return quant(c.op, c.args[0], args[1], args[2])
    return cond(c.op, *args)


CREBUILD = {}
REBUILDB = {}        # operators with bound atoms among their arguments


def isfinite(r):
    a = r.single()
    while a is not None and a.op == "let":
        r = a.args[0]
        a = r.single()
    if a is not None and a.op == "min" and a.real and len(a.args[0]) == 2:
        # min(exp(x), c) is finite unless x is not a number
        cs = [x for x in a.args[0] if x.const() is not None]
        es = [x for x in a.args[0] if len(x.terms) == 1 and x.terms[0][1] > 0 and x.terms[0][0] and all(t[0].op == "E" for t in x.terms[0][0])]
        if len(cs) == 1 and len(es) == 1:
            return gnot(isnan(log(es[0])))
    if len(r.terms) == 1 and r.terms[0][1] > 0 and r.terms[0][0] and all(t[0].op == "E" for t in r.terms[0][0]):
        # and so is exp(min(x, c))
        b = log(r).single()
        while b is not None and b.op == "let":
            b = b.args[0].single()
        if b is not None and b.op == "min" and b.real and len(b.args[0]) == 2:
            xs = [x for x in b.args[0] if x.const() is None]
            if len(xs) == 1:
                return gnot(isnan(xs[0]))
    c = r.const()
    if c is not None:
        return TRUE
    m = r.terms
    if len(m) == 1 and m[0][0] and m[0][0][0][0].op == "inf":
        return FALSE
    if any(a.op in ("inf", "nan") for mm, cc in m for a, e in mm if e > 0):
        return FALSE
    # finiteness is invariant under nonzero rational scaling
    c, mono, prim = content(r)
    return cond("isfinite", mkR({mono: F1}) * prim)


def quant(op, v, n, body):
    """All/Any over v in [0,n) of gated bool body"""
    if op == "Any":
        return gnot(quant("All", v, n, gnot(body)))
    if v not in body.syms:
        return gor(body, lt(n, ONE)) if not isinstance(n, int) else body
    # split conjunctions: All(a && b) = All a && All b  (body as product of clauses)
    outs = []
    for cl in clauses(body):
        if v not in cl.syms:
            outs.append(cl)
            continue
        # pull invariant disjuncts out of a clause
        inv, dep = FALSE, None
        lits = literals(cl)
        if lits is None:
            dep = cl
        else:
            dep = FALSE
            for c, pos in lits:
                g = gnode(c, TRUE, FALSE)
                g = g if pos else gnot(g)
                if v in c.syms:
                    dep = gor(dep, g)
                else:
                    inv = gor(inv, g)
        h = binder_height(dep)
        v2 = bv(h)
        while v2 is not v and v2 in dep.syms:
            h += 1
            v2 = bv(h)
        if v2 is not v:
            dep = subst(dep, {v: ra(v2)})
        q = gnode(atom("All", v2, n, dep, real=True, scalar=True, binders=(v2,)), TRUE, FALSE)
        outs.append(gor(inv, q))
    res = TRUE
    for o in outs:
        res = gand(res, o)
    return res


def literals(cl):
    """a clause as list of (cond, polarity) if it is a disjunction of literals"""
    out = []
    g = cl
    while g.c is not None:
        if g.hi is TRUE:
            out.append((g.c, True))
            g = g.lo
        elif g.lo is TRUE:
            out.append((g.c, False))
            g = g.hi
        else:
            return None
    return out if g is FALSE else None


def clauses(g):
    """g as a conjunction: paths to FALSE negated."""
    if g is TRUE:
        return []
    if g is FALSE:
        return [FALSE]
    out = []
    npaths = [0]

    def go(n, path):
        if npaths[0] > 64:
            return
        if n is FALSE:
            npaths[0] += 1
            c = FALSE
            for a, t in path:
                x = gnode(a, TRUE, FALSE)
                c = gor(c, gnot(x) if t else x)
            out.append(c)
            return
        if n is TRUE:
            return
        go(n.hi, path + [(n.c, True)])
        go(n.lo, path + [(n.c, False)])
    go(g, [])
    if npaths[0] > 64:
        return [g]
    if len(out) > 1:
        out = list(dict.fromkeys(_shrink(g, c) for c in out))
    return out


def _shrink(g, cl):
    """drop literals of a clause implied by g while it stays implied"""
    lits = literals(cl)
    if lits is None or len(lits) < 2 or len(lits) > 6:
        return cl
    lits = sorted(lits, key=lambda t: (not t[0].op == "lt0" or not t[0].args[0].isint, t[0].uid))
    for l in reversed(list(lits)):
        if len(lits) == 1:
            break
        rest = [x for x in lits if x is not l]
        c = FALSE
        for a, t in rest:
            x = gnode(a, TRUE, FALSE)
            c = gor(c, x if t else gnot(x))
        if gand(g, gnot(c)) is FALSE:
            lits = rest
            cl = c
    return cl


# --------------------------------------------------------------------------
# printing

def show_atom(a, d=0):
    if d > 7:
        return "..."
    s = lambda x: show_any(x, d + 1)
    if a.op in ("sym", "mu"):
        return str(a.args[0]) if a.op == "sym" else "mu(%s)" % (a.args[1:],)
    if a.op == "bv":
        return "b%s" % a.args[0]
    if a.op == "E":
        return "exp(%s)" % show(mkR({a.args[0]: F1}), d + 1)
    if a.op == "P":
        return "(%s)" % show(a.args[0], d + 1)
    if a.op == "sel":
        return "%s[%s]" % (s(a.args[0]), s(a.args[1]))
    if a.op == "lt0":
        return "[%s < 0]" % s(a.args[0])
    if a.op == "eq0":
        return "[%s == 0]" % s(a.args[0])
    if a.op == "Sum":
        return "Sum{%s<%s}(%s)" % (s(a.args[0]), s(a.args[2]), s(a.args[3]))
    if a.op == "mm":
        return "@".join(s(x) for x in a.args[0])
    return "%s(%s)" % (a.op, ", ".join(s(x) for x in a.args))


def show_any(x, d=0):
    if isinstance(x, R):
        return show(x, d)
    if isinstance(x, Atom):
        return show_atom(x, d)
    if isinstance(x, G):
        return show_g(x, d)
    if isinstance(x, tuple):
        return "(" + ", ".join(show_any(y, d) for y in x) + ")"
    return str(x)


def show(r, d=0):
    if not r.terms:
        return "0"
    if d > 7:
        return "..."
    out = []
    for m, c in r.terms[:12]:
        fs = []
        if c != 1 or not m:
            fs.append(str(c))
        for a, e in m:
            fs.append(show_atom(a, d) if e == 1 else "%s^%s" % (show_atom(a, d), e))
        out.append("*".join(fs))
    if len(r.terms) > 12:
        out.append("... (%d terms)" % len(r.terms))
    return " + ".join(out)


def show_g(g, d=0):
    if g.c is None:
        return show_any(g.v, d)
    if d > 5:
        return "..."
    return "{%s ? %s : %s}" % (show_atom(g.c, d + 1), show_g(g.hi, d + 1), show_g(g.lo, d + 1))


MARK0 = sym("mark0", isint=True, nonneg=True)
MARK1 = sym("mark1", isint=True, nonneg=True)
