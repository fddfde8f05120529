"""Random interpretation of value numbers.

Two value numbers that differ as normal forms may still be equal by an identity the algebra does not
know.  Before a difference is reported, both terms are interpreted in a model: sizes, parameters and
data become random numbers (high-precision), uninterpreted functions become random functions, sums
and recurrences their defining meaning.  A difference is reported only if some interpretation tells
the two terms apart.  Only terms are interpreted; nothing of the analysed program is executed.
"""
import hashlib
import os
import random
import time
from fractions import Fraction

import mpmath
from mpmath import mp, mpf, mpc

import terms as T
import arrays as A
from terms import R, G, Atom
from core import REC, Obj, Undef, Exc, LOOPSYM

mp.dps = 40


SORTED = set()          # arrays in non-decreasing order
SAMPLER = {}            # symbol -> function of a model giving its value
CONJCLOSED = set()      # complex arrays closed under conjugation (roots of real polynomials)
DOMAIN = {}             # sampled symbol -> which values it may take (None: any)


class NoInterp(Exception):
    """no meaning in this model (uninterpretable operator, index out of range, division by zero)"""


class V:
    """array value"""
    __slots__ = ("d", "sh")

    def __init__(self, d, sh):
        self.d, self.sh = d, sh

    def at(self, idx):
        if isinstance(idx, tuple):
            if len(idx) == 2 and len(self.sh) == 1:
                # a column or row addressed with two indices
                i = idx[0] + idx[1]
                return self.at(i)
            r, c = self.sh
            i, j = idx
            if not (0 <= i < r and 0 <= j < c):
                raise NoInterp("index")
            return self.d[i * c + j]
        if len(self.sh) == 2:
            r, c = self.sh
            if not 0 <= idx < r * c:
                raise NoInterp("index")
            return self.d[(idx % r) * c + idx // r]      # column major
        if not 0 <= idx < len(self.d):
            raise NoInterp("index")
        return self.d[idx]


def mapv(f, x):
    return V([f(y) for y in x.d], x.sh) if isinstance(x, V) else f(x)


def zipv(f, x, y):
    if isinstance(x, V) and isinstance(y, V):
        if x.sh != y.sh:
            if len(x.d) == len(y.d):
                return V([f(a, b) for a, b in zip(x.d, y.d)], x.sh)
            raise NoInterp("shape")
        return V([f(a, b) for a, b in zip(x.d, y.d)], x.sh)
    if isinstance(x, V):
        return V([f(a, y) for a in x.d], x.sh)
    if isinstance(y, V):
        return V([f(x, b) for b in y.d], y.sh)
    return f(x, y)


def toint(x):
    if isinstance(x, int):
        return x
    if isinstance(x, mpc):
        if x.imag != 0:
            raise NoInterp("complex index")
        x = x.real
    if isinstance(x, Fraction):
        x = mpf(x.numerator) / x.denominator
    n = int(mpmath.nint(x))
    if abs(x - n) > mpf(10) ** -20:
        raise NoInterp("fractional index")
    return n


def num(x):
    if isinstance(x, Fraction):
        return mpf(x.numerator) / x.denominator
    if isinstance(x, int):
        return mpf(x)
    return x


def realnum(x):
    x = num(x)
    if isinstance(x, mpc):
        if abs(x.imag) > mpf(10) ** -25 * (1 + abs(x.real)):
            raise NoInterp("complex comparison")
        return x.real
    return x


def power(x, e):
    if isinstance(e, Fraction) and e.denominator == 1:
        e = int(e)
    if isinstance(e, int):
        if isinstance(x, int):
            if e >= 0:
                return x ** e
            x = mpf(x)
        if e < 0 and x == 0:
            raise NoInterp("division by zero")
        return x ** e
    if x == 0:
        return mpf(0)
    x = num(x)
    e = num(e)
    if not isinstance(x, mpc) and x < 0:
        x = mpc(x)
    return x ** e


class Model:
    def __init__(self, seed, style):
        self.rnd = random.Random("%s/%s" % (seed, style))
        self.seed, self.style = seed, style
        self.val = {}
        self.memo = {}
        self.keep = []
        self.rows = {}
        self.steps = 0
        self.named = {}
        self.bent = {}          # symbol or function -> how its values are moved
        self.watch = ()         # comparisons and clippings whose outcomes are noted
        self.seen = set()
        self.until = None

    # -- free symbols -------------------------------------------------------------
    def rng(self, *key):
        h = hashlib.sha256(repr((self.seed, self.style) + key).encode()).digest()
        return random.Random(h)

    def number(self, r, real=True, nonneg=False, isint=False, lower=None):
        if isint:
            lo = 0 if nonneg else -2
            if lower is not None:
                lo = int(lower)
            return r.randint(lo, lo + 3)
        if self.style == "grid":
            pool = [1, 2, 3, 4, 6] if nonneg else [-4, -2, -1, 0, 1, 2, 3, 4]
            x = mpf(r.choice(pool)) / 2
            if not real:
                return mpc(-abs(x) or mpf(-3) / 2, r.choice([-1, 0, 1]))
            return x
        x = mpf(r.randint(1, 10 ** 12)) / 10 ** 12
        x = x * 2 + mpf(1) / 10
        if not nonneg and r.random() < 0.5:
            x = -x
        if real:
            return x
        y = mpf(r.randint(1, 10 ** 12)) / 10 ** 12 + mpf(1) / 10
        return mpc(-abs(x), y if r.random() < 0.5 else -y)

    def symbol(self, a):
        if a in self.val:
            return self.val[a]
        if a.op == "bv" or a.op == "mu" or (a.op == "sym" and isinstance(a.args[0], str) and LOOPSYM.match(a.args[0]) and a not in T.RANGES):
            raise NoInterp("unbound %r" % (a,))
        r = self.rng("sym", a.args[0] if a.op == "sym" else a.uid)
        if a in SAMPLER:
            v = SAMPLER[a](self, r)
        elif a.scalar:
            if a in T.RANGES:
                lo, hi = T.RANGES[a]
                lo, hi = toint(self.ev(lo, {})), toint(self.ev(hi, {}))
                if hi < lo:
                    raise NoInterp("empty range")
                v = r.randint(lo, hi)
            else:
                v = self.number(r, a.real, a.nonneg or a in A.POSITIVE, a.isint, T.LOWER.get(a))
        else:
            v = self.array(a, r)
        if a in self.bent:
            v = self.bend(a, v)
        self.val[a] = v
        return v

    def bend(self, a, v):
        """the value of a symbol, moved: an integer set, a number or an array (or one element, or one gap) scaled"""
        which, f = self.bent[a]
        if which == "set":
            v = f
        elif not isinstance(v, V):
            v = v * f
        elif which == "all":
            v = V([y * f for y in v.d], v.sh)
        elif which < len(v.d):
            d = list(v.d)
            if a in A.INCREASING:
                g = (d[which] - (d[which - 1] if which else 0)) * (f - 1)
                d = d[:which] + [y + g for y in d[which:]]
            else:
                d[which] = d[which] * f
            v = V(d, v.sh)
        dom = DOMAIN.get(a)
        if dom is not None and not all(dom(y) for y in (v.d if isinstance(v, V) else [v])):
            raise NoInterp("outside the domain")
        return v

    def array(self, a, r):
        sh = self.shape_of(a)
        n = 1
        for s in sh:
            n *= s
        if n > (400 if self.until is None else 3000):
            raise NoInterp("size")
        pos = a.nonneg or a in A.POSITIVE
        d = [self.number(r, a.real, pos, a.isint) for _ in range(n)]
        if a in CONJCLOSED:
            for i in range(0, n - 1, 2):
                d[i + 1] = mpmath.conj(d[i])
            if n % 2:
                d[n - 1] = mpmath.mpc(d[n - 1].real, 0)
        if a in SORTED:
            d = sorted(d)
        if a in A.INCREASING:
            acc, out = mpf(0), []
            for _ in range(n):
                acc = acc + (mpf(r.randint(1, 3)) if self.style == "grid" else mpf(r.randint(1, 10 ** 9)) / 10 ** 9 + mpf(1) / 20)
                out.append(acc)
            d = out
        return V(d, sh)

    def shape_of(self, a):
        if a.size is not None:
            return (max(0, toint(self.ev(a.size, {}))),)
        d = A.adims(a)
        if d is not None and d[0] == "mat" and None not in d:
            return (toint(self.ev(d[1], {})), toint(self.ev(d[2], {})))
        if d is not None and d[0] in ("col", "row"):
            return (toint(self.ev(d[1], {})),)
        # length never mentioned: give it one, shared with n(array)
        return (self.rng("len", a.uid).randint(2, 4),)

    # -- evaluation -----------------------------------------------------------------
    def ev(self, x, env):
        if isinstance(x, R):
            c = x.const()
            if c is not None:
                return self.coef(c)
            tot = None
            for m, c in x.terms:
                t = self.coef(c)
                for a, e in m:
                    v = self.atom(a, env)
                    if e != 1:
                        v = mapv(lambda y: power(y, e), v)
                    t = zipv(lambda p, q: p * q, t, v)
                tot = t if tot is None else zipv(lambda p, q: p + q, tot, t)
            return tot
        if isinstance(x, G):
            return self.gated(x, env)
        if isinstance(x, Atom):
            return self.atom(x, env)
        if isinstance(x, tuple):
            return tuple(self.ev(y, env) if isinstance(y, (R, G, Atom, tuple)) else y for y in x)
        return x

    def coef(self, c):
        if c.denominator == 1:
            return int(c)
        c = num(c)
        if self.style == "scaled" and abs(c) < mpf("0.05"):
            # thresholds move into the range of the data, in the same order
            return mpmath.sign(c) * abs(c) ** mpf("0.05")
        return c

    def gated(self, g, env):
        while g.c is not None:
            g = g.hi if self.test(g.c, env) else g.lo
        if isinstance(g.v, (R, tuple)):
            return self.ev(g.v, env)
        return g.v

    def test(self, c, env):
        r = self.outcome(c, env)
        if c in self.watch:
            self.seen.add((c.uid, r))
        return r

    def outcome(self, c, env):
        self.tick()
        op = c.op
        if op == "lt0":
            v = self.ev(c.args[0], env)
            try:
                return realnum(v) < 0
            except NoInterp:
                if DEBUG:
                    print("    comparison", v, str(c)[:600])
                raise
        if op == "eq0":
            v = self.ev(c.args[0], env)
            if isinstance(v, V):
                raise NoInterp("array comparison")
            return abs(num(v)) < mpf(10) ** -25
        if op == "isfinite":
            v = num(self.ev(c.args[0], env))
            if self.style == "special":
                r = c.args[0]
                if len(r.terms) == 1 and r.terms[0][1] > 0 and r.terms[0][0] and all(t[0].op == "E" for t in r.terms[0][0]):
                    # exp of a number that is not positive cannot overflow
                    x = T.log(r)
                    if realnum(self.ev(x, env)) <= 0:
                        return not self.gated(T.isnan(x), env)
                # a round number comes from clipping or from a constant, not from an unknown value
                return v == mpmath.nint(mpmath.re(v)) or self.hash("finite", v).random() < 0.6
            return bool(mpmath.isfinite(v))
        if op == "isnan":
            v = num(self.ev(c.args[0], env))
            if self.style == "special":
                return v != mpmath.nint(mpmath.re(v)) and self.hash("finite", v).random() >= 0.6 and self.hash("nan", v).random() < 0.5
            return bool(mpmath.isnan(v))
        if op in ("All", "Any"):
            v, n, body = c.args
            n = toint(self.ev(n, env))
            rs = (self.truth(self.ev(body, {**env, v: i})) for i in range(n))
            return all(rs) if op == "All" else any(rs)
        if op in ("sym", "mu"):
            if c in env:
                return self.truth(env[c])
            if op == "mu":
                raise NoInterp("unbound")
            return self.rng("cond", c.args[0]).random() < 0.5
        if op in ("opaquec", "opaque"):
            raise NoInterp("opaque")
        h = self.hash(op, self.ev(c.args, env))
        return h.random() < 0.5

    def truth(self, v):
        if isinstance(v, bool):
            return v
        return num(v) != 0

    def tick(self):
        self.steps += 1
        if self.steps > 400000:
            raise NoInterp("budget")
        if self.until is not None and self.steps % 256 == 0 and time.monotonic() > self.until:
            raise NoInterp("time")

    def atom(self, a, env):
        if a in env:
            return env[a]
        if not a.args and a.op not in ("pi", "I", "inf", "nan", "div0", "uninit", "undef"):
            return self.uninterpreted(a, env)
        k = (a.uid,) + tuple((b.uid, self.sig(env[b])) for b in sorted(a.syms, key=lambda b: b.uid) if b in env)
        if k in self.memo:
            return self.memo[k]
        self.tick()
        v = self.atom1(a, env)
        self.memo[k] = v
        return v

    def sig(self, v):
        if isinstance(v, V):
            self.keep.append(v)
            return id(v)
        return v

    def bound(self, v, n, body, env):
        n = toint(self.ev(n, env))
        if n > (200 if self.until is None else 3000):
            raise NoInterp("range")
        return [self.ev(body, {**env, v: i}) for i in range(max(0, n))]

    def atom1(self, a, env):
        op, args = a.op, a.args
        if op in ("sym", "bv", "mu"):
            return self.symbol(a)
        if op == "pi":
            return +mp.pi
        if op == "I":
            return mpc(0, 1)
        if op == "inf":
            return mpf("inf")
        if op == "nan":
            return mpf("nan")
        if op == "div0":
            raise NoInterp("division by zero")
        if op in ("opaque", "opaquec"):
            raise NoInterp("opaque")
        if op == "C":
            return args[0]
        if op in ("P", "let"):
            return self.ev(args[0], env)
        if op == "E":
            return mapv(lambda y: mpmath.exp(num(y)), self.ev(T.mkR({args[0]: Fraction(1)}), env))
        if op in ("pow", "cpow"):
            e = args[1] if isinstance(args[1], Fraction) else self.ev(args[1], env)

            def pw(x, e):
                if isinstance(e, (mpf, int)) and not isinstance(e, int):
                    n = int(mpmath.nint(e))
                    if e == n:
                        e = n
                return power(x, e)
            return zipv(pw, self.ev(args[0], env), e)
        if op == "log":
            def lg(y):
                y = num(y)
                if y == 0:
                    raise NoInterp("log 0")
                if not isinstance(y, mpc) and y < 0:
                    y = mpc(y)
                return mpmath.log(y)
            return mapv(lg, self.ev(args[0], env))
        if op in FN:
            return mapv(lambda y: FN[op](num(y)), self.ev(args[0], env))
        if op == "abs":
            return mapv(lambda y: abs(y), self.ev(args[0], env))
        if op == "sel":
            base = self.ev(args[0], env)
            idx = args[1]
            if isinstance(idx, str) and idx == ":":
                return base
            if isinstance(idx, tuple) and any(isinstance(i, str) for i in idx):
                if not isinstance(base, V) or len(base.sh) != 2 or len(idx) != 2:
                    raise NoInterp("slice")
                r, c = base.sh
                if idx[0] == ":" and idx[1] == ":":
                    return base
                if idx[0] == ":":
                    j = toint(self.ev(idx[1], env))
                    return V([base.at((i, j)) for i in range(r)], (r,))
                i = toint(self.ev(idx[0], env))
                return V([base.at((i, j)) for j in range(c)], (c,))
            ii = tuple(toint(self.ev(i, env)) for i in idx) if isinstance(idx, tuple) else toint(self.ev(idx, env))
            if not isinstance(base, V):
                if isinstance(base, tuple):
                    raise NoInterp("element of a record")
                return base if not isinstance(ii, tuple) and ii == 0 else self._bad()
            return base.at(ii)
        if op == "slice":
            base, lo, hi = self.ev(args[0], env), toint(self.ev(args[1], env)), toint(self.ev(args[2], env))
            if not 0 <= lo <= hi <= len(base.d):
                raise NoInterp("slice")
            return V(base.d[lo:hi], (hi - lo,))
        if op == "fill":
            sh = tuple(toint(self.ev(n, env)) for n in args[1:])
            if any(s < 0 for s in sh):
                raise NoInterp("size")
            n = 1
            for s in sh:
                n *= s
            v = self.ev(args[0], env)
            return V([v] * n, sh)
        if op == "store":
            base = self.ev(args[0], env)
            v = self.ev(args[2], env)
            return self.put(base, args[1], v, env)
        if op == "arr":
            xs = self.bound(args[0], args[1], args[2], env)
            return V(xs, (len(xs),))
        if op == "arr2":
            b1, b2, n, m, body = args
            n, m = toint(self.ev(n, env)), toint(self.ev(m, env))
            return V([self.ev(body, {**env, b1: i, b2: j}) for i in range(n) for j in range(m)], (n, m))
        if op == "qupd":
            base, bnds, cond, idx, val = args
            out = self.ev(base, env)

            def go(k, e, out):
                if k == len(bnds):
                    if cond is not None and not self.truth(self.ev(cond, e)):
                        return out
                    return self.put(out, idx, self.ev(val, e), e)
                b, t = bnds[k]
                for i in range(toint(self.ev(t, e))):
                    out = go(k + 1, {**e, b: i}, out)
                return out
            return go(0, env, out)
        if op == "concat":
            out = []
            for y in args[0]:
                v = self.ev(y, env)
                out += v.d if isinstance(v, V) else [v]
            return V(out, (len(out),))
        if op == "vstackc":
            vs = [self.ev(y, env) for y in args[0]]
            if any(isinstance(v, V) for v in vs):
                return V([z for v in vs for z in v.d], (len(vs), len(vs[0].d)))
            return V(vs, (len(vs),))
        if op == "append":
            b, v = self.ev(args[0], env), self.ev(args[1], env)
            return V(b.d + [v], (len(b.d) + 1,))
        if op == "ite":
            return self.gated(args[0], env)
        if op == "Sum":
            v, lo, hi, body = args
            xs = self.bound(v, hi, body, env)
            t = 0
            for y in xs:
                t = zipv(lambda p, q: p + q, t, y)
            return t
        if op == "Prod":
            v, lo, hi, body = args
            t = 1
            for y in self.bound(v, hi, body, env):
                t = zipv(lambda p, q: p * q, t, y)
            return t
        if op in ("MinOver", "MaxOver"):
            xs = [realnum(y) for y in self.bound(*args, env)]
            if not xs:
                return mpf("inf") if op == "MinOver" else mpf("-inf")
            return min(xs) if op == "MinOver" else max(xs)
        if op in ("min", "max"):
            vs = [self.ev(y, env) for y in args[0]]
            f = min if op == "min" else max
            t = vs[0]
            for y in vs[1:]:
                t = zipv(lambda p, q: f(realnum(p), realnum(q)), t, y)
            if a in self.watch:
                for k, y in enumerate(vs):
                    e = zipv(lambda p, q: int(realnum(p) == realnum(q)), t, y)
                    for z in (e.d if isinstance(e, V) else [e]):
                        if z:
                            self.seen.add((a.uid, k))
            return t
        if op == "first":
            v, bound, body = args
            cap = 60
            b = self.ev(bound, env)
            n = cap if isinstance(b, mpf) and mpmath.isinf(b) else toint(b)
            for i in range(max(0, n)):
                if self.truth(self.ev(body, {**env, v: i})):
                    return i
            if n >= cap:
                raise NoInterp("no exit")
            return max(n, 0)
        if op in ("All", "Any", "lt0", "eq0", "isfinite", "isnan"):
            return int(self.test(a, env))
        if op == "rec":
            return self.rec(args[0], toint(self.ev(args[1], env)), tuple(self.ev(p, env) for p in args[2]), env)
        if op == "n":
            v = self.ev(args[0], env)
            return len(v.d) if isinstance(v, V) else self._bad()
        if op in ("nrows", "ncols"):
            v = self.ev(args[0], env)
            if isinstance(v, V) and len(v.sh) == 2:
                return v.sh[0 if op == "nrows" else 1]
            if isinstance(v, V):
                return len(v.d) if op == "nrows" else 1
            raise NoInterp("rows")
        if op == "idiv":
            p, q = toint(self.ev(args[0], env)), toint(self.ev(args[1], env))
            if q == 0:
                raise NoInterp("division by zero")
            return abs(p) // abs(q) * (1 if (p >= 0) == (q > 0) else -1)
        if op == "mod":
            p, q = toint(self.ev(args[0], env)), toint(self.ev(args[1], env))
            if q == 0:
                raise NoInterp("division by zero")
            if a in self.watch:
                self.seen.add((a.uid, (abs(p) >= abs(q), p % q == 0)))
            return abs(p) % abs(q) * (1 if p >= 0 else -1)
        if op == "trunc":
            x = realnum(self.ev(args[0], env))
            return int(mpmath.floor(x)) if x >= 0 else -int(mpmath.floor(-x))
        if op in ("T", "whole"):
            v = self.ev(args[0], env)
            if op == "T" and isinstance(v, V) and len(v.sh) == 2:
                r, c = v.sh
                return V([v.at((i, j)) for j in range(c) for i in range(r)], (c, r))
            return v
        if op == "mm":
            return self.product(args[0], env)
        if op == "scal":
            v = self.ev(args[0], env)
            if isinstance(v, V):
                if len(v.d) != 1:
                    raise NoInterp("not a scalar")
                return v.d[0]
            return v
        if op in ("symmatu", "symmatl"):
            v = self.ev(args[0], env)
            n = v.sh[0]
            up = op == "symmatu"
            return V([v.at((i, j)) if (i <= j) == up or i == j else mpmath.conj(num(v.at((j, i)))) for i in range(n) for j in range(n)], (n, n))
        if op == "diagmat":
            v = self.ev(args[0], env)
            n = len(v.d)
            return V([v.d[i] if i == j else 0 for i in range(n) for j in range(n)], (n, n))
        if op in ("solve", "inv", "chol"):
            m = self.ev(args[0], env)
            if len(m.sh) != 2 or m.sh[0] != m.sh[1]:
                raise NoInterp("matrix shape")
            n = m.sh[0]
            M = mpmath.matrix(n, n)
            for i in range(n):
                for j in range(n):
                    M[i, j] = num(m.at((i, j)))
            try:
                if op == "solve":
                    b = self.ev(args[1], env)
                    B = mpmath.matrix(n, 1)
                    for i in range(n):
                        B[i] = num(b.d[i])
                    x = mpmath.lu_solve(M, B)
                    return V([x[i] for i in range(n)], (n,))
                if op == "inv":
                    x = M ** -1
                    return V([x[i, j] for i in range(n) for j in range(n)], (n, n))
                x = mpmath.cholesky(M)
                return V([mpmath.conj(x[j, i]) for i in range(n) for j in range(n)], (n, n))
            except (ZeroDivisionError, ValueError):
                raise NoInterp("singular")
        if op in ("argsort", "argsortd"):
            v = [realnum(y) for y in self.ev(args[0], env).d]
            ix = sorted(range(len(v)), key=lambda i: v[i] if op == "argsort" else -v[i])
            return V(ix, (len(ix),))
        if op == "unique":
            v = sorted(set(realnum(y) for y in self.ev(args[0], env).d))
            return V(v, (len(v),))
        if op == "uniqueidx":
            v = [realnum(y) for y in self.ev(args[0], env).d]
            ix = [v.index(y) for y in sorted(set(v))]
            return V(ix, (len(ix),))
        if op == "find":
            v = self.ev(args[0], env)
            ix = [i for i, y in enumerate(v.d) if self.truth(y)]
            return V(ix, (len(ix),))
        if op in ("minval", "maxval"):
            v = self.ev(args[0], env)
            xs = [realnum(y) for y in v.d]
            if not xs:
                raise NoInterp("empty")
            return min(xs) if op == "minval" else max(xs)
        if op in ("argmin", "argmax"):
            xs = [realnum(y) for y in self.ev(args[0], env).d]
            return xs.index(min(xs) if op == "argmin" else max(xs))
        if op == "median":
            # complex values are ordered by real part, then imaginary part
            xs = sorted((mpmath.mpmathify(y) for y in self.ev(args[0], env).d), key=lambda z: (mpmath.re(z), mpmath.im(z)))
            n = len(xs)
            return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2
        if op == "percentile":
            xs = sorted(realnum(y) for y in self.ev(args[0], env).d)
            q = realnum(self.ev(args[1], env)) / 100 * (len(xs) - 1)
            i = int(mpmath.floor(q))
            if i >= len(xs) - 1:
                return xs[-1]
            return xs[i] + (q - i) * (xs[i + 1] - xs[i])
        if op == "poly":
            c = [mpf(1)]
            for r in self.ev(args[0], env).d:
                c = [(c[i] if i < len(c) else 0) - (r * c[i - 1] if i > 0 else 0) for i in range(len(c) + 1)]
            return V(c, (len(c),))
        if op == "binom":
            return int(mpmath.binomial(toint(self.ev(args[0], env)), toint(self.ev(args[1], env))))
        if op == "cyc":
            v = self.ev(args[0], env).d
            if not v:
                raise NoInterp("empty")
            return v[toint(self.ev(args[1], env)) % len(v)]
        if op == "draw":
            r = self.hash("draw", args[0], self.ev(args[1], env), self.ev(args[2], env))
            law = str(args[0])
            pos = law.startswith(("exp", "gamma", "chi", "scaled", "invg", "log", "pow"))
            if not a.scalar:
                sh = self.shape_in(a, env)
                n = 1
                for s in sh:
                    n *= s
                return V([self.unit(r) for _ in range(n)], sh)
            if law.startswith("uniform_int"):
                ps = self.ev(args[1], env)
                if len(ps) == 2:
                    lo, hi = toint(ps[0]), toint(ps[1])
                    return r.randint(lo, hi) if hi >= lo else self._bad()
            if a.isint:
                return r.randint(0, 3)
            if law == "uniform":
                ps = self.ev(args[1], env)
                if len(ps) == 2:
                    lo, hi = realnum(ps[0]), realnum(ps[1])
                    return lo + (hi - lo) * self.unit(r)
                return self.unit(r)
            x = self.unit(r) * 2
            if self.bent and ("draw", law) in self.bent:
                x = x * self.bent["draw", law][1]
            return x if pos or r.random() < 0.5 else -x
        return self.uninterpreted(a, env)

    def unit(self, r):
        return mpf(r.randint(1, 10 ** 12 - 1)) / 10 ** 12

    def shape_in(self, a, env):
        if a.size is not None:
            return (toint(self.ev(a.size, env)),)
        d = A.adims(a)
        if d is not None and None not in d:
            return tuple(toint(self.ev(x, env)) for x in d[1:])
        if len(a.args) > 3:
            sz = self.ev(a.args[3], env)
            return tuple(toint(x) for x in sz) if isinstance(sz, tuple) else (toint(sz),)
        return (3,)

    def uninterpreted(self, a, env):
        args = tuple(self.ev(x, env) if isinstance(x, (R, G, Atom, tuple)) else (x if isinstance(x, (str, int, Fraction)) else str(x)) for x in a.args)
        r = self.hash(a.op, args)
        if a.scalar:
            if a.isint:
                return r.randint(0, 3)
            x = self.number(r, a.real, a.nonneg)
            if self.bent:
                k = fkey(a)
                if k in self.bent:
                    x = x * self.bent[k][1]
            return x
        if a.size is not None or A.adims(a) is not None:
            sh = self.shape_in(a, env)
        else:
            sh = (r.randint(2, 4),)
        n = 1
        for s in sh:
            n *= s
        if n > 400 or n < 0:
            raise NoInterp("size")
        return V([self.number(r, a.real, a.nonneg) for _ in range(n)], sh)

    def _bad(self):
        raise NoInterp("not an array")

    def put(self, base, idx, v, env):
        if not isinstance(base, V):
            raise NoInterp("store")
        d = list(base.d)
        if isinstance(idx, tuple):
            if len(base.sh) != 2:
                ii = [toint(self.ev(i, env)) for i in idx if not isinstance(i, str)]
                i = sum(ii)
                if not 0 <= i < len(d):
                    raise NoInterp("index")
                d[i] = v
                return V(d, base.sh)
            r, c = base.sh
            i, j = idx
            rows = range(r) if isinstance(i, str) else [toint(self.ev(i, env))]
            cols = range(c) if isinstance(j, str) else [toint(self.ev(j, env))]
            k = 0
            for x in rows:
                for y in cols:
                    if not (0 <= x < r and 0 <= y < c):
                        raise NoInterp("index")
                    d[x * c + y] = v.d[k] if isinstance(v, V) else v
                    k += 1
            return V(d, base.sh)
        if isinstance(idx, str):
            return v if isinstance(v, V) else V([v] * len(d), base.sh)
        i = toint(self.ev(idx, env))
        if not 0 <= i < len(d):
            raise NoInterp("index")
        if len(base.sh) == 2:
            r, c = base.sh
            i = (i % r) * c + i // r
        if isinstance(v, V):
            raise NoInterp("array in a cell")
        d[i] = v
        return V(d, base.sh)

    def product(self, xs, env):
        def mat(x):
            v = self.ev(x, env)
            if not isinstance(v, V):
                raise NoInterp("scalar factor")
            if len(v.sh) == 2:
                return v
            dm = A.dims(x)
            if dm is not None and dm[0] == "row":
                return V(v.d, (1, len(v.d)))
            return V(v.d, (len(v.d), 1))
        out = mat(xs[0])
        for x in xs[1:]:
            m = mat(x)
            if out.sh[1] != m.sh[0]:
                raise NoInterp("matrix shapes")
            d = []
            for i in range(out.sh[0]):
                for j in range(m.sh[1]):
                    t = 0
                    for k in range(m.sh[0]):
                        t = t + out.at((i, k)) * m.at((k, j))
                    d.append(t)
            out = V(d, (out.sh[0], m.sh[1]))
        if out.sh[0] == 1 or out.sh[1] == 1:
            return V(out.d, (len(out.d),))
        return out

    def rec(self, rid, k, params, env):
        """value at pass k of a system of recurrences"""
        if k < 0 or k > (60 if self.until is None else 3000):
            raise NoInterp("pass number")
        sid = REC.vars[rid][4]
        vs = [v for v in REC.vars if v[4] == sid]
        key = (sid,) + tuple(self.sig(p) for p in params)
        rows = self.rows.get(key)
        penv = {}
        for v in vs:
            for b in v[1].syms | v[2].syms:
                if b.op == "sym" and isinstance(b.args[0], str) and len(b.args) == 4 and b.args[0][0] == "p":
                    penv[b] = params[int(b.args[0][1:])]
        if rows is None:
            rows = self.rows[key] = [{v[0]: self.ev(v[1], penv) for v in vs}]
        while len(rows) <= k:
            e = dict(penv)
            e.update(rows[-1])
            e[REC.kc] = len(rows) - 1
            rows.append({v[0]: self.ev(v[2], e) for v in vs})
        return rows[k][REC.vars[rid][0]]

    def hash(self, *key):
        return self.rng("f", canonical(key))


def canonical(x):
    if isinstance(x, tuple):
        return tuple(canonical(y) for y in x)
    if isinstance(x, V):
        return ("V", x.sh) + tuple(canonical(y) for y in x.d)
    if isinstance(x, (mpf, mpc, Fraction)) or isinstance(x, int) and not isinstance(x, bool):
        y = num(x)
        if isinstance(y, mpc):
            if y.imag == 0 or abs(y.imag) < mpf(10) ** -28 * (1 + abs(y.real)):
                y = y.real
            else:
                return mpmath.nstr(y, 18)
        if abs(y) < mpf(10) ** -28:
            return "0.0"
        return mpmath.nstr(y, 18)
    return str(x)


def _sign(y):
    y = realnum(y)
    return (y > 0) - (y < 0)


FN = {"sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan, "real": mpmath.re, "imag": mpmath.im, "conj": mpmath.conj, "floor": lambda y: int(mpmath.floor(realnum(y))),
      "ceil": lambda y: int(mpmath.ceil(realnum(y))), "round": lambda y: int(mpmath.nint(realnum(y))), "sign": _sign, "lgamma": mpmath.loggamma, "arg": mpmath.arg,
      "erf": mpmath.erf, "atan": mpmath.atan, "sinh": mpmath.sinh, "cosh": mpmath.cosh, "tanh": mpmath.tanh}

# operators with a fixed meaning here; everything else is a random function
INTERPRETED = set(FN) | {"let", "sym", "bv", "mu", "pi", "I", "inf", "nan", "C", "P", "E", "pow", "cpow", "log", "abs", "sel", "slice", "fill", "store", "arr", "arr2", "qupd",
                         "concat", "vstackc", "append", "ite", "Sum", "Prod", "MinOver", "MaxOver", "min", "max", "first", "All", "Any", "lt0", "eq0", "isfinite",
                         "isnan", "rec", "n", "nrows", "ncols", "idiv", "mod", "trunc", "T", "whole", "mm", "scal", "symmatu", "symmatl", "diagmat", "solve", "inv",
                         "chol", "argsort", "argsortd", "unique", "uniqueidx", "find", "minval", "maxval", "argmin", "argmax", "median", "percentile", "poly",
                         "binom", "draw"}


def differ(a, b):
    """do two interpreted values differ?"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return True
        kinds = {"pair", "tup", "lst", "list"}
        return any(differ(x, y) for x, y in zip(a, b) if not (isinstance(x, str) and isinstance(y, str) and {x, y} <= kinds))
    if isinstance(a, V) or isinstance(b, V):
        if not (isinstance(a, V) and isinstance(b, V)) or len(a.d) != len(b.d):
            return True
        return any(differ(x, y) for x, y in zip(a.d, b.d))
    isn = lambda x: isinstance(x, (int, mpf, mpc, Fraction, bool))
    if isn(a) and isn(b):
        x, y = num(int(a) if isinstance(a, bool) else a), num(int(b) if isinstance(b, bool) else b)
        if mpmath.isnan(x) or mpmath.isnan(y):
            return mpmath.isnan(x) != mpmath.isnan(y)
        if mpmath.isinf(x) or mpmath.isinf(y):
            return x != y
        return abs(x - y) > mpf(10) ** -22 * (1 + abs(x) + abs(y))
    if isinstance(a, Undef) or isinstance(b, Undef):
        return type(a) is not type(b)
    return str(a) != str(b)


def fkey(a):
    return ("f", a.op, str(a.args[0]) if a.args else "")


def stretched(a, b):
    """do two interpreted values differ by more than rounding, at whatever scale?"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return any(stretched(x, y) for x, y in zip(a, b))
    if isinstance(a, V) and isinstance(b, V) and len(a.d) == len(b.d):
        return any(stretched(x, y) for x, y in zip(a.d, b.d))
    isn = lambda x: isinstance(x, (int, mpf, mpc, Fraction)) and not isinstance(x, bool)
    if isn(a) and isn(b):
        x, y = num(a), num(b)
        if all(mpmath.isfinite(z) for z in (x, y)):
            return abs(x - y) > mpf(10) ** -9 * (abs(x) + abs(y))
    return differ(a, b)


DEBUG = os.environ.get("VERIF_TRACE") == "2"
STYLES = ["generic", "generic", "grid", "special", "scaled"]


def stable(k, style, code, spec, x, y):
    """a difference counts only if both values keep their digits when the precision is doubled"""
    d = mp.dps
    mp.dps = 2 * d + 10
    try:
        m = Model(k, style)
        u, v = m.ev(T.tog(code), {}), m.ev(T.tog(spec), {})
        return differ(u, v) and not differ(u, x) and not differ(v, y)
    except (NoInterp, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, AttributeError):
        return False
    finally:
        mp.dps = d


def witness(code, spec, trials=20, more=80, seconds=1.5):
    """(index of a model that tells the two values apart, how many models applied); index None if none does"""
    used = 0
    why = None
    t0 = time.monotonic()
    for k in range(more):
        if k >= trials and time.monotonic() - t0 > seconds:
            break
        style = STYLES[k % len(STYLES)]
        m = Model(k, style)
        try:
            x = m.ev(T.tog(code), {})
            y = m.ev(T.tog(spec), {})
        except (NoInterp, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, AttributeError) as e:
            why = e
            if DEBUG:
                print("  model", k, style, type(e).__name__, e)
            continue
        if differ(x, y) and not stable(k, style, code, spec, x, y):
            why = NoInterp("ill-conditioned model")
            continue
        used += 1
        if differ(x, y):
            if DEBUG:
                print("  model", k, style, "differs:", x, y)
            return k, used, None
    return None, used, why


# -- models aimed at thresholds ----------------------------------------------------------------------------

GUARDS = ("lt0", "eq0", "min", "max", "mod", "idiv", "trunc", "first")
LADDER = [Fraction(x) for x in (1, -1, 2, -2, 3, -3, 6, -6, Fraction(1, 2), Fraction(-1, 2), 4, -4, 8, -8)]
FAIL = (NoInterp, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, AttributeError)


def constants(a, out, depth=0):
    """integers mentioned in a comparison"""
    if isinstance(a, R):
        for m, c in a.terms:
            if c.denominator == 1 and 1 < abs(c) <= 2500:
                out.add(abs(int(c)))
            if depth < 3:
                for x, e in m:
                    constants(x, out, depth + 1)
    elif isinstance(a, Atom):
        if a.op in ("rec",):
            return
        for x in a.args:
            constants(x, out, depth + 1)
    elif isinstance(a, (tuple, list)):
        for x in a:
            constants(x, out, depth)


class Probe:
    """one way of moving the inputs of a model: target, part, value for a setting"""

    def __init__(self, key, part, ints=None):
        self.key, self.part, self.ints = key, part, ints

    def at(self, x):
        if self.ints is not None:
            return {self.key: ("set", x)}
        f = mpf(10) ** num(x)
        return {self.key: (self.part, f)}


def probes(atoms, guards, support):
    """inputs that can be moved, those the guards depend on first"""
    ints = set()
    for g in guards:
        constants(g.args, ints)
    near, far = [], []
    for a in sorted(atoms, key=lambda a: a.uid):
        if a.op == "sym":
            if isinstance(a.args[0], str) and LOOPSYM.match(a.args[0]) or a in T.RANGES:
                continue
            if a in SAMPLER and a not in DOMAIN:
                continue
            to = near if a in support else far
            if a.scalar and a.isint:
                lo = T.LOWER.get(a, 0)
                lo = int(lo) if lo is not None else 0
                vals = sorted({x for c in ints for x in (c - 1, c, c + 1, c + 2) if x > lo + 3} | {lo, lo + 1, lo + 4, lo + 5})
                to.append(Probe(a, "set", vals))
            elif a.scalar:
                to.append(Probe(a, "all"))
            else:
                to.append(Probe(a, "all"))
                if a not in CONJCLOSED and a.real and DOMAIN.get(a) is None:     # elements move freely
                    to.extend(Probe(a, j) for j in range(4))
        elif a.op == "draw" and a.scalar and not a.isint and not str(a.args[0]).startswith("uniform"):
            p = Probe(("draw", str(a.args[0])), "all")
            if not any(q.key == p.key for q in near + far):
                (near if a in support else far).append(p)
        elif a.op not in INTERPRETED and a.scalar and not a.isint:
            p = Probe(fkey(a), "all")
            if not any(q.key == p.key for q in near + far):
                (near if a in support else far).append(p)
    near.sort(key=lambda p: p.ints is not None)
    return near + far


def directed(code, spec, atoms, guards, support, seconds):
    """(description of a model telling the values apart or None, models used, outcomes of the guards covered).
    Inputs are scaled over many orders of magnitude and, where a guard changes its outcome, moved close to that
    change, so that a case distinction made on one side only is entered whatever its threshold."""
    code, spec = T.tog(code), T.tog(spec)
    t1 = time.monotonic() + seconds
    watch = frozenset(guards)
    used, seen, tried = 0, set(), 0

    def evaluate(k, bent, dps=None):
        d = mp.dps
        if dps:
            mp.dps = dps
        try:
            m = Model(k, "generic")
            m.watch, m.until, m.bent = watch, t1, bent
            x = m.ev(code, {})
            y = m.ev(spec, {})
            return x, y, frozenset(m.seen)
        except FAIL:
            return None
        finally:
            mp.dps = d

    def look(k, bent):
        """(signature, does the model tell them apart)"""
        nonlocal used
        e = evaluate(k, bent)
        if e is None:
            return None, False
        used += 1
        x, y, sig = e
        new = bool(sig - seen)
        seen.update(sig)
        if not stretched(x, y):
            return sig, False
        e = evaluate(k, bent, 2 * mp.dps + 10)
        if e is None or not stretched(e[0], e[1]) or stretched(e[0], x) or stretched(e[1], y):
            return sig, False
        if DEBUG:
            print("  directed model", k, {str(q): str(v) for q, v in bent.items()}, "differs:", str(x)[:200], str(y)[:200])
        return sig, True

    ps = probes(atoms, guards, support)
    for k in (0, 1, 5):
        base, hit = look(k, {})
        if hit:
            return "model %d" % k, used, seen
        for p in ps:
            if time.monotonic() > t1:
                return None, used, seen
            if p.ints is not None:
                for x in p.ints:
                    sig, hit = look(k, p.at(x))
                    if hit:
                        return "%s = %d" % (name_of(p.key), x), used, seen
                continue
            got = {Fraction(0): base}
            for x in LADDER:
                if time.monotonic() > t1:
                    break
                sig, hit = look(k, p.at(x))
                if hit:
                    return "%s scaled by 10^%s" % (name_of(p.key), x), used, seen
                got[x] = sig
            xs = sorted(got)
            for a, b in zip(xs, xs[1:]):
                if got[a] is None or got[b] is None or got[a] == got[b]:
                    continue
                sa, sb = got[a], got[b]
                for _ in range(22):
                    if time.monotonic() > t1:
                        break
                    c = (a + b) / 2
                    sc, hit = look(k, p.at(c))
                    if hit:
                        return "%s scaled by 10^%.6f" % (name_of(p.key), float(c)), used, seen
                    if sc is None:
                        break
                    if sc == sa:
                        a = c
                    else:
                        b, sb = c, sc
    return None, used, seen


def name_of(k):
    return str(k.args[0]) if isinstance(k, Atom) else " ".join(map(str, k[1:]))
