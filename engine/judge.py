"""Obligations, comparison of value numbers, verdicts and evidence."""
import json
import os
import re
import sys
import time
import traceback

import terms as T
import arrays as A
import interp
from terms import R, G, Atom, Opaque, leaf, gapply, TRUE, FALSE, ZERO, ONE, ra, const, sel
from core import REC, Obj, Undef, Exc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")


class AnchorLost(Exception):
    pass


# -- vocabulary ------------------------------------------------------------------------------------

def walk(x, seen, out, recs=True):
    """collect every atom reachable from x, looking into recurrence systems"""
    if isinstance(x, R):
        if ("R", x.uid) in seen:
            return
        seen.add(("R", x.uid))
        for m, c in x.terms:
            for a, e in m:
                walk(a, seen, out)
    elif isinstance(x, Atom):
        if ("A", x.uid) in seen:
            return
        seen.add(("A", x.uid))
        out.add(x)
        if x.op == "E":
            for a, e in x.args[0]:
                walk(a, seen, out)
            return
        if x.op == "rec":
            rid = x.args[0]
            if ("rec", rid) not in seen:
                seen.add(("rec", rid))
                sid = REC.vars[rid][4]
                for a, i, u, at, s in REC.vars:
                    if s == sid:
                        walk(i, seen, out)
                        walk(u, seen, out)
        for y in x.args:
            walk(y, seen, out)
    elif isinstance(x, G):
        if ("G", x.uid) in seen:
            return
        seen.add(("G", x.uid))
        if x.c is None:
            walk(x.v, seen, out)
        else:
            walk(x.c, seen, out)
            walk(x.hi, seen, out)
            walk(x.lo, seen, out)
    elif isinstance(x, (tuple, list)):
        for y in x:
            walk(y, seen, out)


def atoms_of(*xs):
    out, seen = set(), set()
    for x in xs:
        walk(x, seen, out)
    return out


def is_opaque(x):
    return any(a.op in ("opaque", "opaquec") for a in atoms_of(x))


# operators whose meaning is fixed by the algebra: occurrences do not count as unknown vocabulary
KNOWN = {"sym", "let", "E", "P", "C", "pow", "sel", "slice", "store", "fill", "arr", "arr2", "Sum", "Prod", "ite", "eq0", "lt0", "le0", "abs", "real", "imag", "conj",
         "log", "pi", "inf", "nan", "I", "bv", "mm", "T", "qupd", "n", "min", "max", "concat", "vstackc", "All", "Any", "idiv", "mod", "isfinite", "isnan",
         "sin", "cos", "tan", "floor", "ceil", "trunc", "round", "lgamma", "draw", "uninit", "mu", "first", "fin", "scal", "attr", "item", "cyc", "not"}


# functions standing for operations another property decides: distinct names are distinct operations
FREE = {"logdensity", "logprior"}


def vocabulary(x):
    out = set()
    for a in atoms_of(x):
        if a.op == "call" and str(a.args[0]) in FREE:
            continue
        if a.op in ("opaque", "opaquec"):
            out.add(("opaque", str(a.args[0]) if a.args else ""))
        elif a.op == "rec":
            out.add(("rec",))
        elif a.op in ("xcall", "extobj", "after", "call", "ucall"):
            out.add((a.op, str(a.args[0])))
        elif a.op not in KNOWN:
            out.add((a.op,))
    return out


# -- comparison --------------------------------------------------------------------------------------

def canon(x):
    if isinstance(x, R):
        return A.canon(x)
    if isinstance(x, tuple):
        return tuple(canon(y) for y in x)
    return x


def same(a, b):
    """are the two leaf values equal in the algebra?"""
    if a is b:
        return True
    if isinstance(a, G) or isinstance(b, G):
        return not mismatches(T.tog(a), T.tog(b))
    if isinstance(a, bool) and isinstance(b, R):
        a = const(int(a))
    if isinstance(b, bool) and isinstance(a, R):
        b = const(int(b))
    if isinstance(a, R) and isinstance(b, R):
        return same_r(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        ta, tb = a[0] if a else None, b[0] if b else None
        if isinstance(ta, str) and isinstance(tb, str) and {ta, tb} <= {"pair", "tup", "lst", "list"}:
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a[1:], b[1:]))
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (R, tuple)) != isinstance(b, (R, tuple)):
        return False
    return a == b


def same_r(a, b):
    if a is b:
        return True
    if a.scalar != b.scalar:
        return False
    try:
        x, y = A.canon(a), A.canon(b)
    except Opaque:
        return False
    if x is y:
        return True
    if not a.scalar:
        da, db = A.dims(x), A.dims(y)
        if da is None or db is None or da[0] != db[0]:
            return False
        if any(p is not q and (p is None or q is None or not same_r(p, q)) for p, q in zip(da[1:], db[1:])):
            return False
        if da[0] == "mat":
            v, w = A.idx_sym(da[1]), A.idx_sym(da[2])
            return same_scalar(sel(x, (ra(v), ra(w))), sel(y, (ra(v), ra(w))))
        if da[0] == "row":
            x, y = T.transpose(x), T.transpose(y)
        v = A.idx_sym(da[1])
        return same_scalar(sel(x, ra(v)), sel(y, ra(v)))
    return same_scalar(x, y)


def same_scalar(x, y):
    if x is y:
        return True
    try:
        d = A.expand(x) - A.expand(y)
        if not d.terms:
            return True
        g = T.prune(T.regate(d))
        for l in g.leaves():
            if isinstance(l, R):
                if l.terms and A.expand(l).terms:
                    return False
            elif l:
                return False
        return True
    except Opaque:
        return False


def mismatches(code, spec):
    """pairs of differing leaves under jointly satisfiable conditions"""
    bad = []

    def f(a, b):
        if same(a, b):
            return True
        bad.append((a, b))
        return False
    code, spec = normg(code), normg(spec)
    if code is spec:
        return []
    g = gapply(f, code, spec)
    g = T.prune(g)
    if g is TRUE or all(l is True for l in g.leaves()):
        return []
    return bad


def normg(g):
    """expand the leaves and lift their case distinctions into the gate structure"""
    g = T.tog(g)

    def f(x):
        if isinstance(x, R) and x.scalar:
            try:
                return T.regate(A.expand(x))
            except Opaque:
                return leaf(x)
        return leaf(x)
    try:
        return T.prune(gapply(f, g))
    except Opaque:
        return g


def short(x, n=700):
    s = str(x)
    return s if len(s) <= n else s[:n] + " ..."


def deepest(a, b, depth=0):
    """smallest pair of differing subterms"""
    if depth > 12:
        return a, b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if isinstance(x, (R, tuple)) and not same(x, y):
                return deepest(x, y, depth + 1)
    if isinstance(a, R) and isinstance(b, R):
        x, y = a, b
        if not a.scalar and not b.scalar:
            da, db = A.dims(a), A.dims(b)
            if da and db and da[0] == db[0] == "col":
                v = A.idx_sym(da[1])
                return deepest(A.expand(sel(a, ra(v))), A.expand(sel(b, ra(v))), depth + 1)
        sa, sb = a.single(), b.single()
        if sa is not None and sb is not None and sa.op == sb.op == "rec" and sa.args[0] != sb.args[0]:
            va, vb = REC.vars[sa.args[0]], REC.vars[sb.args[0]]
            if not same_r(va[1], vb[1]):
                return va[1], vb[1]
            return va[2], vb[2]
        ta = {(m, c) for m, c in a.terms}
        tb = {(m, c) for m, c in b.terms}
        ra_, rb_ = ta - tb, tb - ta
        if len(ta) > len(ra_):
            try:
                return T.mkR(dict(ra_)), T.mkR(dict(rb_))
            except Exception:
                pass
    return a, b


# -- a run ------------------------------------------------------------------------------------------------

class Run:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []
        self.machines = []
        self.assumptions = []
        self.rules = set()
        self.extra = {}
        self.budget = 5
        self.limit = 600
        self.aim = 8           # seconds per obligation and per check for models aimed at thresholds
        self.aimed = 90
        self.spent = 0

    def assume(self, *xs):
        for x in xs:
            if x not in self.assumptions:
                self.assumptions.append(x)

    def rule(self, *xs):
        self.rules.update(xs)

    def add(self, name, status, anchor=None, detail=None):
        self.obl.append({"obligation": name, "status": status, "anchor": anchor, "detail": detail})
        return status

    def where(self, m, *vals):
        """source position of the construct that produced a value"""
        for v in vals:
            for l in (v.leaves() if isinstance(v, G) else [v]):
                if isinstance(l, R) and l.uid in m.origin:
                    f, ln, fn = m.origin[l.uid]
                    return "%s:%s %s" % (rel(f), ln, fn)
        return None

    def eq(self, name, thunk, anchor=None, machine=None, strict=True):
        """thunk() -> (code value, specified value); equality is the obligation"""
        t = time.time()
        bad = None
        try:
            code, spec = thunk()
            code, spec = T.tog(code), T.tog(spec)
            if code is spec:
                return self.add(name, "discharged", anchor, "identical value numbers")
            vc, vs = vocabulary(code), vocabulary(spec)
            w = None
            opaque = any(k[0] == "opaque" for k in vc | vs)
            if not opaque:
                w, used, why = interp.witness(code, spec)
            if w is None:
                T.DEADLINE[0] = time.monotonic() + self.budget
                try:
                    bad = mismatches(code, spec)
                except T.Timeout:
                    bad = None
                finally:
                    T.DEADLINE[0] = None
        except Opaque as e:
            return self.add(name, "undecided", anchor, "not summarised: %s" % e)
        except RecursionError:
            return self.add(name, "undecided", anchor, "term too deep")
        if w is None and bad == []:
            return self.add(name, "discharged", anchor, "equal normal forms, %.2fs" % (time.time() - t))
        if opaque:
            bits = sorted(str(k) for k in (vc if any(k[0] == "opaque" for k in vc) else vs) if k[0] == "opaque")[:3]
            return self.add(name, "undecided", anchor, "%s not summarised: %s" % ("value" if any(k[0] == "opaque" for k in vc) else "specification", bits))
        if w is None:
            hint, n, note = self.thresholds(code, spec)
            used += n
            if hint is not None:
                w = hint
        if w is None and used >= 8:
            return self.add(name, "discharged", anchor, "equal in %d random interpretations%s, %.2fs" % (used, note, time.time() - t))
        if w is None:
            return self.add(name, "undecided", anchor, "normal forms differ but no interpretation tells them apart (%d models%s)" % (used, "; %r" % why if why is not None else ""))
        new = {k for k in vc - vs if k[0] not in interp.INTERPRETED}
        if new and strict:
            return self.add(name, "undecided", anchor, "operations outside the specified vocabulary: %s" % sorted(map(str, new))[:5])
        T.DEADLINE[0] = time.monotonic() + 20
        try:
            bad = mismatches(code, spec) or [(code, spec)]
            a, b = deepest(*bad[0])
        except (T.Timeout, Opaque, RecursionError):
            bad = [(code, spec)]
            a, b = code, spec
        finally:
            T.DEADLINE[0] = None
        pos = None
        if machine is not None:
            pos = self.where(machine, bad[0][0], a)
        return self.add(name, "violated", pos and (anchor + " via " + pos if anchor else pos) or anchor,
                        {"code": short(a), "specified": short(b), "code_value": short(bad[0][0]), "specified_value": short(bad[0][1]),
                         "model": str(w)})

    def thresholds(self, code, spec):
        """interpretations aimed at the case distinctions made on one side only"""
        left = self.aimed - self.spent
        if left <= 0:
            return None, 0, ""
        ac, as_ = atoms_of(code), atoms_of(spec)
        guards = {a for a in ac ^ as_ if a.op in interp.GUARDS}
        if not guards:
            return None, 0, ""
        t = time.monotonic()
        hint, n, seen = interp.directed(code, spec, ac | as_, guards, atoms_of(*guards), min(self.aim, left))
        self.spent += time.monotonic() - t
        return hint, n, " (%d of them aimed at %d case distinctions)" % (n, len(guards))

    def eq_any(self, name, thunks, anchor=None, machine=None):
        """equality with one of several admissible values"""
        k = len(self.obl)
        got = []
        for t in thunks:
            got.append(self.eq(name, t, anchor, machine))
            if got[-1] == "discharged":
                break
        cand = self.obl[k:]
        del self.obl[k:]
        for status in ("discharged", "undecided", "violated"):
            for o in cand:
                if o["status"] == status:
                    self.obl.append(o)
                    return status

    def part(self, name, anchor=None):
        """decorator running one analysed scenario: code that cannot be summarised leaves its obligations undecided"""
        def go(fn):
            if time.time() - self.t0 > self.limit:
                self.add(name, "undecided", anchor, "time limit of the check")
                return
            lean = T.LEAN[0]
            try:
                fn()
            except (Opaque, RecursionError, AnchorLost, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
                self.add(name, "undecided", anchor, "not summarised: %s %s" % (type(e).__name__, e))
                if os.environ.get("VERIF_TRACE"):
                    traceback.print_exc()
            finally:
                T.LEAN[0] = lean
        return go

    def holds(self, name, ok, anchor=None, detail=None):
        """ok: True discharged, False violated, None undecided"""
        return self.add(name, {True: "discharged", False: "violated", None: "undecided"}[ok], anchor, detail)

    def guard(self, name, thunk, anchor=None):
        """run a structural obligation; unsummarised code leaves it undecided"""
        try:
            r = thunk()
        except Opaque as e:
            return self.add(name, "undecided", anchor, "not summarised: %s" % e)
        except RecursionError:
            return self.add(name, "undecided", anchor, "term too deep")
        if isinstance(r, tuple):
            return self.holds(name, r[0], r[2] if len(r) > 2 and r[2] else anchor, r[1])
        return self.holds(name, r, anchor)


def rel(f):
    f = str(f)
    return f[len(REPO) + 1:] if f.startswith(REPO + "/") else f


def known(pid):
    """obligations accepted as known findings: lines  known: property=<id> [<obligation>] <what fails>"""
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"known: property=(\w+) \[(.*?)\] (.*)", line.strip())
                if m and m.group(1) == pid:
                    out[m.group(2)] = m.group(3)
    return out


def finish(run, level, level_note):
    kf = known(run.pid)
    viol = [o for o in run.obl if o["status"] == "violated" and o["obligation"] not in kf]
    kfs = [o for o in run.obl if o["status"] == "violated" and o["obligation"] in kf]
    disch = [o for o in run.obl if o["status"] == "discharged"]
    und = [o for o in run.obl if o["status"] == "undecided"]
    inl, ext, sites = set(), set(), 0
    for m in run.machines:
        for x in m.inlined:
            inl.add(str(x[1]) if isinstance(x, tuple) else str(x))
        ext |= set(map(str, m.externals))
        sites += m.sites
    cov = {"obligations": len(run.obl), "discharged": len(disch), "undecided": len(und), "violated": len(viol) + len(kfs),
           "functions_analysed": len(inl), "functions": sorted(inl)[:200], "call_sites": sites, "rules": sorted(run.rules),
           "explanation": level_note, "obligation_list": [{k: v for k, v in o.items() if v is not None} for o in run.obl],
           "library_models": sorted(ext)[:60]}
    cov.update(run.extra)
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, run.pid + ".json")
    replay = os.path.join(EVID, run.pid + ".violation.json")
    ev = {"property": run.pid, "tier": run.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
          "wall_s": round(time.time() - run.t0, 3), "assumptions": run.assumptions, "violations": [
              {"obligation": o["obligation"], "where": o["anchor"], "detail": o["detail"]} for o in viol]}
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if os.path.exists(replay):
        os.unlink(replay)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions analysed" % (run.pid, len(run.obl), len(disch), len(und), len(viol), len(inl)))
    for o in und:
        print("  undecided %s: %s" % (o["obligation"], o["detail"]))
    for o in kfs:
        print("KNOWN-FINDING: property=%s %s" % (run.pid, kf[o["obligation"]]))
    if viol:
        with open(replay, "w") as f:
            json.dump({"property": run.pid, "violations": viol}, f, indent=1, default=str)
        for o in viol:
            print("  violated %s at %s" % (o["obligation"], o["anchor"]))
            d = o["detail"]
            if isinstance(d, dict):
                print("     code:      %s" % short(d.get("code"), 400))
                print("     specified: %s" % short(d.get("specified"), 400))
            else:
                print("     %s" % (d,))
        print("VIOLATION property=%s replay=%s" % (run.pid, replay))
        return 1
    if not disch:
        print("no obligation could be decided")
        return 2
    return 0
