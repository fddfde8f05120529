"""Ownership, overriding and the surface exported to Python: structural facts of the type-checked program."""
import copy
import re

import effects
import judge
from world import prog

OWNERS = ("ptr_vector", "ptr_list", "ptr_deque", "ptr_map", "ptr_array", "unique_ptr", "auto_ptr", "scoped_ptr")


def args_of(t, head):
    """first template argument of every occurrence of head<...> in a type"""
    out = []
    for m in re.finditer(r"(?<![A-Za-z_])%s<" % head, t or ""):
        depth, i = 1, m.end()
        while i < len(t) and depth:
            c = t[i]
            if c == "<":
                depth += 1
            elif c == ">":
                depth -= 1
                if not depth:
                    break
            elif c == "," and depth == 1:
                break
            i += 1
        out.append(t[m.end():i].strip())
    return out


def pointee(t):
    t = (t or "").strip()
    return t[:-1].strip().removeprefix("const ") if t.endswith("*") else None


def ancestors(C, c):
    out, todo = [], list(C[c]["bases"])
    while todo:
        b = todo.pop(0)
        if b in C and b not in out:
            out.append(b)
            todo += C[b]["bases"]
    return out


def own(prog):
    """(class, how, where) for every class the program destroys through a pointer of that class"""
    C, F = prog["classes"], prog["functions"]
    out = set()

    def types(t, where):
        for h in OWNERS:
            for x in args_of(t, h):
                out.add((x, h, where))
    for q, c in C.items():
        for f in c["fields"]:
            types(f["t"], "%s:%s %s::%s" % (judge.rel(c["file"]), f["l"], q, f["n"]))
    for f in F.values():
        for e in effects.walk([f.get("s"), f.get("inits")]):
            k = e.get("k")
            where = "%s:%s %s" % (judge.rel(f["file"]), e.get("l") or f["l"], f["q"])
            if k == "delete":
                x = pointee((e.get("e") or {}).get("t"))
                if x:
                    out.add((x, "delete", where))
            elif k == "ctor":
                t = e.get("t") or ""
                types(t, where)
                if args_of(t, "shared_ptr") and e.get("a"):
                    x = pointee(e["a"][0].get("t"))
                    if x:
                        out.add((x, "shared_ptr from a pointer", where))
            elif k == "mcall" and e.get("n") == "reset" and "shared_ptr" in str((e.get("b") or {}).get("t")) and e.get("a"):
                x = pointee(e["a"][0].get("t"))
                if x:
                    out.add((x, "shared_ptr reset", where))
    return out


def destructors(prog):
    """[(name, ok, where, detail)]"""
    C = prog["classes"]
    derived = {}
    for c in C:
        for b in ancestors(C, c):
            derived.setdefault(b, set()).add(c)
    res = {}
    for x, how, where in sorted(own(prog)):
        if x in C and derived.get(x):
            ok = bool(C[x].get("vdtor"))
            res.setdefault(x, [ok, where, set()])[2].add("%s at %s" % (how, where))
    return [("destroyed through %s (%d derived classes)" % (x, len(derived[x])), r[0], "%s:%s" % (judge.rel(C[x]["file"]), C[x]["l"]),
             "; ".join(sorted(r[2]))) for x, r in sorted(res.items())]


def methods(c):
    return [m for m in c["methods"] if not (m.get("ctor") or m.get("dtor") or m.get("implicit") or m["n"].startswith("operator"))]


def overriding(prog):
    C = prog["classes"]
    out = []
    for c in sorted(C):
        mine = methods(C[c])
        for b in ancestors(C, c):
            theirs = methods(C[b])
            for g in theirs:
                same = [m for m in mine if m["n"] == g["n"]]
                if not same:
                    continue
                where = "%s:%s %s::%s" % (judge.rel(C[c]["file"]), same[0]["l"], c, g["n"])
                name = "%s::%s specialises %s::%s(%s)" % (c, g["n"], b, g["n"], ", ".join(g["pt"]))
                if g["virt"]:
                    ok = any(m["over"] for m in same)
                    out.append((name, ok, where, None if ok else "a virtual method of the base class is hidden, not overridden"))
                elif any(m["pt"] == g["pt"] for m in same) and not g.get("static"):
                    out.append((name, False, where, "the base method is not virtual: calls through the base class do not reach this one"))
    return out


def hiding(prog):
    C = prog["classes"]
    out = []
    for c in sorted(C):
        bs = [b for b in ancestors(C, c) if C[b]["fields"]]
        if not bs or not C[c]["fields"]:
            continue
        bad = [(f["n"], b) for f in C[c]["fields"] for b in bs for g in C[b]["fields"] if f["n"] == g["n"] and f["n"]]
        out.append(("data members of %s" % c, not bad, "%s:%s %s" % (judge.rel(C[c]["file"]), C[c]["fields"][0]["l"], c),
                    "hides %s" % ", ".join("%s of %s" % x for x in bad) if bad else None))
    return out


def overridden_calls(prog):
    """a pure or virtual method reached through the base class is one the derived classes can replace"""
    E = effects.Effects(prog)
    return sum(len(E.all_over(m["f"])) for c in prog["classes"].values() for m in methods(c) if m["virt"])


def mutant(P, what):
    """the loaded program with one structural defect, to show that the rules fire"""
    C = copy.deepcopy(P["classes"])
    Q = dict(P, classes=C)
    if what == "destructor":
        for n, ok, w, dt in destructors(P):
            C[re.match(r"destroyed through (.*) \(", n).group(1)]["vdtor"] = False
            break
        return destructors(Q)
    if what == "override":
        for c in sorted(C):
            for m in methods(C[c]):
                if m["over"]:
                    m["over"] = []
                    return overriding(Q)
    if what == "member":
        for c in sorted(C):
            for b in ancestors(C, c):
                if C[b]["fields"] and C[c]["fields"]:
                    C[c]["fields"][0]["n"] = C[b]["fields"][0]["n"]
                    return hiding(Q)
    return []


def c25(run):
    P = prog()
    run.rule("a class with derived classes that is destroyed through its own pointer type (owning containers and smart pointers, delete) has a virtual destructor",
             "a method sharing its name with a virtual base method overrides it; one sharing name and parameters with a base method is not hidden behind a non-virtual",
             "no derived class declares a data member named like one of its bases'")
    groups = {"destructor": destructors(P), "override": overriding(P), "member": hiding(P)}
    for k, obs in groups.items():
        if not obs:
            raise judge.AnchorLost("no instance of the %s rule" % k)
        if not any(o[1] is False for o in mutant(P, k)):
            raise judge.AnchorLost("the %s rule does not fire on its positive example" % k)
        for o in obs:
            run.holds(*o)
    run.extra.update(classes=len(P["classes"]), functions_read=len(P["functions"]), owning_constructs=len(own(P)), overriding_methods=overridden_calls(P))
