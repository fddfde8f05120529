"""Shared set-up: symbolic inputs, machines, specification modules."""
import ast
import os

import terms as T
import arrays as A
import cxx
import dump
import interp
import judge
import pyfe
from core import State, Obj
from terms import leaf, R

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ARMA = "arma::Col<double>"
STD = "std::vector<double"

n = T.sym("n", isint=True, nonneg=True)
p = T.sym("p", isint=True, nonneg=True)
T.LOWER[n.single()] = 2
T.LOWER[p.single()] = 2


def pos(name):
    """positive parameter"""
    r = T.sym(name)
    A.POSITIVE.add(r.single())
    return r


def roots(name, size):
    """roots of a real polynomial"""
    r = T.sym(name, scalar=False, size=size, real=False)
    interp.CONJCLOSED.add(r.single())
    return r


def vec(name, size, real=True):
    return T.sym(name, scalar=False, size=size, real=real)


t = vec("t", n)
y = vec("y", n)
yerr = vec("yerr", n)
A.INCREASING.add(t.single())
A.POSITIVE.add(yerr.single())

_prog = None


def prog():
    global _prog
    if _prog is None:
        _prog = dump.load()
    return _prog


def machine(run, **kw):
    m = cxx.Cxx(prog(), **kw)
    run.machines.append(m)
    return m


def spec(run=None):
    d = os.path.join(HERE, "spec")
    mods = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            path = os.path.join(d, f)
            with open(path) as fh:
                mods[f[:-3]] = (path, ast.parse(fh.read(), path))
    return pyfe.Py(mods)


def repo_py(run):
    d = os.path.join(dump.ROOT, "src", "carmcmc")
    mods = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            path = os.path.join(d, f)
            with open(path) as fh:
                mods[f[:-3]] = (path, ast.parse(fh.read(), path))
    m = pyfe.Py(mods)
    run.machines.append(m)
    return m


def ctor(cls, types):
    """usr of the constructor of cls whose parameter types match the given substrings"""
    c = prog()["classes"].get(cls)
    if c is None:
        raise judge.AnchorLost("class " + cls)
    for mt in c["methods"]:
        if mt.get("ctor") and len(mt.get("pt") or []) == len(types) and all(x in y for x, y in zip(types, mt["pt"])):
            return mt["f"]
    raise judge.AnchorLost("constructor %s(%s)" % (cls, ", ".join(types)))


def new(m, cls, types, args, st, name=None):
    return m.construct(cls, ctor(cls, types), [("val", leaf(x)) for x in args], st, obj=Obj(name, cls, exact=True) if name else None)


def at(cls, name):
    """file:line of a method for reports"""
    pr = prog()
    seen = set()
    todo = [cls]
    while todo:
        c = todo.pop(0)
        if c in seen or c not in pr["classes"]:
            continue
        seen.add(c)
        for mt in pr["classes"][c]["methods"]:
            if mt["n"] == name and mt["f"] in pr["functions"]:
                f = pr["functions"][mt["f"]]
                return "%s:%s %s" % (judge.rel(f["file"]), f["l"], f["q"])
        todo += [b if isinstance(b, str) else b.get("q", b.get("n")) for b in pr["classes"][c].get("bases", [])]
    return "%s::%s" % (cls, name)


def part(g, k):
    """component k of a pair- or tuple-valued result"""
    return T.gapply(lambda v: v[k], g)
