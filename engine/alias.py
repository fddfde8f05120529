"""Ownership of values in the Python layer: which expressions may share memory with the state of an object.

A value is a set of labels: "D" a container or attribute of the object, "S" an array (or a view of one) held by it,
"U" not known, and none at all for a fresh value. Statements are followed in order, branches are joined.
"""
import ast

FRESH_METHODS = {"copy", "astype", "flatten", "sum", "mean", "std", "var", "min", "max", "prod", "argmax", "argmin", "argsort", "tolist", "dot", "cumsum", "round",
                 "any", "all", "conj", "conjugate", "repeat", "nonzero", "take", "clip", "__deepcopy__", "__copy__", "compress", "keys"}
VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "diagonal", "get", "values", "items", "setdefault", "pop"}
FRESH_NUMPY = {"array", "copy", "concatenate", "vstack", "hstack", "column_stack", "stack", "sort", "append", "zeros", "ones", "empty", "zeros_like", "ones_like", "empty_like",
               "full", "arange", "linspace", "mean", "median", "std", "var", "percentile", "sqrt", "exp", "log", "log10", "abs", "absolute", "dot", "sum", "cumsum", "percentile",
               "where", "take", "tile", "repeat", "insert", "delete", "unique", "diff", "cov", "real_if_close", "array_split", "negative", "square", "power", "add", "multiply",
               "subtract", "divide", "copyto", "fromiter", "outer", "roll", "flipud_copy", "argmax", "argmin", "argsort", "cos", "sin", "int", "random"}
VIEW_NUMPY = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d", "squeeze", "reshape", "ravel", "transpose", "real", "imag",
              "swapaxes", "expand_dims", "flipud", "fliplr", "flip", "diagonal", "require", "broadcast_to", "moveaxis", "rollaxis"}
IN_PLACE = {"sort", "fill", "resize", "partition", "itemset", "put", "setflags", "byteswap"}
EMPTY = frozenset()
U = frozenset("U")
LIMIT = 6


class Alias:
    def __init__(self, modules):
        """modules: name -> ast.Module"""
        self.classes, self.funcs, self.numpy, self.copies = {}, {}, {"np", "numpy"}, {"copy"}
        for name, mod in modules.items():
            for x in mod.body:
                if isinstance(x, ast.ClassDef):
                    self.classes[x.name] = x
                elif isinstance(x, ast.FunctionDef):
                    self.funcs[x.name] = x
                elif isinstance(x, ast.Import):
                    for a in x.names:
                        if a.name == "numpy":
                            self.numpy.add(a.asname or a.name)
        self.effects = []          # (function, line, what) writes into memory held by the object
        self.count = 0

    def bases(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in self.classes and x not in out:
                out.append(x)
                todo += [b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", None) for b in self.classes[x].bases]
        return out

    def method(self, cls, name):
        for c in self.bases(cls):
            for x in self.classes[c].body:
                if isinstance(x, ast.FunctionDef) and x.name == name:
                    return c, x
        return None

    # -- functions --------------------------------------------------------
    def returns(self, fn, cls, args, depth=0, kwargs=None):
        """labels of what the function returns; args are the labels of its parameters"""
        if depth > LIMIT:
            return U
        self.count += 1
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        env = {n: EMPTY for n in names}
        env.update({n: v for n, v in zip(names, args)})
        env.update(kwargs or {})
        fr = Frame(self, fn, cls, names[0] if cls and names else None, depth)
        fr.block(fn.body, env)
        return fr.out


class Frame:
    def __init__(self, a, fn, cls, this, depth):
        self.a, self.fn, self.cls, self.this, self.depth, self.out = a, fn, cls, this, depth, EMPTY

    def join(self, a, b):
        return {k: a.get(k, EMPTY) | b.get(k, EMPTY) for k in set(a) | set(b)}

    def block(self, body, env):
        """environment after the statements, or None when control does not get there"""
        for s in body:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.out |= self.ev(s.value, env)
            return None
        if isinstance(s, (ast.Raise, ast.Break, ast.Continue)):
            return None if isinstance(s, ast.Raise) else env
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s.value)
            return env
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                if "S" in env.get(s.target.id, EMPTY):
                    self.effect(s, "%s changed in place" % s.target.id)
            elif isinstance(s.target, ast.Subscript) and "S" in self.ev(s.target, env) | self.ev(s.target.value, env):
                self.effect(s, "%s changed in place" % ast.unparse(s.target)[:60])
            return env
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = self.block(s.body, dict(env)), self.block(s.orelse, dict(env))
            return b if a is None else a if b is None else self.join(a, b)
        if isinstance(s, (ast.For, ast.While)):
            for _ in range(2):
                e = dict(env)
                if isinstance(s, ast.For):
                    v = self.ev(s.iter, e)
                    self.assign(s.target, frozenset("S") if "D" in v else v, e)
                else:
                    self.ev(s.test, e)
                e = self.block(s.body, e)
                if e is not None:
                    env = self.join(env, e)
            return self.block(s.orelse, env) if s.orelse else env
        if isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(env))
            env = self.join(env, a) if a is not None else env
            for h in s.handlers:
                b = self.block(h.body, dict(env))
                env = self.join(env, b) if b is not None else env
            env = self.block(s.orelse, env)
            return self.block(s.finalbody, env) if env is not None and s.finalbody else env
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        return env

    def effect(self, node, what):
        self.a.effects.append(("%s.%s" % (self.cls, self.fn.name) if self.cls else self.fn.name, node.lineno, what))

    def assign(self, t, v, env, value=None):
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, parts):
                self.assign(x, self.ev(y, env) if y is not None else v, env, y)
        elif isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Subscript):
            if "S" in self.ev(t.value, env):
                self.effect(t, "element of %s assigned" % ast.unparse(t.value)[:60])
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    # -- expressions ------------------------------------------------------
    def ev(self, e, env):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Lambda)):
            return EMPTY
        if isinstance(e, ast.Name):
            if e.id == self.this:
                return EMPTY
            return env.get(e.id, EMPTY)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.this:
                return frozenset("D")
            v = self.ev(e.value, env)
            if e.attr in ("shape", "size", "ndim", "dtype", "nbytes"):
                return EMPTY
            return frozenset("S") if "D" in v and e.attr in ("real", "imag", "T", "flat") else v
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            if "D" in b:
                b = (b - frozenset("D")) | frozenset("S")
                return b
            if b and not self.basic(e.slice):
                return U               # copies or not, depending on the index
            return b
        if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Compare)):
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x, env)
            return EMPTY
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.ev(x, env) for x in e.values])
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return frozenset().union(*[self.ev(x, env) for x in e.elts])
        if isinstance(e, ast.Dict):
            return frozenset().union(*[self.ev(x, env) for x in e.values if x is not None])
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            inner = dict(env)
            for g in e.generators:
                v = self.ev(g.iter, inner)
                self.assign(g.target, frozenset("S") if "D" in v else v, inner)
            return self.ev(e.value if isinstance(e, ast.DictComp) else e.elt, inner)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Slice):
            return EMPTY
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.assign(e.target, v, env)
            return v
        return U

    @staticmethod
    def basic(i):
        xs = i.elts if isinstance(i, ast.Tuple) else [i]
        for x in xs:
            if isinstance(x, (ast.Slice, ast.Constant)):
                continue
            if isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant):
                continue
            if isinstance(x, ast.Attribute) and x.attr == "newaxis" or isinstance(x, ast.Name) and x.id == "newaxis":
                continue
            return False
        return True

    def call(self, e, env):
        args = [self.ev(x, env) for x in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        every = frozenset().union(*args, *kws.values())
        for k in e.keywords:
            if k.arg == "out" and "S" in kws["out"]:
                self.effect(e, "%s written through out=" % ast.unparse(k.value)[:60])
        nocopy = any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords)
        f = e.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == self.this and self.cls:
                m = self.a.method(self.cls, f.attr)
                if m:
                    return self.a.returns(m[1], self.cls, [EMPTY] + args, self.depth + 1, {k: v for k, v in kws.items() if k})
                return U
            top = f.value
            path = [f.attr]
            while isinstance(top, ast.Attribute):
                path.append(top.attr)
                top = top.value
            if isinstance(top, ast.Name) and top.id in self.a.numpy and top.id not in env:
                if f.attr in ("shuffle",) and args and "S" in args[0]:
                    self.effect(e, "shuffled in place")
                if f.attr in VIEW_NUMPY or f.attr == "array" and nocopy:
                    return frozenset("S") if "D" in every else every
                if f.attr in FRESH_NUMPY or not every:
                    return EMPTY
                return U
            if isinstance(top, ast.Name) and top.id in self.a.copies and top.id not in env and f.attr in ("copy", "deepcopy"):
                return frozenset("D") if f.attr == "copy" and "D" in every else EMPTY
            r = self.ev(f.value, env)
            if f.attr in IN_PLACE and "S" in r:
                self.effect(e, "%s changed in place by %s" % (ast.unparse(f.value)[:60], f.attr))
                return EMPTY
            if f.attr == "copy" and "D" in r and not isinstance(f.value, ast.Subscript):
                return frozenset("D")       # shallow copy of a container
            if f.attr in FRESH_METHODS and not nocopy:
                return EMPTY
            if f.attr in VIEW_METHODS or f.attr in FRESH_METHODS:
                return frozenset("S") if "D" in r else r
            return U if r | every else EMPTY
        if isinstance(f, ast.Name):
            if f.id in ("list", "tuple", "dict", "sorted", "reversed", "zip", "enumerate", "map", "filter", "set", "iter", "next"):
                return every
            if f.id in ("len", "float", "int", "complex", "bool", "str", "print", "range", "xrange", "min", "max", "abs", "sum", "isinstance", "round"):
                return EMPTY
            if f.id in self.a.funcs and f.id not in env:
                return self.a.returns(self.a.funcs[f.id], None, args, self.depth + 1, {k: v for k, v in kws.items() if k})
            if f.id in ("deepcopy",):
                return EMPTY
            return U if every else EMPTY
        return U if every else EMPTY
