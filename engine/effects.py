"""Call graph and field effects of the type-checked program."""

MUTATORS = {"set_size", "resize", "reshape", "fill", "zeros", "ones", "eye", "randu", "randn", "reset", "clear", "push_back", "pop_back", "insert", "erase",
            "insert_rows", "insert_cols", "shed_row", "shed_rows", "shed_col", "shed_cols", "swap", "swap_rows", "assign", "replace", "transform", "for_each",
            "imbue", "emplace_back", "copy_size", "steal_mem", "load"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="}


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def strip(t):
    t = (t or "").strip()
    if t.startswith("const "):
        t = t[6:]
    return t.rstrip("&* ").strip()


def root(e):
    """the member expression an lvalue is part of: (class, field, node) or None"""
    while isinstance(e, dict):
        k = e.get("k")
        if k == "mem":
            return e.get("o"), e["n"], e
        if k == "cast":
            e = e.get("e") or e.get("a")
            if isinstance(e, list):
                e = e[0]
        elif k == "op" and e.get("op") in ("[]", "()", "*", "->", "<<", "=", "+=", "-=", "*=", "/="):
            e = e["a"][0]
        elif k == "sub":
            e = e.get("b") or e.get("x")
        elif k == "un":
            e = e.get("e") or e.get("x")
        elif k == "mcall" and e.get("n") in ("at", "row", "col", "rows", "cols", "subvec", "submat", "head", "tail", "diag", "front", "back", "elem", "get", "begin", "end"):
            e = e.get("b")
        elif k == "asg":
            e = e.get("x")
        else:
            return None
    return None


class Effects:
    def __init__(self, prog):
        self.F, self.C = prog["functions"], prog["classes"]
        self.over = {}
        for u, f in self.F.items():
            for o in f.get("over") or []:
                self.over.setdefault(o, set()).add(u)
        self.decl = {}
        for c in self.C.values():
            for m in c["methods"]:
                for o in m.get("over") or []:
                    self.over.setdefault(o, set()).add(m["f"])
        self.calls, self.writes = {}, {}
        for u, f in self.F.items():
            self.calls[u], self.writes[u] = self.scan(f)
        self.callers = {}
        for u, cs in self.calls.items():
            for c in cs:
                self.callers.setdefault(c, set()).add(u)

    def all_over(self, f):
        out, todo = set(), [f]
        while todo:
            for g in self.over.get(todo.pop(), ()):
                if g not in out:
                    out.add(g)
                    todo.append(g)
        return out

    def scan(self, f):
        calls, writes = set(), {}
        body = [f.get("s")] + [i.get("e") for i in f.get("inits") or []]
        for n in walk(body):
            k = n.get("k")
            if k in ("call", "mcall", "op", "ctor") and n.get("f"):
                g = n["f"]
                calls.add(g)
                if n.get("virt") or k == "mcall" and (self.F.get(g) or {}).get("virt"):
                    calls |= self.all_over(g)
                for p, a in zip((self.F.get(g) or {}).get("p", []), n.get("a", []) if k != "op" or not n.get("m") else n.get("a", [])[1:]):
                    t = p.get("t", "").strip()
                    if t.endswith("&") and not t.startswith("const ") and not t.endswith("&&"):
                        self.note(writes, a, n)
            if k == "asg":
                self.note(writes, n["x"], n)
            elif k == "op" and (n.get("op") in ASSIGN or n.get("op") in ("++", "--") or n.get("op") == "<<" and "arma::" in (n.get("at") or [""])[0]):
                self.note(writes, n["a"][0], n)
            elif k == "un" and n.get("op") in ("++", "--", "post++", "post--", "pre++", "pre--"):
                self.note(writes, n.get("e") or n.get("x"), n)
            elif k == "mcall" and n.get("n") in MUTATORS:
                self.note(writes, n.get("b"), n)
            elif k == "call" and n.get("n") in ("swap", "iter_swap", "move"):
                for a in n.get("a", []):
                    self.note(writes, a, n)
        return calls, writes

    def note(self, writes, e, n):
        r = root(e)
        if r is not None:
            writes.setdefault((r[0], r[1]), n.get("l"))

    def transitive(self, f, what):
        """does f write the field, directly or through what it calls?"""
        seen, todo = set(), [f]
        while todo:
            u = todo.pop()
            if u in seen:
                continue
            seen.add(u)
            if any(w in what for w in self.writes.get(u, ())):
                return True
            todo += [c for c in self.calls.get(u, ()) if c in self.F]
        return False

    def bases(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            for b in self.C.get(x, {}).get("bases", []):
                b = strip(b if isinstance(b, str) else b.get("q"))
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def derived(self, c):
        return [x for x in self.C if c in self.bases(x)]
