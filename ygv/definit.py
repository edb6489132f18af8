"""Definite assignment of the members of local objects that were made without a value: forward dataflow over the statement tree,
joining by intersection. What may give a value (a non-const call, a reference or an address taken) counts as giving it."""
from . import lint as L


def join(a, b):
    return b if a is None else a if b is None else a & b


class Flow:
    def __init__(self, P, f, d, units):
        self.P, self.f, self.id, self.all = P, f, d["id"], frozenset(units)
        self.st = None                          # None: not reached, or the object does not exist yet
        self.loops, self.bad, self.made, self.named = [], [], False, {}

    # ---- expressions
    def expr(self, n, up=()):
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "ref" and n.get("d") == self.id:
            return self.touch(n, up)
        if k == "lambda":
            return self.closure(n)
        if k == "ref" and n.get("d") in self.named and self.st is not None:
            for g in self.named[n["d"]]:        # it is called, or may be
                self.st = self.st | self.effects(g)
        if k in ("bin", "cond") and (k == "cond" or n.get("op") in ("&&", "||")):
            first = "c" if k == "cond" else "a"
            self.expr(n.get(first), up + ((first, n),))
            s, ends = self.st, []
            for r in (("t", "e", "a", "b") if k == "cond" else ("b",)):
                if r != first and isinstance(n.get(r), dict):
                    self.st = s
                    self.expr(n[r], up + ((r, n),))
                    ends.append(self.st)
            if k == "bin":
                ends.append(s)
            self.st = None
            for e in ends:
                self.st = join(self.st, e)
            return
        order = list(L.kids(n))
        if k == "asg" or k == "call" and (self.P.F.get(n.get("f")) or {}).get("n") == "operator=":
            order.reverse()                     # the right operand first
        for r, c in order:
            self.expr(c, up + ((r, n),))

    def touch(self, n, up):
        if self.st is None:
            return
        i, path = len(up), n
        if i and up[i - 1][1].get("k") == "mem":
            i -= 1
            path = up[i][1]
        unit = path.get("n") if path is not n else None
        u = L.use(self.P, path, up[:i]) if path is not n else self.whole(n, up)
        if u == L.READS:
            missing = self.all - self.st if unit is None else ({unit} & self.all) - self.st
            if missing:
                self.bad.append((n, sorted(missing)[0]))
                self.st = self.st | missing     # report once
        else:
            self.st = self.st | (self.all if unit is None else {unit})

    def whole(self, n, up):
        if not up:
            return L.READS
        p = up[-1][1]
        if p.get("k") == "ctor" and p.get("cm"):
            return L.READS
        if p.get("k") == "expr" or p.get("k") == "cast" and p.get("ck") == "ToVoid":
            return L.UNSURE
        if p.get("k") == "call" and up[-1][0] == "this":
            return L.UNSURE
        return L.use(self.P, n, up)

    def effects(self, g, deep=0):
        """Members a lambda's body may give a value, the lambdas it calls included."""
        out = set()
        if g and g.get("body") and deep < 8:
            for m, up in L.walk(g["body"]):
                if m.get("k") == "ref" and m.get("d") == self.id:
                    mem = up[-1][1] if up and up[-1][1].get("k") == "mem" else None
                    if (L.use(self.P, mem, up[:-1]) if mem else self.whole(m, up)) != L.READS:
                        out |= {mem["n"]} if mem else self.all
                elif m.get("k") == "ref":
                    for h in self.named.get(m.get("d"), ()):
                        if h is not g:
                            out |= self.effects(h, deep + 1)
        return frozenset(out)

    def closure(self, n):
        for g in self.bodies(n):
            if self.st is not None:
                self.st = self.st | self.effects(g)

    def bodies(self, n):
        return [self.P.F[i] for i in [n.get("f")] + list(n.get("insts") or ()) if self.P.F.get(i)]

    # ---- statements
    def stmt(self, s):
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "block":
            for x in s["b"]:
                self.stmt(x)
        elif k == "decl":
            for d in s["d"]:
                self.decl(d)
        elif k == "if":
            self.stmt(s.get("init"))
            self.decl(s.get("cv"))
            self.expr(s["c"], (("c", s),))
            b = self.st
            self.stmt(s["t"])
            t, self.st = self.st, b
            self.stmt(s["e"])
            self.st = join(t, self.st)
        elif k == "switch":
            self.stmt(s.get("init"))
            self.decl(s.get("cv"))
            self.expr(s["c"], (("c", s),))
            entry, self.st = self.st, None
            self.loops.append({"s": entry, "default": False, "brk": None, "sw": True})
            self.stmt(s["b"])
            w = self.loops.pop()
            self.st = join(self.st, w["brk"])
            if not w["default"]:
                self.st = join(self.st, entry)
        elif k in ("case", "default"):
            w = [x for x in self.loops if x.get("sw")][-1]
            w["default"] |= k == "default"
            self.st = join(self.st, w["s"])
            self.stmt(s["s"])
        elif k in ("while", "for", "rfor", "do"):
            for r in ("init", "rv", "bv", "ev", "cv"):
                if isinstance(s.get(r), dict):
                    (self.stmt if r == "init" else self.decl)(s[r])
            self.loops.append({"brk": None, "cont": None})
            if k != "do":
                self.expr(s.get("c"), (("c", s),))
            out = self.st if k == "do" or isinstance(s.get("c"), dict) else None
            if k == "rfor":
                self.decl(s["v"])
            self.stmt(s["b"])
            w = self.loops[-1]
            self.st = join(self.st, w["cont"])
            if k == "do":
                self.expr(s.get("c"), (("c", s),))
                out = self.st
            elif self.st is not None:
                self.expr(s.get("inc"), (("inc", s),))
            self.loops.pop()
            self.st = join(out, w["brk"])
        elif k == "ret":
            self.expr(s.get("e"), (("e", s),))
            self.st = None
        elif k == "break":
            w = self.loops[-1]
            w["brk"] = join(w["brk"], self.st)
            self.st = None
        elif k == "continue":
            w = [x for x in self.loops if not x.get("sw")][-1]
            w["cont"] = join(w["cont"], self.st)
            self.st = None
        elif k == "label":
            self.stmt(s.get("s"))
        elif k == "ustmt":
            if self.st is not None:
                self.st = self.all
        elif k not in (None, "null"):
            self.expr(s.get("e") if k == "expr" else s, (("e", s),))

    def decl(self, d):
        if not isinstance(d, dict):
            return
        if d.get("id") == self.id:
            self.st, self.made = frozenset(), True
            return
        if isinstance(d.get("init"), dict):
            e = d["init"]
            while e.get("k") in ("mat", "cast") or e.get("k") == "ctor" and len(e["args"]) == 1:
                e = e["e"] if e["k"] != "ctor" else e["args"][0]
            if e.get("k") == "lambda":
                self.named[d["id"]] = self.bodies(e)
                return
            self.expr(d["init"], (("init", {"k": "decl", "t": d["t"]}),))


def unassigned(P, f, d, ls):
    """Reads of members of local d (top-level names of ls) that some path reaches before they have a value: [(node, member)]."""
    units = {p[0] for p in ls if p and p[0] != "[]"}
    if not units:
        return []
    F = Flow(P, f, d, units)
    F.stmt(f["body"])
    return F.bad if F.made else []
