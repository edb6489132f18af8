"""Rules over the syntax tree of every translation unit."""
from . import build, desc
from .interp import Prog
import glob
import os

_prog = {}


def units():
    return sorted(glob.glob(build.VERIF + "/drivers/*.cpp")) + sorted(glob.glob(build.REPO + "/src/**/*.cpp", recursive=True))


def prog(u, ndebug=False, flags=()):
    fl = tuple(flags) + (("-DNDEBUG",) if ndebug else ())
    if (u, fl) not in _prog:
        _prog[u, fl] = Prog(build.dump(u, build.cxx_flags() + list(fl) if fl else None), desc.Schema(build.ensure_pb() + "/all.desc"))
    return _prog[u, fl]


def rel(p):
    return p[len(build.REPO) + 1:] if p.startswith(build.REPO + "/") else p


def ours(p):
    return isinstance(p, str) and p.startswith(build.REPO + "/") and "/_build/" not in p


def file(P, x):
    f = x["file"]
    return P.files[f] if isinstance(f, int) else f


def where(P, f, n=None):
    return "%s:%d" % (rel(file(P, f)), (n or {}).get("l") or f["line"])


def kids(n):
    for k, v in n.items():
        if isinstance(v, dict):
            yield k, v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield k, x


def walk(n, up=()):
    """(node, ((role, parent), ...)) innermost parent last."""
    yield n, up
    for k, c in kids(n):
        yield from walk(c, up + ((k, n),))


def functions(P):
    for f in P.d["functions"]:
        if f.get("body") and ours(file(P, f)):
            yield f


def roots(f):
    for i, x in enumerate(f.get("inits") or []):
        if isinstance(x, dict):
            yield x
    yield f["body"]


# ------------------------------------------------------------ what a use of storage does to it

READS, WRITES, UNSURE = "reads", "writes", "may write"


def by_value_or_const(P, tid):
    ty = P.d["types"][tid]
    if ty["k"] in ("ref", "rref"):
        return bool(P.d["types"][ty["p"]]["c"]) if "p" in ty else False
    return True


def use(P, n, up):
    """What the context does to the storage named by expression n."""
    if not up:
        return READS
    role, p = up[-1]
    k = p.get("k")
    if k == "cast":
        if p["ck"] in ("LValueToRValue", "ToVoid"):
            return READS
        return use(P, p, up[:-1]) if p["ck"] in ("UncheckedDerivedToBase", "DerivedToBase", "ArrayToPointerDecay") else UNSURE
    if k in ("mat", "mem"):
        return use(P, p, up[:-1])
    if k == "expr":
        return READS
    if k == "idx":
        return use(P, p, up[:-1]) if role == "a" else READS
    if k == "asg":
        return WRITES if role == "a" else READS
    if k == "bin":
        return use(P, p, up[:-1]) if p["op"] == "," and role == "b" else READS
    if k == "un":
        if p["op"] in ("++", "--"):
            return WRITES
        return UNSURE if p["op"] == "&" else READS
    if k in ("call", "ctor"):
        f = P.F.get(p.get("f"))
        if f is None:
            return UNSURE
        if role == "this":
            if p.get("arrow"):
                return READS
            if f.get("const") or f["n"] in ACCESSORS:
                return READS
            return WRITES if f["n"] in MUTATORS else UNSURE
        i = [j for j, a in enumerate(p.get("args", ())) if a is n]
        if i and i[0] < len(f["params"]):
            if by_value_or_const(P, f["params"][i[0]]["t"]):
                return READS
            if not f.get("body") and f["n"] in MUTATORS:
                return WRITES
        return UNSURE
    if k == "cond":
        return use(P, p, up[:-1]) if role != "c" else READS
    if k == "rfor":
        return READS if role == "range" else UNSURE
    return UNSURE


# members of library containers, iterators, smart pointers and messages
ACCESSORS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "front", "back", "data", "size", "empty", "at", "operator*", "operator->",
             "get", "find", "top", "count", "length", "capacity", "max_size", "value", "has_value", "lower_bound", "upper_bound",
             "equal_range", "base", "operator==", "operator!=", "operator<", "operator bool"}
MUTATORS = {"push_back", "emplace_back", "pop_back", "push_front", "emplace_front", "pop_front", "erase", "insert", "emplace", "clear",
            "exchange", "swap", "operator=", "operator+=", "operator-=", "operator|=", "operator&=", "operator^=", "operator++",
            "operator--", "resize", "assign", "reset", "release", "splice", "merge", "sort", "remove", "remove_if", "reverse", "push",
            "pop", "insert_after", "erase_after", "emplace_after", "splice_after", "try_emplace", "insert_or_assign", "append", "Swap",
            "Clear", "MergeFrom", "CopyFrom", "iter_swap", "advance", "extract"}


def message_mutator(P, f):
    return f["q"].rsplit("::", 1)[0] in P.cxx and (f["n"].startswith(("set_", "add_", "mutable_", "clear_", "release_")))


# ------------------------------------------------------------ C34: assertions

def conditions(P, f):
    for r in roots(f):
        for n, up in walk(r):
            if n.get("k") == "call" and "f" in n and P.F[n["f"]]["n"] == "ygv_assert":
                yield n


class Effects:
    """Whether evaluating an expression changes anything that outlives it."""

    def __init__(self, P):
        self.P, self.memo = P, {}

    def expr(self, e, own=frozenset()):
        """(effect description | None, doubt | None)"""
        doubt = None
        for n, up in walk(e):
            k = n.get("k")
            if any(p.get("k") == "lambda" for _, p in up):
                continue                        # judged when called
            d = None
            if k == "asg" or (k == "un" and n["op"] in ("++", "--")):
                tgt = n["a"] if k == "asg" else n["e"]
                if not self.local(tgt, own):
                    return "assignment to %s" % self.name(tgt), doubt
            elif k == "delete":
                return "delete", doubt
            elif k == "new":
                d = "allocation"
            elif k in ("uexpr", "ustmt"):
                d = "construct outside the modelled subset"
            elif k == "call":
                r, d = self.call(n, own)
                if r:
                    return r, doubt
            doubt = doubt or d
        return None, doubt

    def base(self, e):
        while True:
            if e["k"] in ("mem", "cast", "mat") and not e.get("arrow") and "e" in e:
                e = e["e"]
            elif e["k"] == "mem" and not e.get("arrow") and "b" in e:
                e = e["b"]
            elif e["k"] == "idx":
                e = e["a"]
            else:
                return e

    def local(self, e, own):
        b = self.base(e)
        return b["k"] == "ref" and b.get("d") in own and not b.get("g")

    def name(self, e):
        b = self.base(e)
        return b.get("n") or e.get("n") or e.get("m") or "storage"

    def call(self, n, own):
        P = self.P
        if "f" not in n:
            return None, "indirect call"
        f = P.F[n["f"]]
        if f["n"] == "ygv_assert":
            return None, None
        if f.get("body"):
            r, d = self.function(f)
            if r:
                # a write to its own object or argument matters when that one outlives the expression
                t = n.get("this")
                if r.startswith("assignment to its own object") and t is not None and not n.get("arrow") and self.local(t, own):
                    return None, d
                return "%s, called here: %s" % (f["q"], r), d
            return None, d
        if "this" in n:
            if f.get("const") or f["n"] in ACCESSORS:
                return None, None
            if f["n"] == "operator[]":
                return (None, None) if "map" not in f["q"] else ("operator[] of a map inserts", None)
            if f["n"] in MUTATORS or message_mutator(P, f):
                if not n.get("arrow") and self.local(n["this"], own):
                    return None, None
                return "%s on %s" % (f["n"], self.name(n["this"])), None
            return None, "call of %s" % f["q"]
        if f["n"] in MUTATORS and n.get("args"):
            a = n["args"][0]
            if f["n"] in ("swap", "exchange") or f["n"].startswith("operator"):
                return (None, None) if self.local(a, own) else ("%s on %s" % (f["n"], self.name(a)), None)
        return None, None

    def function(self, f):
        if f["id"] in self.memo:
            return self.memo[f["id"]]
        self.memo[f["id"]] = (None, None)       # recursion adds nothing of its own
        own = {p["id"] for p in f["params"] if self.P.d["types"][p["t"]]["k"] not in ("ref", "rref")}
        for r in roots(f):
            for n, _ in walk(r):
                if n.get("k") == "decl":
                    own |= {d["id"] for d in n["d"] if not d.get("static") and self.P.d["types"][d["t"]]["k"] not in ("ref", "rref")}
                if n.get("k") == "lambda":
                    own |= set()
        doubt = None
        for r in roots(f):
            e, d = self.expr(r, frozenset(own))
            if e:
                if f.get("ctor"):
                    continue                    # fills the object being made
                if "storage" in e or "this" in e:
                    pass
                self.memo[f["id"]] = (e, d)
                return e, d
            doubt = doubt or d
        self.memo[f["id"]] = (None, doubt)
        return None, doubt


def skeleton(P, x, ids):
    """A function body without positions, numbering entities by first appearance."""
    if isinstance(x, dict):
        d = []
        for k, v in sorted(x.items()):
            if k in ("l", "f_", "line", "file", "id"):
                if k == "id":
                    d.append((k, ids.setdefault(("v", v), len(ids))))
                continue
            if k == "f" and isinstance(v, int):
                d.append((k, P.F[v]["sig"]))
            elif k in ("t", "ct", "at") and isinstance(v, int):
                d.append((k, P.d["types"][v]["s"]))
            elif k == "d" and isinstance(v, int):
                d.append((k, ids.setdefault(("v", v), len(ids))))
            else:
                d.append((k, skeleton(P, v, ids)))
        return tuple(d)
    if isinstance(x, list):
        return tuple(skeleton(P, v, ids) for v in x)
    return x


# ------------------------------------------------------------ C35: hidden state

STATEFUL = {"rand", "srand", "strtok", "setlocale", "localtime", "gmtime", "asctime", "ctime", "tmpnam", "setenv", "putenv", "drand48",
            "lrand48", "random", "srandom"}


def all_trees(P):
    """(function or None, where-file, tree) of every body, initialiser and global."""
    for f in functions(P):
        for r in roots(f):
            yield f, r
        for p in f["params"]:
            if isinstance(p.get("def"), dict):
                yield f, p["def"]


def global_uses(P, gid):
    for f, r in all_trees(P):
        for n, up in walk(r):
            if n.get("k") == "ref" and n.get("g") and n.get("d") == gid:
                yield f, n, use(P, n, up)


def never_written(P, gid):
    return all(u == READS for _, _, u in global_uses(P, gid))


def globals_of(P):
    for g in P.d["globals"]:
        if ours(file(P, g)):
            yield g


def constant(P, g):
    ty = P.d["types"][g["t"]]
    return bool(g["constexpr"] or g["const"] or ty["c"])


# ------------------------------------------------------------ C36: indeterminate values

def leaves(P, tid, path=(), seen=()):
    """Scalar parts left without a value when an object of that type is made without an initialiser."""
    ty = P.d["types"][tid]
    k = ty["k"]
    if k in ("int", "enum", "bool", "ptr", "float", "memptr"):
        return [path]
    if k in ("arr", "array"):
        e = ty.get("e") if isinstance(ty.get("e"), int) else ty.get("p")
        return leaves(P, e, path + ("[]",), seen) if isinstance(e, int) else []
    if k != "rec" or ty.get("q") in seen:
        return []
    if ty.get("q") == "std::array" and ty.get("a"):
        a = ty["a"][0]
        return leaves(P, a["t"], path + ("[]",), seen) if "t" in a else []
    r = P.R.get(ty.get("r"))
    if r is None or not ours(file(P, r)):
        return []
    own = [m for m in r["methods"] if m["n"] == r["q"].rsplit("::", 1)[1] and not m["implicit"]]
    for m in own:
        f = P.F.get(m["f"])
        if f is not None and not f["params"] and not f.get("defaulted"):
            return []                           # a constructor of its own, judged where it stands
    if own and not any(P.F.get(m["f"]) and not P.F[m["f"]]["params"] for m in own):
        return []                               # cannot be made without arguments
    out = []
    for x in r["fields"]:
        if not x.get("init"):
            out += leaves(P, x["t"], path + (x["n"],), seen + (ty["q"],))
    return out


def blank(P, e):
    """Initialiser that gives no value to scalars: a trivial default constructor without zeroing."""
    return e.get("k") == "ctor" and not e["args"] and e.get("def") and not e.get("zero") and not e.get("list")


def constructors(P):
    for f in functions(P):
        if f.get("ctor") and not f.get("copy") and f.get("rec") in P.R:
            yield f, P.R[f["rec"]]


def unset_fields(P, f, r):
    """(field, path) left without a value by constructor f of record r."""
    ini = {}
    for i in f.get("inits") or []:
        if "field" in i:
            ini[i["field"]] = i["e"]
        elif "base" not in i:
            return                              # delegates
    touched = {n.get("m") or n.get("n") for n, _ in walk(f["body"]) if n.get("k") == "mem"}
    for x in r["fields"]:
        e = ini.get(x["n"])
        if e is not None and not blank(P, e):
            continue
        if e is None and x.get("init"):
            continue
        ls = leaves(P, x["t"])
        if ls and x["n"] not in touched:
            yield x, ls[0]


def default_constructible(P, r):
    """Whether the record has a default constructor of the compiler's making."""
    own = [m for m in r["methods"] if m["n"] == r["q"].rsplit("::", 1)[1] and not m["implicit"] and not m["deleted"]]
    ctors = [P.F[m["f"]] for m in own if P.F.get(m["f"])]
    user = [c for c in ctors if not c.get("copy") and not c.get("move")]
    if not user:
        return True
    return any(c.get("defaulted") and not c["params"] for c in user)


def encapsulated(r):
    return any(x.get("acc", 0) != 0 for x in r["fields"])


def locals_of(P):
    for f in functions(P):
        for r in roots(f):
            for n, up in walk(r):
                if n.get("k") == "decl":
                    for d in n["d"]:
                        yield f, d


def blank_locals(P):
    """Local objects of class type made without a value, and whether some path reads a part before it has one."""
    from . import definit
    for f, d in locals_of(P):
        if d.get("static") or not isinstance(d.get("init"), dict) or not blank(P, d["init"]):
            continue
        ls = leaves(P, d["t"])
        if not ls:
            continue
        uses = [(n, up, use(P, n, up)) for r in roots(f) for n, up in walk(r) if n.get("k") == "ref" and n.get("d") == d["id"]]
        bad = [u for u in uses if u[2] == READS]
        if bad and all(u[2] == READS for u in uses):
            yield f, d, ls[0], True
            continue
        late = definit.unassigned(P, f, d, ls)
        yield f, d, (late[0][1],) if late else ls[0], bool(late)
