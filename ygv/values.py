"""Abstract values other than terms, and their guarded merge."""
from . import terms as t
from .terms import T


class Loc:
    """An lvalue: a storage root and an access path."""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Loc) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return "Loc(%s%s)" % (self.root, "".join("." + str(p) for p in self.path))

    def sub(self, step):
        return Loc(self.root, self.path + (step,))


class Ptr:
    """A non-null pointer to an lvalue."""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.lv == o.lv

    def __hash__(self):
        return hash(("Ptr", self.lv))

    def __repr__(self):
        return "&%r" % (self.lv,)


class Rec:
    """A C++ class object (bases flattened). base: opaque origin or None."""
    __slots__ = ("q", "f", "base")

    def __init__(self, q, f=None, base=None):
        self.q = q
        self.f = f or {}
        self.base = base

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Rec(self.q, d, self.base)

    def __eq__(self, o):
        return isinstance(o, Rec) and self.f == o.f and self.base is o.base

    def __hash__(self):
        return hash(frozenset(self.f))

    def __repr__(self):
        return "Rec %s%r" % (self.q, self.f)


class Msg:
    """A protobuf message. f maps field -> value, '?field' -> presence,
    '@oneof' -> case number term."""
    __slots__ = ("q", "f", "base")

    def __init__(self, q, f=None, base=None):
        self.q = q
        self.f = f or {}
        self.base = base

    def set(self, *kv):
        d = dict(self.f)
        for i in range(0, len(kv), 2):
            if kv[i + 1] is None:
                d.pop(kv[i], None)
            else:
                d[kv[i]] = kv[i + 1]
        return Msg(self.q, d, self.base)

    def __eq__(self, o):
        return isinstance(o, Msg) and self.q == o.q and self.f == o.f and self.base is o.base

    def __hash__(self):
        return hash((self.q, frozenset(self.f)))

    def __repr__(self):
        return "Msg %s%r" % (self.q, self.f)


class Obj:
    """Reference to a heap object owned by a list (element of a container)."""
    __slots__ = ("root",)

    def __init__(self, root):
        self.root = root

    def __eq__(self, o):
        return isinstance(o, Obj) and self.root == o.root

    def __hash__(self):
        return hash(("Obj", self.root))

    def __repr__(self):
        return "Obj(%s)" % (self.root,)


class Lst:
    """A sequence: parts are
       ('sl', T list, lo, hi)      slice of an opaque list
       ('e', guard, value)         one element, present when guard
       ('s', guard, count, k, parts)  parts repeated for k in [0, count)
       ('rev', Lst)                reversed sequence
       ('op', name, args...)       an operation with no closed form
    """
    __slots__ = ("p",)

    def __init__(self, parts=()):
        self.p = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Lst) and self.p == o.p

    def __hash__(self):
        return hash(len(self.p))

    def __repr__(self):
        return "Lst%r" % (self.p,)


class Arr:
    """A fixed-size array."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __eq__(self, o):
        return isinstance(o, Arr) and self.e == o.e

    def __hash__(self):
        return hash(len(self.e))

    def __repr__(self):
        return "Arr%r" % (self.e,)


class It:
    """Iterator: position idx from the start (or from the end when rev)."""
    __slots__ = ("lv", "idx", "rev")

    def __init__(self, lv, idx, rev=False):
        self.lv = lv
        self.idx = idx
        self.rev = rev

    def __eq__(self, o):
        return isinstance(o, It) and self.lv == o.lv and self.idx is o.idx and self.rev == o.rev

    def __hash__(self):
        return hash(("It", self.lv, self.idx))

    def __repr__(self):
        return "It(%r,%r%s)" % (self.lv, self.idx, ",rev" if self.rev else "")


class Clo:
    __slots__ = ("node", "env", "this", "parent")

    def __init__(self, node, env, this):
        self.node = node
        self.env = env
        self.this = this
        self.parent = None


class Fn:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Fn) and self.f == o.f

    def __hash__(self):
        return hash(("Fn", self.f))


class GV:
    """Guarded alternatives (disjoint guards)."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __eq__(self, o):
        return isinstance(o, GV) and self.alts == o.alts

    def __hash__(self):
        return hash(self.alts)

    def __repr__(self):
        return "GV%r" % (self.alts,)


class Void:
    def __repr__(self):
        return "void"


VOID = Void()


def gv(alts):
    """Normalise guarded alternatives."""
    out = []
    for g, v in alts:
        if g is t.FALSE:
            continue
        if isinstance(v, GV):
            for g2, v2 in v.alts:
                g3 = t.and_(g, g2)
                if g3 is not t.FALSE:
                    out.append((g3, v2))
        else:
            out.append((g, v))
    m = []
    for g, v in out:
        for i, (h, w) in enumerate(m):
            if w is v or (type(w) is type(v) and not isinstance(v, T) and w == v):
                m[i] = (t.or_(h, g), w)
                break
        else:
            m.append((g, v))
    if len(m) == 1:
        return m[0][1]
    if m and all(isinstance(v, T) for g, v in m):
        r = m[-1][1]
        for g, v in reversed(m[:-1]):
            r = t.gate(g, v, r)
        return r
    m.sort(key=lambda x: x[0].id)         # disjoint: their order says nothing
    return GV(m)


def guard_part(g, p):
    if p[0] == "e":
        return ("e", t.and_(g, p[1]), p[2])
    if p[0] == "s":
        return ("s", t.and_(g, p[1])) + p[2:]
    if p[0] == "g":
        return ("g", t.and_(g, p[1]), p[2])
    return ("g", g, (p,))


def norm_parts(ps):
    out = []
    for p in ps:
        if p[0] in ("e", "s", "g") and p[1] is t.FALSE:
            continue
        if p[0] == "s" and t.is_c(p[2]) and p[2].a[0] <= 0:
            continue
        if p[0] == "s" and not p[4]:
            continue
        if p[0] == "sl" and p[2] is p[3]:
            continue
        if p[0] == "g" and p[1] is t.TRUE:
            out.extend(p[2])
            continue
        if p[0] == "sl" and out and out[-1][0] == "sl" and out[-1][1] is p[1] and out[-1][3] is p[2]:
            out[-1] = ("sl", p[1], out[-1][2], p[3])
            continue
        # complementary single elements are one element
        if p[0] == "e" and out and out[-1][0] == "e" and p[1] is not t.TRUE and \
                p[1] is t.not_(out[-1][1]):
            q = out[-1]
            out[-1] = ("e", t.TRUE, merge(q[1], q[2], p[2]))
            continue
        out.append(p)
    return tuple(out)


def merge_lst(g, a, b):
    pa, pb = a.p, b.p
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] == pb[i]:
        i += 1
    pre, ra, rb = pa[:i], pa[i:], pb[i:]
    # pairwise merge of plain elements
    out = list(pre)
    while ra and rb and ra[0][0] == "e" and rb[0][0] == "e" and ra[0][1] is t.TRUE and rb[0][1] is t.TRUE:
        out.append(("e", t.TRUE, merge(g, ra[0][2], rb[0][2])))
        ra, rb = ra[1:], rb[1:]
    out += [guard_part(g, p) for p in ra]
    ng = t.not_(g)
    out += [guard_part(ng, p) for p in rb]
    return Lst(norm_parts(out))


def merge(g, a, b):
    """Value that is a when g, b otherwise."""
    if a is b or g is t.TRUE:
        return a
    if g is t.FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T):
        return t.gate(g, a, b)
    if type(a) is type(b):
        if not isinstance(a, T) and a == b:
            return a
        if isinstance(a, Rec):
            if a.base is b.base:
                ks = set(a.f) | set(b.f)
                if set(a.f) == set(b.f):
                    return Rec(a.q, {k: merge(g, a.f[k], b.f[k]) for k in ks}, a.base)
                if a.base is not None:
                    d = {}
                    for k in ks:
                        d[k] = merge(g, a.f[k] if k in a.f else msg_default(a, k, b.f.get(k)),
                                     b.f[k] if k in b.f else msg_default(b, k, a.f.get(k)))
                    return Rec(a.q, d, a.base)
        elif isinstance(a, Msg):
            if a.q == b.q and a.base is b.base:
                d = {}
                for k in set(a.f) | set(b.f):
                    x, y = a.f.get(k), b.f.get(k)
                    if x is None:
                        x = msg_default(a, k, y)
                    if y is None:
                        y = msg_default(a, k, x)
                    d[k] = merge(g, x, y)
                return Msg(a.q, d, a.base)
        elif isinstance(a, Lst):
            return merge_lst(g, a, b)
        elif isinstance(a, Arr) and len(a.e) == len(b.e):
            return Arr(merge(g, x, y) for x, y in zip(a.e, b.e))
        elif isinstance(a, It) and a.lv == b.lv and a.rev == b.rev:
            return It(a.lv, t.gate(g, a.idx, b.idx), a.rev)
    if isinstance(a, GV) or isinstance(b, GV) or True:
        return gv([(g, a), (t.not_(g), b)])


HOOK = [None]


def msg_default(m, k, other):
    """Default content of field key k of message m, shaped like `other`."""
    if HOOK[0] is not None:
        return HOOK[0](m, k, other)
    return raw_default(m, k, other)


def raw_default(m, k, other):
    if m.base is not None:
        if k[0] == "?":
            return t.mk("has", m.base, k[1:])
        if k[0] == "@":
            return t.mk("case", m.base, k[1:])
        return t.mk("fld", m.base, k, t.rng(other) if isinstance(other, T) else (None, None))
    if isinstance(other, Msg):
        return Msg(other.q)
    if isinstance(other, Lst):
        return Lst()
    if isinstance(other, Obj) or isinstance(other, GV):
        return t.opaque("merge of absent object")
    if isinstance(other, T) and other.op == "str":
        return t.mk("str", "")
    return t.ZERO


def vmap(v, g, fn):
    """Applies fn to the alternatives of v that are possible under g."""
    if isinstance(v, GV):
        alts = []
        for h, w in v.alts:
            h = t.constrain(h, g)
            if t.and_(h, g) is t.FALSE:
                continue
            alts.append((h, fn(w)))
        return gv(alts)
    return fn(v)


# ---------------------------------------------------------------- traversal


def _without(m, k):
    if k in m:
        m = {x: y for x, y in m.items() if x is not k}
    return m


class Subst:
    """Capture-aware substitution over values. m maps terms to terms; keys
    ("lst", atom) map an opaque sequence to the parts that replace it."""

    def __init__(self, m):
        self.m = m
        self.tm = {k: v for k, v in m.items() if isinstance(k, T)}
        self.ls = {k[1]: v for k, v in m.items() if not isinstance(k, T)}
        self.memo = {}
        self.tmemo = {}

    def t(self, x):
        return t.subst(x, self.tm, self.tmemo)

    def __call__(self, v):
        if isinstance(v, T):
            return self.t(v)
        r = self.memo.get(id(v))
        if r is not None:
            return r[1]
        r = self.go(v)
        self.memo[id(v)] = (v, r)
        return r

    def go(self, v):
        if isinstance(v, (Rec, Msg)):
            d = {}
            ch = False
            for k, x in v.f.items():
                y = self(x)
                ch |= y is not x
                d[k] = y
            b = v.base
            if b is not None:
                b = self.t(b)
                ch |= b is not v.base
            return type(v)(v.q, d, b) if ch else v
        if isinstance(v, Lst):
            return self.lst(v)
        if isinstance(v, Arr):
            e = [self(x) for x in v.e]
            return Arr(e) if any(x is not y for x, y in zip(e, v.e)) else v
        if isinstance(v, It):
            lv, i = self.loc(v.lv), self.t(v.idx)
            return v if lv is v.lv and i is v.idx else It(lv, i, v.rev)
        if isinstance(v, Ptr):
            lv = self.loc(v.lv)
            return v if lv is v.lv else Ptr(lv)
        if isinstance(v, Loc):
            return self.loc(v)
        if isinstance(v, GV):
            return gv([(self.t(g), self(x)) for g, x in v.alts])
        if isinstance(v, tuple):
            return tuple(self(x) for x in v)
        return v

    def loc(self, l):
        r = l.root
        if r[0] == "x":
            x = self.t(r[1])
            if x is not r[1]:
                r = ("x", x)
        p = tuple((s[0], self.t(s[1])) if isinstance(s, tuple) and isinstance(s[1], T) else s for s in l.path)
        if r is l.root and all(a is b or a == b for a, b in zip(p, l.path)):
            return l
        return Loc(r, p)

    def lst(self, v):
        out = []
        ch = False
        for p in v.p:
            q = self.part(p)
            ch |= len(q) != 1 or q[0] is not p
            out.extend(q)
        return Lst(norm_parts(out)) if ch else v

    def part(self, p):
        """Replacement parts of p."""
        o = p[0]
        if o == "sl":
            c = self.ls.get(p[1])
            if c is not None:
                if p[2] is t.ZERO and p[3] is t.mk("size", p[1]):
                    return c
                return (("op", "slice", Lst(c), self.t(p[2]), self.t(p[3])),)
            a, lo, hi = self.t(p[1]), self.t(p[2]), self.t(p[3])
            if a is p[1] and lo is p[2] and hi is p[3]:
                return (p,)
            return (("sl", a, lo, hi),)
        if o == "e":
            g, x = self.t(p[1]), self(p[2])
            return (p,) if g is p[1] and x is p[2] else (("e", g, x),)
        if o == "g":
            g = self.t(p[1])
            ps = tuple(y for x in p[2] for y in self.part(x))
            if g is p[1] and all(x is y for x, y in zip(ps, p[2])) and len(ps) == len(p[2]):
                return (p,)
            return (("g", g, ps),)
        if o == "s":
            g, n = self.t(p[1]), self.t(p[2])
            sub = self
            if p[3] in self.tm:
                sub = Subst(_without(self.m, p[3]))
            ps = tuple(y for x in p[4] for y in sub.part(x))
            return (("s", g, n, p[3], ps),)
        if o == "rev":
            l = self.lst(p[1])
            return (p,) if l is p[1] else (("rev", l),)
        return (tuple(x if isinstance(x, str) else self(x) for x in p),)


def vsubst(v, m):
    if not m:
        return v
    return Subst(m)(v)


def freeze(v, S):
    """v with heap references replaced by their contents in state S."""
    if isinstance(v, T) or v is None:
        return v
    if isinstance(v, Obj):
        return freeze(S.m[v.root], S)
    if isinstance(v, Ptr):
        return v
    if isinstance(v, (Rec, Msg)):
        return type(v)(v.q, {k: freeze(x, S) for k, x in v.f.items()}, v.base)
    if isinstance(v, Lst):
        return Lst(freeze_part(p, S) for p in v.p)
    if isinstance(v, Arr):
        return Arr(freeze(x, S) for x in v.e)
    if isinstance(v, GV):
        return gv([(g, freeze(x, S)) for g, x in v.alts])
    return v


def freeze_part(p, S):
    if p[0] == "e":
        return ("e", p[1], freeze(p[2], S))
    if p[0] == "g":
        return ("g", p[1], tuple(freeze_part(x, S) for x in p[2]))
    if p[0] == "s":
        return p[:4] + (tuple(freeze_part(x, S) for x in p[4]),)
    if p[0] == "rev":
        return ("rev", freeze(p[1], S))
    if p[0] == "op":
        return tuple(freeze(x, S) if not isinstance(x, str) else x for x in p)
    return p


def vterms(v):
    """Top-level terms of a value."""
    if isinstance(v, T):
        yield v
    elif isinstance(v, (Rec, Msg)):
        if v.base is not None:
            yield v.base
        for x in v.f.values():
            yield from vterms(x)
    elif isinstance(v, Lst):
        for p in v.p:
            yield from pterms(p)
    elif isinstance(v, Arr):
        for x in v.e:
            yield from vterms(x)
    elif isinstance(v, GV):
        for g, x in v.alts:
            yield g
            yield from vterms(x)
    elif isinstance(v, It):
        yield from vterms(v.lv)
        yield v.idx
    elif isinstance(v, Ptr):
        yield from vterms(v.lv)
    elif isinstance(v, Loc):
        if v.root[0] == "x":
            yield v.root[1]
        for s in v.path:
            if isinstance(s, tuple):
                yield from vterms(s[1])
    elif isinstance(v, tuple):
        for x in v:
            yield from vterms(x)


def pterms(p):
    for x in p[1:]:
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    yield from pterms(y)
                else:
                    yield from vterms(y)
        elif not isinstance(x, str):
            yield from vterms(x)


def vwalk(v):
    seen = set()
    for x in vterms(v):
        yield from t.walk(x, seen)
