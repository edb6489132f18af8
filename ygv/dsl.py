"""Specification side: layouts of the core's binary messages written as
transparent readers that build the required value-graph normal form."""
from . import terms as t
from .terms import T, C, ZERO, TRUE
from .values import Msg, Lst, Rec, Arr, merge

DATA = t.atom("data", None, None)
PKG = ".YGOpen.Proto.Duel."


def build(I, name, d):
    """Message value of type `name` (proto full name) from nested dicts."""
    m = I.p.schema.messages[name]
    q = I.p.schema.cxx_name(name)
    if isinstance(d, Msg):
        return d
    base = d.get("__base__")
    f = {}
    case = None
    for k, v in d.items():
        if k == "__base__":
            continue
        if k == "__case__":
            case = v
            continue
        if isinstance(v, tuple) and v[0] == "optional":
            fd = m.fields[k]
            f[k] = merge(v[1], scalar(I, fd, v[2]), Msg(I.p.schema.cxx_name(fd.type_name)))
            f["?" + k] = v[1]
            continue
        fd = m.fields[k]
        if fd.repeated:
            f[k] = Lst(parts(I, fd, v))
        else:
            f[k] = scalar(I, fd, v)
        if fd.oneof:
            f["@t"] = C(fd.number)
        elif fd.type == "message" and not fd.repeated:
            f["?" + k] = TRUE
    r = Msg(q, f, base)
    if case is not None:
        rest = {k: v for k, v in d.items() if k != "__case__"}
        r = merge(case[0], build(I, name, dict(rest, **case[1])), build(I, name, dict(rest, **case[2])))
    return r


def scalar(I, fd, v):
    if fd.type == "message":
        return build(I, fd.type_name, v) if isinstance(v, dict) else v
    if isinstance(v, bool):
        v = int(v)
    return C(v) if isinstance(v, int) else v


def parts(I, fd, l):
    out = []
    for x in l:
        if isinstance(x, Rep):
            out.append(("s", x.g, x.n, x.k, tuple(parts(I, fd, x.items))))
        elif isinstance(x, When):
            out.extend(guard(x.g, parts(I, fd, x.items)))
        elif isinstance(x, Raw):
            out.append(x.p)
        else:
            out.append(("e", TRUE, scalar(I, fd, x)))
    return out


def guard(g, ps):
    from .values import guard_part
    return [guard_part(g, p) for p in ps]


class Rep:
    def __init__(self, n, k, items, g=TRUE):
        self.n, self.k, self.items, self.g = n, k, items, g


class When:
    def __init__(self, g, items):
        self.g, self.items = g, items


class Raw:
    def __init__(self, p):
        self.p = p


def nest(path, leaf):
    """'a.b.c', leaf -> {'a': {'b': {'c': leaf}}}"""
    for k in reversed(path.split(".")):
        leaf = {k: leaf}
    return leaf


LOCS = (1, 2, 4, 8, 0x10, 0x20, 0x40)


class Cur:
    """Transparent reader over the core's buffer. Every read returns the term the
    buffer denotes at that offset and records which values the core can put there."""

    def __init__(self, p=DATA):
        self.start = p
        self.p = p
        self.doms = []
        self.ks = ()
        self.depth = 0

    def dom(self, kind, a, w, *x):
        self.doms.append((kind, a, w, self.ks) + x)

    def u(self, n, sg=False, dom=None):
        v = t.mk("ld", self.p, n, sg)
        if dom:
            self.dom(dom, self.p, n)
        self.p = t.add(self.p, C(n))
        return v

    def i(self, n):
        return self.u(n, True)

    def skip(self, n):
        self.p = t.add(self.p, C(n) if isinstance(n, int) else n)

    def con(self):
        return self.u(1, dom="con")

    def flag(self):
        return t.not_(t.eqz(self.u(1, dom="bool")))

    def count(self, n):
        return self.u(n, dom="count")

    def effect(self):
        v = self.u(8, dom="effect")
        return {"code": t.cast(32, False, t.shr(v, C(20))), "index": t.band(v, C(0xFFFFF))}

    def place(self, lw=1, sw=4, pw=4):
        """Controller, location, sequence and (pw != 0) position/overlay index."""
        a = self.p
        con = self.u(1)
        loc = self.u(lw)
        seq = self.u(sw)
        pos = self.u(pw) if pw else None
        self.dom("place", a, 1 + lw + sw + pw, lw, sw, pw)
        return place_of(con, loc, seq, pos)

    def place_or_limbo(self):
        """A location record of a selection: either every card has a place or none has."""
        p = self.place()
        self.doms[-1] = self.doms[-1] + ("limbo",)
        return p

    def rep(self, n, fn, g=TRUE):
        """n repetitions of the items fn reads."""
        k = t.mk("k", self.depth)
        saved = (self.p, list(self.doms), self.ks, self.depth)
        self.depth += 1
        probe = t.atom("probe", None, None)
        self.p = probe
        fn(self)
        stride = t.sub(self.p, probe)
        assert t.is_c(stride), "variable stride"
        self.p, self.doms, self.ks, _ = saved
        p0 = self.p
        self.ks = self.ks + ((k, n),)
        self.p = t.add(p0, t.mul(k, stride))
        items = fn(self)
        self.ks = saved[2]
        self.depth = saved[3]
        self.p = t.add(p0, t.mul(n, stride))
        return Rep(n, k, items if isinstance(items, list) else [items], g)


def place_of(con, loc, seq, pos):
    low = t.band(loc, C(0xFFFFFF7F)) if t.rng(loc)[1] > 255 else t.band(loc, C(0x7F))
    r = {"con": con, "loc": fix2(low, loc, seq)[0], "seq": fix2(low, loc, seq)[1]}
    if pos is None:
        r["oseq"] = -1
    else:
        r["oseq"] = t.ite(t.eqz(t.band(loc, C(0x80))), C(-1), t.cast(32, True, pos))
    return r


def fix2(low, loc, seq):
    """Spell-zone columns 0-4 stay, 5 is the field zone, 6 and 7 are the pendulum zones."""
    sp = t.not_(t.eqz(t.band(loc, C(8))))
    lo4 = t.lt(seq, C(5))
    is5 = t.eq(seq, C(5))
    w = 8 if t.rng(seq)[1] <= 255 else 32
    moved = t.cast(w, False, t.add(t.ite(is5, seq, t.cast(w, False, t.add(seq, C(-1)))), C(-5)))
    return (t.ite(sp, t.ite(lo4, low, t.ite(is5, C(0x100), C(0x200))), low),
            t.ite(sp, t.ite(lo4, seq, moved), seq))


class Domain:
    """Presets a valuation so that the buffer is one the core can produce."""

    def __init__(self, doms, fix=()):
        self.doms = doms
        self.fix = fix

    def __call__(self, v):
        for a, n, x in self.fix:
            a = v.ev(a)
            for i in range(n):
                v.mem[a + i] = (x >> (8 * i)) & 255
        for d in self.doms:
            self.go(v, d, d[3])
        return True

    def go(self, v, d, ks):
        if ks:
            k, n = ks[0]
            m = v.ev(n)
            if m > v.MAXN:
                return
            for i in range(m):
                v.env[k] = i
                v.memo_k(k)
                self.go(v, d, ks[1:])
            v.env.pop(k, None)
            return
        kind, a, w = d[0], v.ev(d[1]), d[2]
        h = v.h("dom", a, kind)

        def put(off, n, x):
            for i in range(n):
                v.mem.setdefault(a + off + i, (x >> (8 * i)) & 255)
        if kind == "con":
            put(0, w, h % 2)
        elif kind == "bool":
            put(0, w, h % 2)
        elif kind == "count":
            big = w == 1 and v.seed % 16 == 15
            if w > 1 and v.seed % 16 == 13 and h % 3:
                put(0, w, 256 + h % 40)
            elif w > 2 and v.seed % 16 == 11 and h % 3:
                put(0, w, 65536 + h % 5)
            else:
                put(0, w, 100 + h % 156 if big else h % 4)
        elif kind == "ncount":
            put(0, w, 1 + h % 3)
        elif kind == "byte":
            put(0, w, h)
        elif kind == "effect":
            code = (h >> 20) & 0xFFFFFFFF
            put(0, w, (code << 20) | (h & 0xFFFFF if h % 3 else h % 16))
        elif kind == "enum":
            put(0, w, d[4][h % len(d[4])])
        elif kind == "term":
            put(0, w, v.ev(d[4]))
        elif kind == "place":
            lw, sw, pw = d[4:7]
            zero = v.seed % 3 == 2 if len(d) > 7 else (v.seed % 5 == 4 and h % 4 == 0)
            loc = 0 if zero else (8 if h % 3 == 0 else LOCS[(h >> 4) % len(LOCS)])
            con = (h >> 8) & 1
            if loc == 8:
                seq = (h >> 12) % 8
            elif loc == 4:
                seq = (h >> 12) % 7
            elif loc == 0:
                seq = 0
            else:
                seq = (h >> 12) % (61 if (h >> 20) % 2 else 6)
            ov = 0
            pos = (1, 2, 4, 8)[(h >> 24) % 4]
            if pw == 4 and lw == 1 and not zero and (h >> 28) % 4 == 0:
                ov, pos = 0x80, (h >> 32) % 5
            if zero:
                con = pos = 0
            put(0, 1, con)
            put(1, lw, loc | ov)
            put(1 + lw, sw, seq)
            if pw:
                put(1 + lw + sw, pw, pos)
        else:
            raise AssertionError(kind)
