"""Evaluation of value-graph normal forms at abstract valuations of their leaves
(random interpretation).  Used only to separate normal forms that differ
syntactically; nothing of the analysed program is executed."""
import hashlib
import random
from . import terms as t
from .terms import T
from .values import Loc, Ptr, Rec, Msg, Obj, Lst, Arr, It, Clo, Fn, GV, Void


class Undef(Exception):
    pass


class TooBig(Exception):
    pass


def free_k(x, memo={}):
    """Bound-variable symbols occurring in term x (binders not removed; a superset is fine)."""
    r = memo.get(x)
    if r is None:
        r = frozenset()
        if x.op == "k":
            r = frozenset([x])
        else:
            st = list(x.a)
            for y in st:
                if isinstance(y, tuple):
                    st.extend(y)
                elif isinstance(y, T):
                    r |= free_k(y)
        memo[x] = r
    return r


INTEREST = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x10, 0x20, 0x40, 0x7f, 0x80, 0x84, 0x88, 0xff)


# likely values of the coordinates of an opaque place
PLACE_BIAS = {"con": (0, 1), "loc": (4, 8, 0x100, 0x200, 2, 4), "seq": (0, 1, 2), "oseq": (0, 1, -1)}


class Val:
    """One valuation."""
    MAXN = 300

    def __init__(self, seed, fixed=None, small=(), prog=None, mem=None):
        self.seed = seed
        self.rnd = random.Random(seed)
        self.fixed = dict(fixed or {})
        self.mem = dict(mem or {})
        self.memo = {}
        self.small = small          # terms that should be small counts
        self.prog = prog
        self.style = seed % 4
        self.env = {}

    def memo_k(self, k):
        pass

    def h(self, *key):
        return int.from_bytes(hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=12).digest(), "little")

    def pick(self, key, lo, hi):
        """Pseudo-random value of an unknown within [lo, hi]."""
        x = self.h(*key)
        if lo is None and hi is None:
            return (x % 4096) + 100000 * (1 + (x >> 16) % 50000)      # address-like
        if lo is None:
            lo = min(-(1 << 31), hi)
        if hi is None:
            hi = max(1 << 31, lo)
        n = hi - lo + 1
        m = (x >> 8) % 8
        r = x >> 16
        if n <= 16 or m < 2 + self.style:
            pass
        else:
            c = [v for v in INTEREST if lo <= v <= hi] + [hi, lo, lo + 1 if n > 1 else lo]
            return c[r % len(c)]
        return lo + r % n

    def byte(self, a):
        b = self.mem.get(a)
        if b is None:
            x = self.h("m", a)
            if self.style == 0:
                b = x % 4
            elif (x >> 8) % 3 == 0:
                b = (x >> 16) & 255
            elif (x >> 8) % 3 == 1:
                b = INTEREST[(x >> 16) % len(INTEREST)]
            else:
                b = 0
            self.mem[a] = b
        return b

    def ev(self, x):
        if x.op == "c":
            return x.a[0]
        fk = free_k(x)
        if fk and any(k in self.env for k in fk):
            key = (x, tuple(self.env.get(k) for k in sorted(fk, key=lambda y: y.id)))
        else:
            key = x
        r = self.memo.get(key)
        if r is None:
            r = self._ev(x)
            self.memo[key] = r
        return r

    def _ev(self, x):
        if x in self.fixed:
            return self.fixed[x]
        o, a = x.op, x.a
        if o == "a":
            if x in self.small:
                return self.h("small", a[0]) % 4
            return self.pick(("a",) + a[:1], a[1], a[2])
        if o == "k":
            if x in self.env:
                return self.env[x]
            raise Undef("unbound index")
        if o == "opq":
            raise Undef("opaque " + str(a[0]))
        if o == "sum":
            return a[0] + sum(k * self.ev(y) for y, k in a[1])
        if o == "ite":
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if o == "eqz":
            return int(self.ev(a[0]) == 0)
        if o == "ltz":
            return int(self.ev(a[0]) < 0)
        if o == "cast":
            w, sg = a[0], a[1]
            v = self.ev(a[2]) & ((1 << w) - 1)
            if sg and v >> (w - 1):
                v -= 1 << w
            return v
        if o == "ld":
            ad = self.ev(a[0])
            if x in self.small and not any((ad + i) in self.mem for i in range(a[1])):
                n = self.h("small", ad) % 4
                for i in range(a[1]):
                    self.mem[ad + i] = (n >> (8 * i)) & 255
            v = 0
            for i in range(a[1]):
                v |= self.byte(ad + i) << (8 * i)
            if a[2] and v >> (8 * a[1] - 1):
                v -= 1 << (8 * a[1])
            return v
        if o == "mul":
            return self.ev(a[0]) * self.ev(a[1])
        if o == "band":
            return self.ev(a[0]) & self.ev(a[1])
        if o == "bor":
            return self.ev(a[0]) | self.ev(a[1])
        if o == "pop":
            v = self.ev(a[0])
            if v < 0:
                raise Undef("population count of a negative value")
            return bin(v).count("1")
        if o == "bxor":
            return self.ev(a[0]) ^ self.ev(a[1])
        if o in ("shl", "shr"):
            n = self.ev(a[1])
            if n < 0 or n > 256:
                raise Undef("shift")
            return self.ev(a[0]) << n if o == "shl" else self.ev(a[0]) >> n
        if o in ("div", "mod"):
            p, q = self.ev(a[0]), self.ev(a[1])
            if q == 0:
                raise Undef("division by zero")
            d = abs(p) // abs(q)
            d = d if (p >= 0) == (q > 0) else -d
            return d if o == "div" else p - d * q
        if o in ("exists", "first", "ssum"):
            n = self.ev(a[1])
            open_ended = n == -1 and o == "first"
            if n > self.MAXN:
                raise TooBig()
            if open_ended:
                n = 60
            old = self.env.get(a[0])
            acc = 0
            try:
                for i in range(n):
                    self.env[a[0]] = i
                    v = self.ev(a[2])
                    if o == "ssum":
                        acc += v
                    elif v:
                        return i if o == "first" else 1
                if open_ended:
                    raise TooBig()
            finally:
                if old is None:
                    self.env.pop(a[0], None)
                else:
                    self.env[a[0]] = old
            return acc if o == "ssum" else (n if o == "first" else 0)
        if o == "size" or o == "lsize":
            if o == "size" and isinstance(a[0], T):
                return self.h("size", self.ev(a[0])) % 4
            raise Undef(o)
        if o == "str":
            return ("str", a[0])
        if o in ("at", "fld", "rep", "has", "case", "call", "mem", "data", "dflt", "cstr", "streq", "strlen"):
            key = (o,) + tuple(self.key(y) for y in (a if o == "call" else a[:2]))
            lo, hi = t.rng(x)
            if x in self.small:
                return self.h("small", key) % 4
            if o == "fld" and a[1] in PLACE_BIAS:
                b = PLACE_BIAS[a[1]]
                h = self.h("place", key)
                if h % 16:
                    return b[(h >> 8) % len(b)]
            return self.pick(key, lo, hi)
        raise Undef("operator " + o)

    def key(self, y):
        if isinstance(y, T):
            return self.ev(y)
        if isinstance(y, tuple):
            return tuple(self.key(z) for z in y)
        if isinstance(y, (Msg, Rec, Lst, Arr)):
            return self.val(y)
        return y

    # ------------------------------------------------------------ values

    def val(self, v, depth=0):
        if isinstance(v, T):
            return self.ev(v)
        if isinstance(v, GV):
            for g, w in v.alts:
                if self.ev(g):
                    return self.val(w, depth)
            raise Undef("no alternative")
        if isinstance(v, Msg):
            return self.msg(v, depth)
        if isinstance(v, Lst):
            return tuple(self.seq(v.p, depth))
        if isinstance(v, Arr):
            return tuple(self.val(x, depth) for x in v.e)
        if isinstance(v, Rec):
            return ("rec", v.q) + tuple((k, self.val(v.f[k], depth)) for k in sorted(v.f))
        if isinstance(v, (Ptr, Fn)):
            return ("ptr",)
        if isinstance(v, Void):
            return ("void",)
        if isinstance(v, It):
            return ("it", self.ev(v.idx))
        if isinstance(v, tuple):
            return tuple(self.val(x, depth) for x in v)
        raise Undef("value %s" % type(v).__name__)

    def seq(self, ps, depth):
        for p in ps:
            o = p[0]
            if o == "e":
                if self.ev(p[1]):
                    yield self.val(p[2], depth)
            elif o == "g":
                if self.ev(p[1]):
                    yield from self.seq(p[2], depth)
            elif o == "s":
                if self.ev(p[1]):
                    n = self.ev(p[2])
                    if n > self.MAXN:
                        raise TooBig()
                    old = self.env.get(p[3])
                    out = []
                    try:
                        for i in range(n):
                            self.env[p[3]] = i
                            out.extend(self.seq(p[4], depth))
                    finally:
                        if old is None:
                            self.env.pop(p[3], None)
                        else:
                            self.env[p[3]] = old
                    yield from out
            elif o == "sl":
                lo, hi = self.ev(p[2]), self.ev(p[3])
                if hi - lo > self.MAXN:
                    raise TooBig()
                b = self.ev(p[1])
                k = self.prog.elem_kind.get(p[1]) if self.prog is not None else None
                for i in range(lo, hi):
                    if k is not None and k[0] == "msg":
                        yield self.val(Msg(k[1], {}, t.mk("at", p[1], t.C(i), (None, None))), depth)
                    elif k is not None and k[0] == "rng":
                        yield self.ev(t.mk("at", p[1], t.C(i), k[1]))
                    elif k is not None and k[0] == "ty":
                        ty = self.prog.p.types[k[1]]
                        yield self.ev(t.mk("at", p[1], t.C(i), self.prog.trng(ty)))
                    else:
                        yield ("at", b, i)
            elif o == "rev":
                yield from reversed(list(self.seq(p[1].p, depth)))
            elif o == "op":
                yield from self.seqop(p, depth)
            else:
                raise Undef("part " + o)

    def seqop(self, p, depth):
        nm = p[1]
        l = list(self.seq(p[2].p, depth))
        if nm == "ins":
            i = self.ev(p[3])
            if not 0 <= i <= len(l):
                raise Undef("position")
            return l[:i] + list(self.seq(p[4].p, depth)) + l[i:]
        if nm == "del":
            lo, hi = self.ev(p[3]), self.ev(p[4])
            if not 0 <= lo <= hi <= len(l):
                raise Undef("range")
            return l[:lo] + l[hi:]
        if nm == "slice":
            lo, hi = self.ev(p[3]), self.ev(p[4])
            if not 0 <= lo <= hi <= len(l):
                raise Undef("range")
            return l[lo:hi]
        if nm == "set":
            i = self.ev(p[3])
            if not 0 <= i < len(l):
                raise Undef("position")
            return l[:i] + [self.val(p[4], depth)] + l[i + 1:]
        if nm == "repl":
            lo, hi = self.ev(p[3]), self.ev(p[4])
            if not 0 <= lo <= hi <= len(l):
                raise Undef("range")
            return l[:lo] + list(self.seq(p[5].p, depth)) + l[hi:]
        raise Undef("sequence operation " + nm)

    def msg(self, m, depth):
        """Canonical content: fields holding their default are dropped."""
        I = self.prog
        d = I.p.cxx.get(m.q)
        if d is None:
            raise Undef("unknown message " + m.q)
        if m.base is not None and depth > 3:
            return ("msg", self.ev(m.base))
        case = None
        if any(f.oneof for f in d.fields.values()):
            case = self.ev(I.pb_case(m))
        out = []
        for f in d.fields.values():
            if f.oneof:
                if case != f.number:
                    continue
                if f.type == "message":
                    out.append((f.name, self.val(I.pb_get(m, f), depth + (m.base is not None))))
                else:
                    out.append((f.name, self.val(I.pb_get(m, f), depth)))
                continue
            if f.name not in m.f and m.base is None and "?" + f.name not in m.f:
                continue
            if f.type == "message" and not f.repeated:
                if self.ev(I.pb_has(m, f)):
                    out.append((f.name, self.val(I.pb_get(m, f), depth + (m.base is not None))))
                continue
            v = self.val(I.pb_get(m, f), depth + (m.base is not None))
            if v == () or v == 0 or v == ("str", ""):
                continue
            out.append((f.name, v))
        out.sort(key=lambda p: p[0])
        return ("msg",) + tuple(out)
