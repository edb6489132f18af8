"""Hash-consed value-graph terms.

Integers are mathematical; C++ wrap-around is made explicit by `cast` nodes.
Booleans are the integers 0/1.  Gated values are ordered decision diagrams over
boolean atoms (`ite` nodes), reduced with the theory of a single linear form
compared with constants, so that equal finite case distinctions get equal nodes.
"""
import sys

sys.setrecursionlimit(20000)

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "a", "id", "_rng", "_h")

    def __repr__(self):
        return show(self)


FACTS = {}
LAYOUT = []         # [(address term, width)] of the fields whose boundaries are known
END = [None]        # address term of the end of the buffer


class Misread(Exception):
    """A read that straddles a field boundary or lies past the end of the buffer."""


def check_read(addr, n):
    for a, w in LAYOUT:
        d = sub(addr, a)
        if d.op == "c":
            d = d.a[0]
            # bytes [d, d+n) against the field [0, w): overlap without containment
            if d < w and d + n > 0 and not (d >= 0 and d + n <= w) and not (d <= 0 and d + n >= w):
                raise Misread("a %d-byte read at %s straddles the %d-byte field at %s" % (n, show(addr), w, show(a)))
    if END[0] is not None:
        d = sub(addr, END[0])
        if d.op == "c" and d.a[0] + n > 0:
            raise Misread("a %d-byte read at %s ends past the end of the message at %s" % (n, show(addr), show(END[0])))


def set_layout(fields=(), end=None):
    LAYOUT[:] = list(fields)
    END[0] = end


def set_facts(d):
    """Values assumed for leaf terms while one path class is analysed; the memo
    tables are dropped because their results depend on the assumption."""
    if d == FACTS:
        return
    FACTS.clear()
    FACTS.update(d)
    for m in (_ln_memo, _imp_memo, _r1_memo, _ite_memo, _con_memo, _modred_memo):
        m.clear()


def mk(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if FACTS and t is not None and t in FACTS:
        return FACTS[t]
    if op == "ld" and (LAYOUT or END[0] is not None):
        check_read(a[0], a[1])
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._rng = None
        t._h = None
        _tab[key] = t
    return t


def C(v):
    return mk("c", int(v))


ZERO = C(0)
ONE = C(1)
TRUE = ONE
FALSE = ZERO


def is_c(t):
    return isinstance(t, T) and t.op == "c"


def atom(name, lo=None, hi=None):
    return mk("a", name, lo, hi)


def batom(name):
    return mk("a", name, 0, 1)


def opaque(why):
    """An unknown value; anything containing one is undecided."""
    _n[0] += 1
    return mk("opq", why, _n[0])


INF = None


def rng(t):
    """(lo, hi) with None for unbounded."""
    r = t._rng
    if r is None:
        r = _rng(t)
        t._rng = r
    return r


def wrange(w, sg):
    if sg:
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return (0, (1 << w) - 1)


def _rng(t):
    o = t.op
    if o == "c":
        return (t.a[0], t.a[0])
    if o == "a":
        return (t.a[1], t.a[2])
    if o == "ld":
        return wrange(8 * t.a[1], t.a[2])
    if o == "cast":
        w, sg, x = t.a
        return wrange(w, sg)
    if o == "sum":
        lo = hi = t.a[0]
        for x, c in t.a[1]:
            l, h = rng(x)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return (lo, hi)
    if o == "ite":
        l1, h1 = rng(t.a[1])
        l2, h2 = rng(t.a[2])
        return (None if l1 is None or l2 is None else min(l1, l2),
                None if h1 is None or h2 is None else max(h1, h2))
    if o in ("eqz", "ltz", "has", "exists"):
        return (0, 1)
    if o == "pop":
        h = rng(t.a[0])[1]
        return (0, 64 if h is None else h.bit_length())
    if o == "band":
        l1, h1 = rng(t.a[0])
        l2, h2 = rng(t.a[1])
        if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0:
            hs = [h for h in (h1, h2) if h is not None]
            return (0, min(hs) if hs else None)
        for l, h in ((l1, h1), (l2, h2)):
            if l is not None and l >= 0:
                return (0, h)
        return (None, None)
    if o in ("bor", "bxor"):
        l1, h1 = rng(t.a[0])
        l2, h2 = rng(t.a[1])
        if None not in (l1, h1, l2, h2) and l1 >= 0 and l2 >= 0:
            return (0, (1 << max(h1.bit_length(), h2.bit_length())) - 1)
        return (None, None)
    if o == "shr":
        l, h = rng(t.a[0])
        if is_c(t.a[1]) and l is not None and h is not None:
            return (l >> t.a[1].a[0], h >> t.a[1].a[0])
        if l is not None and l >= 0:
            return (0, h)
        return (None, None)
    if o == "mod":
        l, h = rng(t.a[0])
        if is_c(t.a[1]) and l is not None and l >= 0:
            m = t.a[1].a[0] - 1
            return (0, m if h is None else min(m, h))
        return (None, None)
    if o == "div":
        l, h = rng(t.a[0])
        if is_c(t.a[1]) and t.a[1].a[0] > 0 and l is not None and l >= 0:
            return (0, None if h is None else h // t.a[1].a[0])
        return (None, None)
    if o == "size":
        return (0, (1 << 31) - 1)
    if o in ("fld", "at", "case"):
        return t.a[2] if o != "at" else t.a[2]
    if o in ("ssum", "lsize"):
        return (0, None) if o == "lsize" or (rng(t.a[2])[0] or 0) >= 0 and rng(t.a[2])[0] is not None else (None, None)
    if o == "typed":
        return wrange(t.a[1], t.a[2])
    if o in ("k", "first"):
        return (0, None)
    if o == "call" and t.a[-1] and isinstance(t.a[-1], tuple) and t.a[-1][:1] == ("rng",):
        return t.a[-1][1:]
    return (None, None)


# ---------------------------------------------------------------- affine


def _lin(t):
    """(const, {term: coef})"""
    if t.op == "c":
        return t.a[0], {}
    if t.op == "sum":
        return t.a[0], dict(t.a[1])
    if t.op == "ite":
        r = _ln_memo.get(t)
        if r is None:
            r = _ln_memo[t] = _lin_ite(t)
        return r[0], dict(r[1])
    return 0, {t: 1}


_ln_memo = {}


def _leaves(t, out):
    while t.op == "ite":
        _leaves(t.a[1], out)
        t = t.a[2]
    out.append(t)


def _lin_ite(t):
    """Offset and content of a gated value are pulled out, so that sums of gated
    values have one normal form: the last leaf has constant part 0, the leaves no
    common factor and the first non-zero one is positive."""
    ls = []
    _leaves(t, ls)
    if not all(x.op == "c" for x in ls):
        return 0, {t: 1}
    k = ls[-1].a[0]
    vs = [x.a[0] - k for x in ls]
    from math import gcd
    g = 0
    for v in vs:
        g = gcd(g, v)
    if next(v for v in vs if v) < 0:
        g = -g
    if k == 0 and g == 1:
        return 0, {t: 1}
    return k, {_map_leaves(t, lambda v: (v - k) // g): g}


def _map_leaves(t, f):
    if t.op == "c":
        return C(f(t.a[0]))
    return ite(t.a[0] if is_bool(t.a[0]) else t.a[0], _map_leaves(t.a[1], f), _map_leaves(t.a[2], f))


def _mksum(c, d):
    items = [(x, k) for x, k in d.items() if k != 0]
    if not items:
        return C(c)
    if len(items) == 1 and items[0][0].op == "ite" and (c or items[0][1] != 1):
        x, k = items[0]
        ls = []
        _leaves(x, ls)
        if all(y.op == "c" for y in ls):
            return _map_leaves(x, lambda v: v * k + c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk("sum", c, tuple(items))


def add(*ts):
    c = 0
    d = {}
    for t in ts:
        k, e = _lin(t)
        c += k
        for x, v in e.items():
            d[x] = d.get(x, 0) + v
    return _mksum(c, d)


def scale(t, k):
    if k == 1:
        return t
    c, d = _lin(t)
    return _mksum(c * k, {x: v * k for x, v in d.items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if is_c(a):
        return scale(b, a.a[0])
    if is_c(b):
        return scale(a, b.a[0])
    if a.id > b.id:
        a, b = b, a
    return mk("mul", a, b)


# ---------------------------------------------------------------- casts


def cast(w, sg, x):
    lo, hi = wrange(w, sg)
    l, h = rng(x)
    if l is not None and h is not None and l >= lo and h <= hi:
        return x
    if is_c(x):
        v = x.a[0] & ((1 << w) - 1)
        if sg and v >> (w - 1):
            v -= 1 << w
        return C(v)
    x2 = modred(x, w)
    if x2 is not x:
        return cast(w, sg, x2)
    if x.op == "ite":
        return ite(x.a[0], cast(w, sg, x.a[1]), cast(w, sg, x.a[2]))
    if not sg and l is not None and l >= 0 and h is not None and x.op in ("a", "band", "shr", "cast"):
        return band(x, C((1 << w) - 1))
    if not sg and pieces(x) is not None:
        return band(x, C((1 << w) - 1))
    if x.op == "sum":
        ites = [y for y, k in x.a[1] if y.op == "ite"]
        if 0 < len(ites) <= 2:
            g = min(ites, key=lambda y: y.a[0].id).a[0]
            return ite(g, cast(w, sg, restrict1(x, g, True)), cast(w, sg, restrict1(x, g, False)))
    # Assumption (recorded in DESIGN.md): a sum of non-negative quantities, each of
    # which fits, does not wrap a 32 bit or wider unsigned type.
    if w >= 32 and not sg and x.op == "sum" and l is not None and l >= 0 and all(
            rng(y)[1] is None or k < 0 or k * rng(y)[1] < 1 << w for y, k in x.a[1]):
        return x
    if w >= 32 and x.op in ("a", "size", "lsize", "ssum", "k", "first", "call") and not x_wider(x, w):
        return x
    return mk("cast", w, sg, x)


def x_wider(x, w):
    l, h = rng(x)
    # Unbounded symbolic sizes and indexes are taken to fit.
    if h is not None and h >= (1 << w):
        return True
    if l is not None and l < 0 and l < -(1 << (w - 1)):
        return True
    if l is not None and l < 0:
        return True  # possible sign change
    return False


_modred_memo = {}


def modred(x, w):
    """A simpler term congruent to x modulo 2**w."""
    key = (x, w)
    r = _modred_memo.get(key)
    if r is None:
        r = _modred(x, w)
        _modred_memo[key] = r
    return r


def _modred(x, w):
    if x.op == "cast" and x.a[0] >= w:
        return modred(x.a[2], w)
    if x.op == "sum":
        c, d = x.a[0], x.a[1]
        ts = [C(c)]
        ch = False
        for t, k in d:
            r = modred(t, w)
            ch |= r is not t
            ts.append(scale(r, k))
        return add(*ts) if ch else x
    if x.op == "mul":
        a, b = modred(x.a[0], w), modred(x.a[1], w)
        return mul(a, b)
    if x.op == "band":
        m = (1 << w) - 1
        for i in (0, 1):
            if is_c(x.a[i]) and (x.a[i].a[0] & m) == m:
                return modred(x.a[1 - i], w)
        return band(modred(x.a[0], w), modred(x.a[1], w))
    if x.op in ("bor", "bxor"):
        return mk2(x.op, modred(x.a[0], w), modred(x.a[1], w))
    return x


# ---------------------------------------------------------------- bit ops


def bits(t):
    """Mask of the bits a non-negative term may have set (None: unknown)."""
    l, h = rng(t)
    if l is None or l < 0 or h is None:
        return None
    full = (1 << h.bit_length()) - 1
    if t.op == "c":
        return t.a[0]
    if t.op == "band" and is_c(t.a[1]):
        return t.a[1].a[0] & full
    if t.op == "sum":
        ps = pieces(t)
        if ps is not None:
            r = 0
            for k, x, b in ps:
                r |= b
            return r
    return full


def pieces(t):
    """t as a sum of terms 2^k*x with disjoint bits: [(k, x, mask)], or None."""
    if t.op != "sum" or t.a[0] < 0:
        return None
    out = []
    seen = 0
    if t.a[0]:
        out.append((0, C(t.a[0]), t.a[0]))
        seen = t.a[0]
    for x, c in t.a[1]:
        if c <= 0 or c & (c - 1):
            return None
        b = bits(x)
        if b is None:
            return None
        b *= c
        if b & seen:
            return None
        seen |= b
        out.append((c.bit_length() - 1, x, b))
    return out


def mk2(op, a, b):
    if is_c(a) and is_c(b):
        x, y = a.a[0], b.a[0]
        return C({"band": x & y, "bor": x | y, "bxor": x ^ y}[op])
    if is_bool(a) and is_bool(b):
        if op == "band":
            return and_(a, b)
        if op == "bor":
            return or_(a, b)
        return ite(a, not_(b), b)
    if op == "band":
        return band(a, b)
    if a.id > b.id:
        a, b = b, a
    if op == "bor" and a is b:
        return a
    if op in ("bor", "bxor") and not (is_bool(a) and is_bool(b)):
        x, y = bits(a), bits(b)
        if x is not None and y is not None and x & y == 0:
            return add(a, b)
    if op in ("bor", "bxor"):
        if is_c(a) and a.a[0] == 0:
            return b
        if is_c(b) and b.a[0] == 0:
            return a
    for p, q in ((a, b), (b, a)):
        if p.op == "ite" and (is_c(q) or q.op == "ite"):
            if q.op == "ite":
                return _apply2(op, p, q)
            return ite(p.a[0], mk2(op, p.a[1], q), mk2(op, p.a[2], q))
    return mk(op, a, b)


def _apply2(op, p, q):
    v = p.a[0] if p.a[0].id <= q.a[0].id else q.a[0]
    p1, p0 = (p.a[1], p.a[2]) if p.op == "ite" and p.a[0] is v else (p, p)
    q1, q0 = (q.a[1], q.a[2]) if q.op == "ite" and q.a[0] is v else (q, q)
    return ite(v, mk2(op, p1, q1), mk2(op, p0, q0))


def band(a, b):
    if is_c(a) and is_c(b):
        return C(a.a[0] & b.a[0])
    if is_c(a):
        a, b = b, a
    if is_bool(a) and is_bool(b) and not is_c(b):
        return and_(a, b)
    if is_c(b):
        m = b.a[0]
        if m == 0:
            return ZERO
        l, h = rng(a)
        if m > 0 and l is not None and h is not None and l >= 0:
            full = (1 << h.bit_length()) - 1
            if (m & full) == full:
                return a
            m &= full
            if m == 0:
                return ZERO
            b = C(m)
        elif m == -1:
            return a
        if a.op == "cast" and m > 0 and m < (1 << a.a[0]):
            return band(a.a[2], b)
        if a.op == "band" and is_c(a.a[1]):
            return band(a.a[0], C(a.a[1].a[0] & b.a[0]))
        if a.op == "ite":
            return ite(a.a[0], band(a.a[1], b), band(a.a[2], b))
        if m == 1 and l == 0 and h == 1:
            return a
        if m > 0 and a.op == "sum":
            ps = pieces(a)
            if ps is not None:
                return add(*[scale(band(x, C(m >> k)), 1 << k) for k, x, _ in ps])
        if a.op == "shr" and is_c(a.a[1]) and m > 0 and rng(a.a[0])[0] is not None and rng(a.a[0])[0] >= 0:
            return shr(band(a.a[0], C(m << a.a[1].a[0])), a.a[1])
        if m > 0 and m & (m - 1) == 0:
            # a single-bit test is a gate
            return ite(mk("eqz", mk("band", a, b)), ZERO, b)
        return mk("band", a, b)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("band", a, b)


def pop(x):
    """Number of set bits of a non-negative value."""
    if is_c(x) and x.a[0] >= 0:
        return C(bin(x.a[0]).count("1"))
    if rng(x) == (0, 1):
        return x
    if x.op == "sum":
        ps = pieces(x)
        if ps is not None and all(rng(y) == (0, 1) for _, y, _ in ps):
            return add(*[y for _, y, _ in ps])
    return mk("pop", x)


def shl(a, n):
    if is_c(n) and n.a[0] >= 0:
        return scale(a, 1 << n.a[0])
    return mk("shl", a, n)


def shr(a, n):
    if is_c(n):
        k = n.a[0]
        if is_c(a):
            return C(a.a[0] >> k)
        if k == 0:
            return a
        l, h = rng(a)
        if l is not None and h is not None and l >= 0 and (h >> k) == 0:
            return ZERO
        if a.op == "ite":
            return ite(a.a[0], shr(a.a[1], n), shr(a.a[2], n))
        if l is not None and h is not None and l >= 0 and (h >> k) == 1:
            return ite(eqz(band(a, C(1 << k))), ZERO, ONE)
        if a.op == "shr" and is_c(a.a[1]):
            return shr(a.a[0], C(a.a[1].a[0] + k))
        if a.op == "band" and is_c(a.a[1]) and a.a[1].a[0] >= 0 and a.a[1].a[0] & ((1 << k) - 1):
            b = band(a.a[0], C(a.a[1].a[0] >> k << k))
            return shr(b, n)
        if a.op == "sum":
            ps = pieces(a)
            if ps is not None:
                return add(*[scale(x, 1 << (j - k)) if j >= k else shr(x, C(k - j)) for j, x, _ in ps])
    return mk("shr", a, n)


def div(a, b):
    """Truncating division; only used with non-negative dividends or constants."""
    if is_c(b) and b.a[0] != 0:
        if b.a[0] == 1:
            return a
        if is_c(a):
            q = abs(a.a[0]) // abs(b.a[0])
            return C(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
        l, h = rng(a)
        k = b.a[0]
        if l is not None and l >= 0 and k > 0 and (k & (k - 1)) == 0:
            return shr(a, C(k.bit_length() - 1))
    return mk("div", a, b)


def mod(a, b):
    if is_c(b) and b.a[0] != 0:
        if is_c(a):
            r = abs(a.a[0]) % abs(b.a[0])
            return C(r if a.a[0] >= 0 else -r)
        l, h = rng(a)
        k = b.a[0]
        if l is not None and l >= 0 and k > 0 and (k & (k - 1)) == 0:
            return band(a, C(k - 1))
        if l is not None and l >= 0 and h is not None and h < k:
            return a
    return mk("mod", a, b)


# ---------------------------------------------------------------- booleans


BOOLOPS = ("eqz", "ltz", "has", "exists")


def is_bool(t):
    return rng(t) == (0, 1) or (t.op == "c" and t.a[0] in (0, 1)) or rng(t) in ((0, 0), (1, 1))


def _gcdnorm(c, d):
    import math
    g = 0
    for v in d.values():
        g = math.gcd(g, abs(v))
    return g


def eqz(t):
    """t == 0"""
    if is_c(t):
        return TRUE if t.a[0] == 0 else FALSE
    l, h = rng(t)
    if (l is not None and l > 0) or (h is not None and h < 0):
        return FALSE
    if t.op == "ite":
        return ite(t.a[0], eqz(t.a[1]), eqz(t.a[2]))
    if is_bool(t):
        return not_(t)
    c, d = _lin(t)
    if len(d) == 1:
        (x, k), = d.items()
        if x.op == "ite":
            return ite(x.a[0], eqz(add(C(c), scale(x.a[1], k))), eqz(add(C(c), scale(x.a[2], k))))
        if c % k != 0:
            return FALSE
        v = -c // k
        if is_bool(x):
            return x if v == 1 else (not_(x) if v == 0 else FALSE)
        l, h = rng(x)
        if (l is not None and v < l) or (h is not None and v > h):
            return FALSE
        # equality of a same-width reinterpretation with a constant
        if x.op == "cast":
            w, sg, y = x.a
            ly, hy = rng(y)
            lo2, hi2 = wrange(w, not sg)
            if ly is not None and hy is not None and ly >= lo2 and hy <= hi2:
                return eqz(sub(y, C(v % (1 << w) if not sg is False else (v if v <= hi2 else v - (1 << w)))))
        return mk("eqz", add(x, C(-v)))
    if all(x.op == "a" and x.a[1:] == (0, 1) for x in d) and len(set(d.values())) == len(d) and c <= 0 and \
            all(k > 0 and k & (k - 1) == 0 for k in d.values()):
        # a word of independent bits against a constant: bit by bit
        if -c & ~sum(d.values()):
            return FALSE
        return and_(*[x if -c & k else not_(x) for x, k in d.items()])
    g = _gcdnorm(c, d)
    if g > 1:
        if c % g:
            return FALSE
        c //= g
        d = {x: k // g for x, k in d.items()}
    lead = min(d, key=lambda x: x.id)
    if d[lead] < 0:
        c, d = -c, {x: -k for x, k in d.items()}
    # difference of two gated values sharing gates
    ites = [x for x in d if x.op == "ite"]
    if ites and len(ites) <= 3:
        x = min(ites, key=lambda y: y.a[0].id)
        g0 = x.a[0]
        hi = _mksum(c, d)
        return ite(g0, eqz(cof(hi, g0, True)), eqz(cof(hi, g0, False)))
    return mk("eqz", _mksum(c, d))


def cof(t, v, val):
    """Cofactor of affine/gated t with atom v."""
    return restrict1(t, v, val)


def eq(a, b):
    return eqz(sub(a, b))


def ltz(t):
    """t < 0"""
    if is_c(t):
        return TRUE if t.a[0] < 0 else FALSE
    l, h = rng(t)
    if l is not None and l >= 0:
        return FALSE
    if h is not None and h < 0:
        return TRUE
    c, d = _lin(t)
    ites = [x for x in d if x.op == "ite"]
    if ites and len(ites) <= 3:
        x = min(ites, key=lambda y: y.a[0].id)
        g0 = x.a[0]
        return ite(g0, ltz(restrict1(t, g0, True)), ltz(restrict1(t, g0, False)))
    if len(d) == 1:
        (x, k), = d.items()
        # k*x + c < 0
        if k > 0:
            bound = -((c) // k) if True else 0  # x < -c/k  <=> x < ceil(-c/k)
            b = -(c // k)
            # x < -c/k ; integers: x <= ceil(-c/k)-1 ; ceil(-c/k) = -(c//k)
            return _cmp_const(x, b)
        k = -k
        # -k x + c < 0  <=> x > c/k <=> x >= floor(c/k)+1 <=> not x < floor(c/k)+1
        return not_(_cmp_const(x, c // k + 1))
    g = _gcdnorm(c, d)
    if g > 1:
        d = {x: k // g for x, k in d.items()}
        c = -((-c) // g)  # c/g: sum + c < 0 <=> sum < -c <=> sum/g < ceil(-c/g)
        # sum' < ceil(-c0/g) <=> sum' - ceil(-c0/g) < 0 ; ceil(-c0/g) = -(c0//g)
        c0 = t.a[0]
        c = (c0 // g)
    lead = min(d, key=lambda x: x.id)
    if d[lead] < 0:
        return not_(mk("ltz", _mksum(-c - 1, {x: -k for x, k in d.items()})))
    return mk("ltz", _mksum(c, d))


def _cmp_const(x, b):
    """x < b"""
    l, h = rng(x)
    if l is not None and l >= b:
        return FALSE
    if h is not None and h < b:
        return TRUE
    if is_bool(x):
        return not_(x) if b == 1 else (TRUE if b > 1 else FALSE)
    if l is not None and b == l + 1:
        return eqz(sub(x, C(l)))
    if h is not None and b == h:
        return not_(eqz(sub(x, C(h))))
    return mk("ltz", add(x, C(-b)))


def lt(a, b):
    return ltz(sub(a, b))


def le(a, b):
    return not_(lt(b, a))


def not_(g):
    return ite(g, FALSE, TRUE)


def and_(*gs):
    r = TRUE
    for g in gs:
        r = ite(g, r, FALSE) if r is not FALSE else FALSE
    return r


def or_(*gs):
    r = FALSE
    for g in gs:
        r = ite(g, TRUE, r)
    return r


# -------------------------------------------- decision diagrams with theory


def _key(v):
    """(linear-form key, const c) of x + c (eqz/ltz) for single-form theory."""
    x = v.a[0]
    if x.op == "sum":
        return x.a[1], -x.a[0]
    return ((x, 1),), 0


_imp_memo = {}


def implied(v, val, w):
    """Value of atom w implied by atom v == val, or None."""
    if v is w:
        return val
    if v.op not in ("eqz", "ltz") or w.op not in ("eqz", "ltz"):
        return None
    kv, c = _key(v)
    kw, k = _key(w)
    if kv != kw:
        return None
    if v.op == "eqz":
        if val:
            return (k == c) if w.op == "eqz" else (c < k)
        return None
    if val:  # x < c
        if w.op == "eqz":
            return False if k >= c else None
        return True if k >= c else None
    # x >= c
    if w.op == "eqz":
        return False if k < c else None
    return False if k <= c else None


_r1_memo = {}


def restrict1(t, v, val):
    """t under the assumption that atom v has value val."""
    if not isinstance(t, T) or t.op in ("c", "a", "k"):
        if t is v:
            return TRUE if val else FALSE
        return t
    key = (t, v, val)
    r = _r1_memo.get(key)
    if r is not None:
        return r
    if t is v:
        r = TRUE if val else FALSE
    elif t.op == "ite":
        i = implied(v, val, t.a[0])
        if i is True:
            r = restrict1(t.a[1], v, val)
        elif i is False:
            r = restrict1(t.a[2], v, val)
        else:
            a, b = restrict1(t.a[1], v, val), restrict1(t.a[2], v, val)
            r = t if a is t.a[1] and b is t.a[2] else ite(t.a[0], a, b)
    elif t.op == "sum":
        ts = [C(t.a[0])]
        ch = False
        for x, k in t.a[1]:
            y = restrict1(x, v, val)
            ch |= y is not x
            ts.append(scale(y, k))
        r = add(*ts) if ch else t
    elif t.op in ("eqz", "ltz"):
        i = implied(v, val, t)
        r = t if i is None else (TRUE if i else FALSE)
    elif t.op == "cast":
        y = restrict1(t.a[2], v, val)
        r = t if y is t.a[2] else cast(t.a[0], t.a[1], y)
        if r.op == "cast" and not r.a[1] and v.op == "ltz":
            d = sub(r.a[2], sub(C(-1), v.a[0]) if val else v.a[0])   # the cast value is at least d
            h = rng(r.a[2])[1]
            if is_c(d) and d.a[0] >= 0 and (h < 1 << r.a[0] if h is not None else r.a[0] >= 64):
                r = r.a[2]
    else:
        r = t
    _r1_memo[key] = r
    return r


def _mkite(v, a, b):
    a = restrict1(a, v, True)
    b = restrict1(b, v, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return v
    if restrict1(b, v, True) is a:
        return b
    if restrict1(a, v, False) is b:
        return a
    if v.op in ("eqz", "ltz") and a.op in ("c", "a", "sum") and b.op in ("c", "a", "sum"):
        w, x, y = _edge(v, a, b)
        if x is y or w is not v:
            return ite(w, x, y)
    return mk("ite", v, a, b)


_ite_memo = {}


def _top(t):
    """Decision atom at the top of t (None for a leaf)."""
    if t.op == "ite":
        return t.a[0]
    if t.op in BOOLOPS or (t.op != "c" and rng(t) == (0, 1)):
        return t
    return None


def _co(t, v, val):
    if t is v:
        return TRUE if val else FALSE
    if t.op == "ite":
        if t.a[0] is v:
            return t.a[1] if val else t.a[2]
        return restrict1(t, v, val)
    return restrict1(t, v, val)


def boolnf(x):
    """A truth value written as 1 - b, as a decision on b."""
    if x.op == "sum" and x.a[0] == 1 and len(x.a[1]) == 1:
        (b, k), = x.a[1]
        if k == -1 and b.op != "ite" and is_bool(b):
            return mk("ite", b, FALSE, TRUE)
    return x


def ite(g, a, b):
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if a is b:
        return a
    g = boolnf(g)
    if is_bool(a) and is_bool(b):
        a, b = boolnf(a), boolnf(b)
    key = (g, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    # bool leaf atoms count as decision nodes only in boolean position
    tops = [_top(g)]
    if a.op == "ite":
        tops.append(a.a[0])
    if b.op == "ite":
        tops.append(b.a[0])
    boolv = is_bool(a) and is_bool(b)
    if boolv:
        for x in (a, b):
            tx = _top(x)
            if tx is not None:
                tops.append(tx)
    tops = [x for x in tops if x is not None]
    assert tops, (g, a, b)
    v = min(tops, key=lambda x: x.id)
    r = _mkite(v, ite(_co(g, v, True), _co(a, v, True), _co(a, v, True)) if False else
               ite(_co(g, v, True), _co(a, v, True), _co(b, v, True)),
               ite(_co(g, v, False), _co(a, v, False), _co(b, v, False)))
    _ite_memo[key] = r
    return r


def _edge(g, a, b):
    """The case where both arms agree goes to one fixed side: x < y ? x : y and x <= y ? x : y are one."""
    v, flip = g, False
    if g.op == "ite" and g.a[1] is FALSE and g.a[2] is TRUE:
        v, flip = g.a[0], True
    if v.op not in ("ltz", "eqz"):
        return g, a, b
    x, y = (b, a) if flip else (a, b)
    d, m = sub(y, x), v.a[0]
    if is_c(d):
        return g, a, b
    cd, dd = _lin(d)
    cm, dm = _lin(m)
    if len(dd) != len(dm) or any(u not in dd for u in dm):
        return g, a, b
    u = next(iter(dm))
    if any(dd[w] * dm[u] != dm[w] * dd[u] for w in dm) or cd * dm[u] != cm * dd[u]:
        return g, a, b
    if v.op == "eqz":
        return TRUE, y, y
    v = ltz(add(m, C(-1)))
    return v, x, y


def gate(g, a, b):
    """Merge of two integer terms under g, factoring common affine parts."""
    if a is b or g is TRUE:
        return a
    if g is FALSE:
        return b
    if is_bool(a) and is_bool(b):
        return ite(g, a, b)
    g, a, b = _edge(g, a, b)
    if a is b:
        return a
    ca, da = _lin(a)
    cb, db = _lin(b)
    common = {}
    for x, k in da.items():
        if db.get(x) == k and x.op != "ite":
            common[x] = k
        elif db.get(x) == k:
            common[x] = k
    if common:
        ra = _mksum(ca, {x: k for x, k in da.items() if x not in common})
        rb = _mksum(cb, {x: k for x, k in db.items() if x not in common})
        return add(_mksum(0, common), ite(g, ra, rb))
    return ite(g, a, b)


_con_memo = {}


def constrain(t, care):
    """A term equal to t wherever care holds (Coudert-Madre style restrict)."""
    if care is TRUE or not isinstance(t, T) or t.op in ("c", "k"):
        return t
    if care is FALSE:
        return t
    key = (t, care)
    r = _con_memo.get(key)
    if r is not None:
        return r
    r = _constrain(t, care)
    _con_memo[key] = r
    return r


def _constrain(t, care):
    if t.op == "sum":
        ts = [C(t.a[0])]
        ch = False
        for x, k in t.a[1]:
            y = constrain(x, care)
            ch |= y is not x
            ts.append(scale(y, k))
        return add(*ts) if ch else t
    if t.op == "cast":
        y = constrain(t.a[2], care)
        return t if y is t.a[2] else cast(t.a[0], t.a[1], y)
    tv = _top(t)
    if tv is None:
        return t
    cv = _top(care)
    if cv is None:
        return t
    v = tv if tv.id <= cv.id else cv
    c1, c0 = _co(care, v, True), _co(care, v, False)
    t1, t0 = _co(t, v, True), _co(t, v, False)
    if c1 is FALSE:
        return constrain(t0, c0)
    if c0 is FALSE:
        return constrain(t1, c1)
    if v is not tv:
        # t does not test v: quantify v out of care
        return constrain(t, or_(c1, c0)) if t1 is t and t0 is t else _mkite(v, constrain(t1, c1), constrain(t0, c0))
    return _mkite(v, constrain(t1, c1), constrain(t0, c0))


def disjoint(a, b):
    return and_(a, b) is FALSE


# ---------------------------------------------------------------- substitution

BINDERS = ("first", "exists", "ssum")   # (bound k, count, body)


def subst(t, m, memo=None):
    """Rebuild t with the mapping m (term -> term)."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    r = m.get(t)
    if r is not None:
        return r
    if t.op in ("c", "a", "k", "opq"):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS and t.a[0] in m:
        m2 = {k: v for k, v in m.items() if k is not t.a[0]}
        na = (t.a[0], subst(t.a[1], m, memo)) + tuple(subst(x, m2) for x in t.a[2:])
    elif t.op in BINDERS:
        na = (t.a[0],) + tuple(subst(x, m, memo) for x in t.a[1:])
    else:
        na = tuple(subst(x, m, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
    if all(x is y or x == y for x, y in zip(na, t.a)):
        r = t
    else:
        r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "sum":
        return add(C(a[0]), *[scale(x, k) for x, k in a[1]])
    if op == "ite":
        return gate(a[0], a[1], a[2])
    if op == "eqz":
        return eqz(a[0])
    if op == "ltz":
        return ltz(a[0])
    if op == "cast":
        return cast(*a)
    if op in ("band", "bor", "bxor"):
        return mk2(op, a[0], a[1])
    if op == "mul":
        return mul(*a)
    if op == "shl":
        return shl(*a)
    if op == "shr":
        return shr(*a)
    if op == "div":
        return div(*a)
    if op == "mod":
        return mod(*a)
    if op == "arr":
        return arr_at(a[0], a[1])
    return mk(op, *a)


def arr_at(vals, idx):
    """Constant table lookup."""
    if is_c(idx):
        i = idx.a[0]
        if 0 <= i < len(vals):
            return vals[i]
        return opaque("table index out of range")
    r = vals[-1]
    for i in range(len(vals) - 2, -1, -1):
        r = gate(eq(idx, C(i)), vals[i], r)
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def has_opaque(t):
    if not isinstance(t, T):
        return False
    r = t._h
    if r is None:
        r = any(x.op == "opq" for x in walk(t))
        t._h = r
    return r


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "..."
    o = t.op
    if o == "c":
        return str(t.a[0])
    if o == "a":
        return str(t.a[0])
    if o == "opq":
        return "?%s" % (t.a[0],)
    if o == "sum":
        s = []
        for x, k in t.a[1]:
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + show(x, d + 1))
        if t.a[0]:
            s.append(str(t.a[0]))
        return "(" + " + ".join(s) + ")"
    if o == "ld":
        return "%s%d[%s]" % ("i" if t.a[2] else "u", 8 * t.a[1], show(t.a[0], d + 1))
    if o == "ite":
        return "(%s ? %s : %s)" % (show(t.a[0], d + 1), show(t.a[1], d + 1), show(t.a[2], d + 1))
    if o == "eqz":
        return "%s==0" % show(t.a[0], d + 1)
    if o == "ltz":
        return "%s<0" % show(t.a[0], d + 1)
    if o == "cast":
        return "(%s%d)%s" % ("i" if t.a[1] else "u", t.a[0], show(t.a[2], d + 1))
    if o == "fld":
        return "%s.%s" % (show(t.a[0], d + 1), t.a[1])
    if o == "at":
        return "%s[%s]" % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if o == "k":
        return "k%s" % (t.a[0],)
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in t.a))
