"""Comparison of two normal forms."""
from . import terms as t
from .terms import T
from .values import Loc, Ptr, Rec, Msg, Obj, Lst, Arr, It, GV, vwalk, pterms
from .evalt import Val, Undef, TooBig


class Result:
    def __init__(self, status, detail="", path="", a=None, b=None):
        self.status = status        # "equal" | "differ" | "undecided"
        self.detail = detail
        self.path = path
        self.a, self.b = a, b

    def __repr__(self):
        return "%s %s %s" % (self.status, self.path, self.detail)


def canon_case(I, m, pc):
    c = I.pb_case(m)
    return t.constrain(c, pc)


def same(I, a, b, pc):
    """Syntactic equality of normal forms under pc."""
    if a is b:
        return True
    if isinstance(a, T) and isinstance(b, T):
        x, y = t.constrain(a, pc), t.constrain(b, pc)
        if x is y:
            return True
        return t.constrain(t.not_(t.eq(x, y)), pc) is t.FALSE if not (x.op == "str" or y.op == "str") else False
    if isinstance(a, Msg) and isinstance(b, Msg):
        if a.q != b.q:
            return False
        if a.base is not b.base and (a.base is not None or b.base is not None):
            if a.base is not None and b.base is not None:
                return False
        for k in set(a.f) | set(b.f):
            x, y = a.f.get(k), b.f.get(k)
            if x is None:
                x = I.dflt_key(a, k, y)
            if y is None:
                y = I.dflt_key(b, k, x)
            pc2 = pc
            if not same(I, x, y, pc2):
                return False
        return a.base is b.base
    if isinstance(a, Lst) and isinstance(b, Lst):
        if len(a.p) != len(b.p):
            return False
        return all(same_part(I, p, q, pc) for p, q in zip(a.p, b.p))
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.q == b.q and a.base is b.base and set(a.f) == set(b.f) and all(same(I, a.f[k], b.f[k], pc) for k in a.f)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return len(a.e) == len(b.e) and all(same(I, x, y, pc) for x, y in zip(a.e, b.e))
    if isinstance(a, GV) and isinstance(b, GV):
        return a == b
    if type(a) is type(b):
        return a == b
    return False


def same_part(I, p, q, pc):
    if p is q or p == q:
        return True
    if p[0] != q[0]:
        return False
    if p[0] == "e":
        return same(I, p[1], q[1], pc) and same(I, p[2], q[2], t.and_(pc, p[1]))
    if p[0] == "g":
        return same(I, p[1], q[1], pc) and len(p[2]) == len(q[2]) and \
            all(same_part(I, x, y, pc) for x, y in zip(p[2], q[2]))
    if p[0] == "s":
        if not (same(I, p[1], q[1], pc) and same(I, p[2], q[2], pc) and len(p[4]) == len(q[4])):
            return False
        from .values import Subst
        qs = q[4]
        if p[3] is not q[3]:
            s = Subst({q[3]: p[3]})
            qs = tuple(y for x in qs for y in s.part(x))
            if len(qs) != len(p[4]):
                return False
        return all(same_part(I, x, y, pc) for x, y in zip(p[4], qs))
    if p[0] == "sl":
        return all(same(I, x, y, pc) for x, y in zip(p[1:], q[1:]))
    if p[0] == "rev":
        return same(I, p[1], q[1], pc)
    return False


def counts(v, out):
    """Terms that bound repetition in value v."""
    def parts(ps):
        for p in ps:
            if p[0] == "s":
                for x in t.walk(p[2]):
                    if x.op in ("ld", "a", "call", "fld", "at"):
                        out.add(x)
                parts(p[4])
            elif p[0] == "g":
                parts(p[2])
            elif p[0] == "e":
                go(p[2])
            elif p[0] == "rev":
                parts(p[1].p)
            elif p[0] == "op":
                for x in p[2:]:
                    go(x)

    def go(v):
        if isinstance(v, (Rec, Msg)):
            for x in v.f.values():
                go(x)
        elif isinstance(v, Lst):
            parts(v.p)
        elif isinstance(v, Arr):
            for x in v.e:
                go(x)
        elif isinstance(v, GV):
            for g, x in v.alts:
                go(x)
    go(v)
    for x in vwalk(v):
        if x.op in ("exists", "first", "ssum"):
            for y in t.walk(x.a[1]):
                if y.op in ("ld", "a", "call", "fld", "at"):
                    out.add(y)


def diffpath(x, y, p=""):
    """First differing path of two evaluated values."""
    if x == y:
        return None
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0] == "msg" and \
            all(isinstance(e, tuple) for e in x[1:] + y[1:]):
        dx, dy = dict(x[1:]), dict(y[1:])
        for k in sorted(set(dx) | set(dy)):
            if k not in dx:
                return p + "." + k, "(absent)", brief(dy[k])
            if k not in dy:
                return p + "." + k, brief(dx[k]), "(absent)"
            r = diffpath(dx[k], dy[k], p + "." + k)
            if r:
                return r
    if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == ("rec",) and y[:1] == ("rec",) and x[1] == y[1]:
        dx, dy = dict(x[2:]), dict(y[2:])
        for k in sorted(set(dx) | set(dy)):
            r = diffpath(dx.get(k), dy.get(k), p + "." + k)
            if r:
                return r
    if isinstance(x, tuple) and isinstance(y, tuple) and (not x or x[0] not in ("msg", "rec")):
        if len(x) != len(y):
            return p + ".size()", len(x), len(y)
        for i, (e, f) in enumerate(zip(x, y)):
            r = diffpath(e, f, p + "[%d]" % i)
            if r:
                return r
    return p, brief(x), brief(y)


def brief(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


def compare(I, a, b, pc, n=240, fixed=None, mem=None, pre=None, small=()):
    """Compare two values under path condition pc.
    pre(val): preset a valuation; may return False to skip it."""
    if same(I, a, b, pc):
        return Result("equal")
    sm = set(small)
    counts(a, sm)
    counts(b, sm)
    for x in t.walk(pc):
        pass
    done = 0
    err = None
    for seed in range(n * 3):
        if done >= n:
            break
        v = Val(seed, fixed, sm, I, mem)
        try:
            if pre is not None and pre(v) is False:
                continue
            for x in sorted(sm, key=lambda y: y.id):
                if not any(y.op == "k" for y in t.walk(x)):
                    try:
                        v.ev(x)
                    except (Undef, TooBig):
                        pass
            if not v.ev(pc):
                continue
            x, y = v.val(a), v.val(b)
        except TooBig:
            continue
        except Undef as e:
            err = str(e)
            done += 1
            if done > 12 and err is not None:
                return Result("undecided", err)
            continue
        done += 1
        if x != y:
            d = diffpath(x, y) or ("", brief(x), brief(y))
            return Result("differ", "got %s, required %s" % (d[1], d[2]), d[0].lstrip("."), x, y)
    import os
    if os.environ.get("YGVDBG"): print("DBG", t.show(a)[:600], "\n  REQ", t.show(b)[:600])
    return Result("undecided", err or "normal forms differ but no separating valuation was found (%d tried)" % done)


def satisfiable(I, c, at, n=200):
    """A valuation (with the given values) makes the condition true."""
    if c.op == "c":
        return bool(c.a[0])
    for seed in range(n):
        v = Val(seed, None, set(), I, None)
        v.memo.update(at)
        try:
            if v.ev(c):
                return True
        except (Undef, TooBig):
            pass
    return False
