"""Abstract interpreter over the dumped, resolved AST.

The abstract domain is a gated value graph (terms.py / values.py).  Control-flow
joins merge states; loops are solved as recurrences (or unrolled when their trip
count is a constant); nothing is executed on concrete inputs.
"""
from . import terms as t
from .terms import T, C, ZERO, ONE, TRUE, FALSE
from . import values
from .values import (Loc, Ptr, Rec, Msg, Obj, Lst, Arr, It, Clo, Fn, GV, VOID, gv, merge, norm_parts, msg_default,
                     vsubst, freeze, freeze_part, vwalk, Subst)


class Fault(Exception):
    """The code certainly misbehaves here, whatever follows."""

    def __str__(self):
        return "FAULT: " + Exception.__str__(self)


class Unsupported(Exception):
    pass


class Prog:
    def __init__(self, d, schema):
        self.d = d
        self.types = d["types"]
        self.F = {f["id"]: f for f in d["functions"]}
        self.R = {r["id"]: r for r in d["records"]}
        self.G = {g["id"]: g for g in d["globals"]}
        self.files = d["files"]
        self.byq = {}
        for f in d["functions"]:
            self.byq.setdefault(f["q"], []).append(f)
        self.schema = schema
        self.cxx = schema.cxx() if schema else {}
        self.enums = {e["q"]: {v["n"]: int(v["v"]) for v in e["vals"]} for e in d["enums"]}

    def fns(self, q):
        return self.byq.get(q, [])

    def ty(self, i):
        return self.types[i]

    def nonref(self, i):
        ty = self.types[i]
        while ty["k"] in ("ref", "rref"):
            i = ty["p"]
            ty = self.types[i]
        return i


class State:
    __slots__ = ("m", "pc")

    def __init__(self, m, pc):
        self.m = m
        self.pc = pc

    def copy(self, pc=None):
        return State(dict(self.m), self.pc if pc is None else pc)


_MISS = object()


def merge_states(ss):
    ss = [s for s in ss if s is not None and s.pc is not FALSE]
    if not ss:
        return None
    r = ss[0]
    for s in ss[1:]:
        r = merge2(r, s)
    return r


def merge2(a, b):
    if a is b:
        return a
    pc = t.or_(a.pc, b.pc)
    g = t.constrain(a.pc, pc)
    m = {}
    for k in a.m:
        x = a.m[k]
        y = b.m.get(k, _MISS)
        if y is _MISS or x is y:
            m[k] = x
        else:
            m[k] = merge(g, x, y)
    for k in b.m:
        if k not in a.m:
            m[k] = b.m[k]
    return State(m, pc)


class Frame:
    _n = 0

    def __init__(self, fn, this, parent=None):
        self.fn = fn
        self.this = this
        self.env = {}
        self.parent = parent
        self.rets = []
        self.no = 0

    def find(self, d):
        f = self
        while f is not None:
            if d in f.env:
                return f.env[d]
            f = f.parent
        return None


class LoopSummary:
    pass


class Interp:
    MAXDEPTH = 80
    UNROLL = 70

    force_unroll = False        # unroll loops whose exits are symbolic (bounded by UNROLL)

    def __init__(self, prog):
        self.p = prog
        self.st = State({}, TRUE)
        self.over = {}
        self.frames = []
        self.nheap = 0
        self.nframe = 0
        self.kdepth = 0
        self.asserts = []
        self.assume_asserts = False
        self.loops = []
        self.writes = {}
        self.callstack = []
        self.brk = []
        self.cont = []
        self.pure = set()
        self.notes = []
        self.oob = []
        self.temprng = {}
        self.functions = set()
        self.steps = 0
        self.max_steps = 4000000
        self.elem_kind = {}
        self.strict_loops = False
        self.unreach = []
        self.external = None
        self.map_model = None
        self.set_insert = None          # (set, value) -> the set with the value, or None for the usual treatment
        self.vartype = {}
        self.assume_asserts = True
        values.HOOK[0] = self.dflt_key

    # ------------------------------------------------------------ utilities

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def ty(self, i):
        return self.p.types[i]

    def trng(self, ty):
        if ty["k"] in ("int", "enum", "bool") and "w" in ty:
            return t.wrange(ty["w"], ty["sg"])
        return (None, None)

    def heap(self, v):
        self.nheap += 1
        r = ("h", self.nheap)
        self.st.m[r] = v
        return r

    def temp(self, v, rg=None):
        """A temporary; rg: range of the values it will hold."""
        self.nheap += 1
        r = ("t", self.nheap)
        if rg is not None:
            self.temprng[r] = rg
        self.st.m[r] = v
        return Loc(r)

    def where(self, n):
        return "%s:%d" % (self.p.files[n["f_"]], n["l"]) if n and "f_" in n else "?"

    # fork over guarded alternatives
    def split(self, v, fn):
        if not isinstance(v, GV):
            return fn(v)
        base = self.st
        outs = []
        for g, w in v.alts:
            g2 = t.and_(base.pc, g)
            if g2 is FALSE:
                continue
            self.st = base.copy(g2)
            r = fn(w)
            if self.st is not None:
                outs.append((self.st, r))
        return self.join(outs)

    def join(self, outs):
        outs = [(s, r) for s, r in outs if s is not None]
        if not outs:
            self.st = None
            return t.opaque("unreachable")
        s, r = outs[0]
        for s2, r2 in outs[1:]:
            pc = t.or_(s.pc, s2.pc)
            g = t.constrain(s.pc, pc)
            r = merge(g, r, r2) if r is not r2 else r
            s = merge2(s, s2)
        self.st = s
        return r

    def branch(self, g, f1, f2):
        """Evaluate f1 under g and f2 under not g, joining states and results."""
        base = self.st
        g = t.constrain(g, base.pc)
        if g is TRUE:
            return f1()
        if g is FALSE:
            return f2()
        a = t.and_(base.pc, g)
        b = t.and_(base.pc, t.not_(g))
        if a is FALSE:
            return f2()
        if b is FALSE:
            return f1()
        self.st = base.copy(a)
        r1 = f1()
        s1 = self.st
        self.st = base.copy(b)
        r2 = f2()
        s2 = self.st
        return self.join([(s1, r1), (s2, r2)])

    # ------------------------------------------------------------ opaque values

    def opq_value(self, tid, term):
        """An unknown value of C++ type tid identified by term."""
        tid = self.p.nonref(tid)
        ty = self.ty(tid)
        if ty["k"] == "rec":
            return self.opq_rec(ty, term)
        return term

    def opq_rec(self, ty, term):
        q = ty["q"]
        if q in self.p.cxx:
            return Msg(q, {}, term)
        if q in ("std::vector", "std::deque", "std::list", "std::set", "google::protobuf::RepeatedPtrField",
                 "google::protobuf::RepeatedField"):
            et = ty["a"][0]["t"]
            return self.opq_list(term, et)
        return term

    def opq_list(self, term, et):
        self.elem_kind[term] = ("ty", et)
        return Lst([("sl", term, ZERO, t.mk("size", term))])

    def elem(self, lt, idx):
        k = self.elem_kind.get(lt)
        if k is None:
            return t.mk("at", lt, idx, (None, None))
        if k[0] == "ty":
            ty = self.ty(self.p.nonref(k[1]))
            if ty["k"] == "rec":
                return self.opq_rec(ty, t.mk("at", lt, idx, (None, None)))
            return t.mk("at", lt, idx, self.trng(ty))
        if k[0] == "msg":
            return Msg(k[1], {}, t.mk("at", lt, idx, (None, None)))
        return t.mk("at", lt, idx, k[1])

    # ------------------------------------------------------------ messages

    PBR = {"int32": (32, True), "sint32": (32, True), "sfixed32": (32, True), "enum": (32, True),
           "uint32": (32, False), "fixed32": (32, False), "int64": (64, True), "sint64": (64, True),
           "uint64": (64, False), "fixed64": (64, False), "bool": (1, False)}

    def fdesc(self, q, name):
        m = self.p.cxx.get(q)
        if m is None:
            return None
        f = m.fields.get(name)
        if f is None and name.endswith("_"):
            f = m.fields.get(name[:-1])
        return f

    def frng(self, f):
        r = self.PBR.get(f.type)
        return t.wrange(*r) if r else (None, None)

    def fmsg(self, f):
        return self.p.schema.cxx_name(f.type_name)

    def pb_default(self, f):
        if f.repeated:
            return Lst()
        if f.type == "message":
            return Msg(self.fmsg(f))
        if f.type in ("string", "bytes"):
            return t.mk("str", "")
        return ZERO

    def pb_opq(self, q, f, base):
        """Content of field f of an unknown message base."""
        if f.repeated:
            lt = t.mk("rep", base, f.name)
            self.elem_kind[lt] = ("msg", self.fmsg(f)) if f.type == "message" else ("rng", self.frng(f))
            return Lst([("sl", lt, ZERO, t.mk("size", lt))])
        if f.type == "message":
            return Msg(self.fmsg(f), {}, t.mk("fld", base, f.name, (None, None)))
        return t.mk("fld", base, f.name, self.frng(f))

    def pb_case(self, m):
        v = m.f.get("@t")
        if v is None:
            if m.base is None:
                return ZERO
            d = self.p.cxx[m.q]
            nums = [f.number for f in d.fields.values() if f.oneof]
            return t.mk("case", m.base, "t", (0, max(nums)))
        return v

    def pb_get(self, m, f):
        """Value of field f of message value m (default when another oneof case is set)."""
        v = m.f.get(f.name)
        if v is not None:
            # invariant: a member of a oneof that is not selected holds its default
            return v
        if m.base is None:
            return self.pb_default(f)
        v = self.pb_opq(m.q, f, m.base)
        if f.oneof:
            g = t.constrain(t.eq(self.pb_case(Msg(m.q, {}, m.base)), C(f.number)), self.st.pc)
            if g is not TRUE:
                v = merge(g, v, self.pb_default(f))
        return v

    def pb_has(self, m, f):
        if f.oneof:
            return t.eq(self.pb_case(m), C(f.number))
        v = m.f.get("?" + f.name)
        if v is None:
            return FALSE if m.base is None else t.mk("has", m.base, f.name)
        return v

    # ------------------------------------------------------------ store

    def root(self, r, ty=None):
        v = self.st.m.get(r)
        if v is None:
            if r[0] == "x":
                if ty is not None:
                    if ty["k"] in ("int", "enum", "bool"):
                        return t.mk("ld", r[1], max(1, ty["w"] // 8), ty["sg"])
                    if ty["k"] == "rec":
                        return self.opq_rec(ty, r[1])
                return r[1]
            if r[0] == "g":
                v = self.global_value(r[1])
                self.st.m[r] = v
                return v
            raise Unsupported("read of unknown storage %r" % (r,))
        return v

    def global_value(self, gid):
        g = self.p.G.get(gid)
        if g is None or "init" not in g:
            raise Unsupported("global without visible initialiser: %s" % (g and g["q"]))
        if not (g["constexpr"] or g["const"] or self.ty(g["t"])["c"]):
            from . import lint
            if not lint.never_written(self.p, gid):
                return t.opaque("mutable global " + g["q"])
        v = self.ev(g["init"])
        return v

    def load(self, loc, tid=None):
        if isinstance(loc, GV):
            return self.vm(loc, lambda l: self.load(l, tid))
        if not isinstance(loc, Loc):
            raise Unsupported("load from %r" % (loc,))
        ty = self.ty(self.p.nonref(tid)) if tid is not None else None
        v = self.root(loc.root, ty if not loc.path else None)
        n = len(loc.path)
        for i, s in enumerate(loc.path):
            v = self.step(v, s, ty if i == n - 1 else None)
        if isinstance(v, T):
            if v.op not in ("c", "a") and self.st.pc is not TRUE:
                v = t.constrain(v, self.st.pc)
        elif isinstance(v, GV) and self.st.pc is not TRUE:
            v = self.prune(v)
        return v

    def prune(self, v):
        alts = []
        for g, w in v.alts:
            g2 = t.constrain(g, self.st.pc)
            if g2 is FALSE or t.and_(g2, self.st.pc) is FALSE:
                continue
            alts.append((g2, w))
        if not alts:
            return t.opaque("infeasible")
        if len(alts) == 1:
            return alts[0][1]
        return gv(alts)

    def vm(self, v, fn):
        if not isinstance(v, GV):
            return fn(v)
        alts = []
        for g, w in v.alts:
            g2 = t.and_(g, self.st.pc)
            if g2 is FALSE:
                continue
            alts.append((g, fn(w)))
        return gv(alts) if alts else t.opaque("infeasible")

    def step(self, v, s, ty=None):
        if isinstance(v, GV):
            return self.vm(v, lambda w: self.step(w, s, ty))
        if isinstance(v, Obj):
            return self.step(self.root(v.root), s, ty)
        if isinstance(v, Rec):
            r = v.f.get(s)
            if r is None:
                if v.base is not None:
                    return self.rec_field(v, s) if self.field_type(v.q, s) is not None else self.opq_field(v.base, s, ty)
                raise Unsupported("no field %s in %s" % (s, v.q))
            return r
        if isinstance(v, Msg):
            f = self.fdesc(v.q, s)
            if f is None:
                raise Unsupported("no message field %s in %s" % (s, v.q))
            return self.pb_get(v, f)
        if isinstance(v, Arr):
            return self.arr_get(v, s)
        if isinstance(v, Lst):
            return self.lst_get(v, s[1])
        if isinstance(v, T):
            if isinstance(s, str):
                return self.opq_field(v, s, ty)
            if isinstance(s, tuple) and s[0] == "el":
                return self.elem(v, s[1])
            if isinstance(s, tuple) and s[0] == "ix":
                return t.mk("at", v, s[1], self.trng(ty) if ty else (None, None))
        raise Unsupported("cannot access %r of %r" % (s, v))

    def opq_field(self, base, s, ty):
        x = t.mk("fld", base, s, self.trng(ty) if ty else (None, None))
        if ty is not None and ty["k"] == "rec":
            return self.opq_rec(ty, x)
        return x

    def arr_get(self, a, s):
        i = s[1]
        if t.is_c(i):
            j = i.a[0]
            if 0 <= j < len(a.e):
                return a.e[j]
            return t.opaque("array index %d out of range %d" % (j, len(a.e)))
        i = t.constrain(i, self.st.pc)
        if t.is_c(i):
            return self.arr_get(a, ("ix", i))
        r = None
        for j in range(len(a.e) - 1, -1, -1):
            g = t.constrain(t.eq(i, C(j)), self.st.pc)
            if r is None:
                r = a.e[j] if g is not FALSE else None
                if r is None:
                    continue
            else:
                r = merge(g, a.e[j], r) if g is not FALSE else r
        return r if r is not None else t.opaque("array index")

    def part_len(self, p):
        if p[0] == "sl":
            return t.sub(p[3], p[2])
        if p[0] == "e":
            return p[1]
        if p[0] == "s":
            inner = t.ZERO
            for q in p[4]:
                inner = t.add(inner, self.part_len(q))
            if t.is_c(inner):
                n = t.mul(inner, p[2])
            else:
                n = t.mk("ssum", p[3], p[2], inner)
            return t.ite(p[1], n, ZERO) if p[1] is not TRUE else n
        if p[0] == "g":
            n = ZERO
            for q in p[2]:
                n = t.add(n, self.part_len(q))
            return t.ite(p[1], n, ZERO)
        if p[0] == "rev":
            return self.lst_size(p[1])
        return t.mk("lsize", p)

    def lst_size(self, l):
        n = ZERO
        for p in l.p:
            n = t.add(n, self.part_len(p))
        return n

    def lst_locate(self, l, idx):
        """(part index, offset) of position idx when decidable, else None."""
        off = ZERO
        for i, p in enumerate(l.p):
            ln = self.part_len(p)
            rel = t.sub(idx, off)
            g = t.constrain(t.lt(rel, ln), self.st.pc)
            if g is TRUE:
                g0 = t.constrain(t.lt(rel, ZERO), self.st.pc)
                if g0 is FALSE or i == 0:
                    return i, rel
                return None
            if g is not FALSE:
                if len(l.p) == 1:
                    return i, rel     # in range by precondition
                return None
            off = t.add(off, ln)
        return None

    def bounds(self, l, idx, what):
        """Records an access that is certainly outside a sequence of known length."""
        if t.is_c(idx) and all(p[0] == "e" and p[1] is TRUE for p in l.p) and not 0 <= idx.a[0] < len(l.p):
            self.oob.append((what, idx.a[0], len(l.p), self.st.pc if self.st is not None else FALSE))

    def lst_get(self, l, idx):
        self.bounds(l, idx, "read")
        if len(l.p) == 1 and l.p[0][0] == "sl":
            p = l.p[0]
            return self.elem(p[1], t.add(p[2], idx))
        r = self.lst_locate(l, idx)
        if r is None:
            # all explicit elements: gated choice
            if all(p[0] == "e" and p[1] is TRUE for p in l.p) and l.p:
                v = l.p[-1][2]
                for j in range(len(l.p) - 2, -1, -1):
                    v = merge(t.constrain(t.eq(idx, C(j)), self.st.pc), l.p[j][2], v)
                return v
            # segments of unknown length: gated choice by position
            off, at = ZERO, []
            for p in l.p:
                at.append((off, p))
                off = t.add(off, self.part_len(p))
            # explicit elements some of which may be absent
            if 0 < len(at) <= 6 and all(p[0] == "e" for _, p in at):
                v = at[-1][1][2]
                for o, p in reversed(at[:-1]):
                    v = merge(t.constrain(t.and_(p[1], t.eq(idx, o)), self.st.pc), p[2], v)
                return v
            if 0 < len(at) <= 6 and all((p[0] == "e" and p[1] is TRUE) or p[0] == "sl" or
                                        (p[0] == "s" and p[1] is TRUE and len(p[4]) == 1 and p[4][0][0] == "e" and p[4][0][1] is TRUE)
                                        for _, p in at):
                v = None
                for o, p in reversed(at):
                    rel = t.sub(idx, o)
                    w = p[2] if p[0] == "e" else self.elem(p[1], t.add(p[2], rel)) if p[0] == "sl" else vsubst(p[4][0][2], {p[3]: rel})
                    if v is None:
                        v = w
                    else:
                        v = merge(t.constrain(t.lt(rel, self.part_len(p)), self.st.pc), w, v)
                return v
            return t.mk("lat", l, idx)
        p = l.p[r[0]]
        if p[0] == "e":
            return p[2]
        if p[0] == "sl":
            return self.elem(p[1], t.add(p[2], r[1]))
        if p[0] == "s" and len(p[4]) == 1 and p[4][0][0] == "e" and p[4][0][1] is TRUE:
            return vsubst(p[4][0][2], {p[3]: r[1]})
        if p[0] == "rev":
            n = self.lst_size(p[1])
            return self.lst_get(p[1], t.sub(t.sub(n, ONE), r[1]))
        return t.mk("lat", l, idx)

    def lst_set(self, l, idx, fn):
        """l with element idx replaced by fn(old)."""
        self.bounds(l, idx, "write")
        if len(l.p) == 1 and l.p[0][0] == "sl":
            p = l.p[0]
            mid = t.add(p[2], idx)
            return Lst(norm_parts([("sl", p[1], p[2], mid), ("e", TRUE, fn(self.elem(p[1], mid))),
                                   ("sl", p[1], t.add(mid, ONE), p[3])]))
        r = self.lst_locate(l, idx)
        if r is not None:
            i, rel = r
            p = l.p[i]
            if p[0] == "e":
                return Lst(l.p[:i] + (("e", p[1], fn(p[2])),) + l.p[i + 1:])
            if p[0] == "sl":
                mid = t.add(p[2], rel)
                return Lst(norm_parts(l.p[:i] + (("sl", p[1], p[2], mid), ("e", TRUE, fn(self.elem(p[1], mid))),
                                                 ("sl", p[1], t.add(mid, ONE), p[3])) + l.p[i + 1:]))
        elif all(p[0] == "e" and p[1] is TRUE for p in l.p) and l.p:
            return Lst([("e", TRUE, merge(t.constrain(t.eq(idx, C(j)), self.st.pc), fn(p[2]), p[2]))
                        for j, p in enumerate(l.p)])
        return Lst([("op", "set", l, idx, fn(self.lst_get(l, idx)))])

    def lst_split(self, l, idx):
        """(before, after) at position idx, or None."""
        n = self.lst_size(l)
        if idx is n:
            return l.p, ()
        if idx is ZERO:
            return (), l.p
        if len(l.p) == 1 and l.p[0][0] == "sl":
            p = l.p[0]
            mid = t.add(p[2], idx)
            return norm_parts([("sl", p[1], p[2], mid)]), norm_parts([("sl", p[1], mid, p[3])])
        off = ZERO
        for i, p in enumerate(l.p):
            if idx is off:
                return l.p[:i], l.p[i:]
            off = t.add(off, self.part_len(p))
        r = self.lst_locate(l, idx)
        if r is None:
            return None
        i, rel = r
        p = l.p[i]
        if rel is ZERO:
            return l.p[:i], l.p[i:]
        if p[0] == "sl":
            mid = t.add(p[2], rel)
            return l.p[:i] + (("sl", p[1], p[2], mid),), (("sl", p[1], mid, p[3]),) + l.p[i + 1:]
        if p[0] == "e" and rel is ONE:
            return l.p[:i + 1], l.p[i + 1:]
        return None

    def lst_insert(self, l, idx, parts):
        s = self.lst_split(l, idx)
        if s is None:
            return Lst([("op", "ins", l, idx, Lst(parts))])
        return Lst(norm_parts(tuple(s[0]) + tuple(parts) + tuple(s[1])))

    def lst_erase(self, l, lo, hi):
        s = self.lst_split(l, lo)
        if s is not None:
            rest = Lst(s[1])
            s2 = self.lst_split(rest, t.sub(hi, lo))
            if s2 is not None:
                return Lst(norm_parts(tuple(s[0]) + tuple(s2[1])))
        return Lst([("op", "del", l, lo, hi)])

    def lst_slice(self, l, lo, hi):
        s = self.lst_split(l, lo)
        if s is not None:
            s2 = self.lst_split(Lst(s[1]), t.sub(hi, lo))
            if s2 is not None:
                return Lst(norm_parts(s2[0]))
        return Lst([("op", "slice", l, lo, hi)])

    def store(self, loc, v):
        if isinstance(loc, GV):
            base = self.st
            for g, l in loc.alts:
                g2 = t.constrain(g, base.pc)
                if g2 is FALSE:
                    continue
                self.store_g(l, v, g2)
            return
        if not isinstance(loc, Loc):
            raise Unsupported("store to %r" % (loc,))
        if not loc.path:
            self.st.m[loc.root] = v
            return
        self.st.m[loc.root] = self.upd(self.root(loc.root), loc.path, 0, lambda o: v)

    def store_g(self, loc, v, g):
        if g is TRUE:
            self.store(loc, v)
            return
        old = self.load(loc)
        self.store(loc, merge(g, v, old))

    def upd(self, v, path, i, fn):
        if i == len(path):
            return fn(v)
        s = path[i]
        if isinstance(v, GV):
            return gv([(g, self.upd(w, path, i, fn)) for g, w in v.alts])
        if isinstance(v, Obj):
            self.st.m[v.root] = self.upd(self.root(v.root), path, i, fn)
            return v
        if isinstance(v, Rec):
            old = v.f.get(s)
            if old is None:
                old = self.rec_field(v, s) if v.base is not None else None
            return v.set(s, self.upd(old, path, i + 1, fn))
        if isinstance(v, Msg):
            f = self.fdesc(v.q, s)
            return v.set(f.name, self.upd(self.pb_get(v, f), path, i + 1, fn))
        if isinstance(v, Arr):
            ix = s[1]
            if t.is_c(ix):
                j = ix.a[0]
                if not 0 <= j < len(v.e):
                    self.note("write outside of an array")
                    return v
                e = list(v.e)
                e[j] = self.upd(e[j], path, i + 1, fn)
                return Arr(e)
            e = list(v.e)
            for j in range(len(e)):
                g = t.constrain(t.eq(ix, C(j)), self.st.pc)
                if g is not FALSE:
                    e[j] = merge(g, self.upd(e[j], path, i + 1, fn), e[j])
            return Arr(e)
        if isinstance(v, Lst):
            return self.lst_set(v, s[1], lambda o: self.upd(o, path, i + 1, fn))
        if isinstance(v, T):
            if isinstance(s, str):
                return self.upd(Rec("?", {}, v), path, i, fn)
        raise Unsupported("cannot update %r of %r" % (s, v))

    # ------------------------------------------------------------ defaults

    def default(self, tid, seen=0):
        """Value-initialised / default-constructed value of a type."""
        ty = self.ty(tid)
        k = ty["k"]
        if k in ("int", "bool", "enum", "ptr", "nullptr", "memptr"):
            return ZERO
        if k == "arr":
            return Arr([self.default(ty["p"])] * ty["n"])
        if k == "rec":
            return self.default_rec(ty)
        return t.opaque("default of " + ty["s"])

    def uninit(self, tid, name):
        ty = self.ty(tid)
        k = ty["k"]
        if k in ("int", "bool", "enum", "ptr", "memptr", "float"):
            return t.mk("opq", "uninitialised " + name, 0)
        if k == "arr":
            return Arr([self.uninit(ty["p"], name)] * ty["n"])
        if k == "rec":
            if ty["q"] == "std::array":
                return Arr([self.uninit(ty["a"][0]["t"], name)] * ty["a"][1]["v"])
            return self.default_rec(ty, True)
        return t.opaque("uninitialised")

    LISTS = ("std::vector", "std::deque", "std::list", "std::forward_list", "std::set",
             "google::protobuf::RepeatedPtrField", "google::protobuf::RepeatedField", "std::initializer_list")

    def default_rec(self, ty, uninit=False):
        q = ty["q"]
        if q in self.p.cxx:
            return Msg(q)
        if q in self.LISTS:
            return Lst()
        if q == "std::array":
            n = ty["a"][1]["v"]
            et = ty["a"][0]["t"]
            return Arr([self.uninit(et, "array element") if uninit else self.default(et)] * n)
        if q == "std::pair":
            return Rec(q, {"first": self.default(ty["a"][0]["t"]), "second": self.default(ty["a"][1]["t"])})
        if q == "std::variant":
            return Rec(q, {"i": ZERO, "v": self.default(ty["a"][0]["t"]) if "t" in ty["a"][0] else ZERO})
        if q == "std::map":
            return Rec("std::map", {"ops": Lst()})
        if q in ("std::__cxx11::basic_string", "std::basic_string", "std::string", "std::basic_string_view"):
            return t.mk("str", "")
        if q == "std::bitset":
            return Rec("std::bitset", {"v": ZERO, "n": C(ty["a"][0]["v"])})
        r = self.p.R.get(ty["r"])
        if r is None or not r.get("in"):
            return t.mk("dflt", q)
        f = {}
        self.rec_defaults(r, f, uninit)
        return Rec(q, f)

    def rec_defaults(self, r, f, uninit):
        for b in r["bases"]:
            br = self.p.R.get(b["r"])
            if br is not None and br.get("in"):
                self.rec_defaults(br, f, uninit)
        for x in r["fields"]:
            if "init" in x:
                v = self.ev(x["init"])
                f[x["n"]] = self.rvv(x["init"], v)
            else:
                f[x["n"]] = self.uninit(x["t"], x["n"]) if uninit else self.default(x["t"])

    # ------------------------------------------------------------ statements

    def block(self, b):
        for s in b:
            if self.st is None:
                return
            self.ex(s)

    def ex(self, s):
        if s is None or self.st is None:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("analysis budget exceeded")
        getattr(self, "x_" + s["k"])(s)

    def x_null(self, s):
        pass

    def x_ustmt(self, s):
        raise Unsupported("statement %s at %s" % (s["c"], self.where(s)))

    def x_label(self, s):
        self.ex(s["s"])

    def x_expr(self, s):
        self.ev(s["e"])

    def x_block(self, s):
        self.block(s["b"])

    def x_decl(self, s):
        for v in s["d"]:
            if self.st is None:
                return
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        if v.get("static"):
            return
        ty = self.ty(v["t"])
        if ty["k"] in ("ref", "rref"):
            loc = self.lvl(v["init"])
            if self.st is None:
                return
            fr.env[v["id"]] = loc
        else:
            if "init" in v:
                val = self.rv(v["init"])
            else:
                val = self.uninit(v["t"], v["n"])
            if self.st is None:
                return
            r = ("v", v["id"], fr.no)
            self.vartype[v["id"]] = ty
            self.st.m[r] = val
            fr.env[v["id"]] = Loc(r)
        for b in v.get("binds", []):
            if "hv" in b:
                loc = self.lvl(b["hinit"])
                fr.env[b["hv"]] = loc
                fr.env[b["id"]] = loc
            elif "e" in b:
                fr.env[b["id"]] = self.lvl(b["e"])

    def x_if(self, s):
        self.ex(s["init"])
        if self.st is None:
            return
        if s.get("cv"):
            self.declare(s["cv"])
        g = self.cond(s["c"])
        if self.st is None:
            return
        self.branch(g, lambda: (self.ex(s["t"]), VOID)[1], lambda: (self.ex(s["e"]), VOID)[1])

    def cond(self, n):
        """Boolean value of condition n."""
        v = self.rv(n)
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, GV):
            return self.vm(v, self.truth)
        if isinstance(v, T):
            if t.is_bool(v):
                return v
            return t.not_(t.eqz(v))
        if isinstance(v, (Ptr, It, Fn, Clo)):
            return TRUE
        raise Unsupported("truth of %r" % (v,))

    def x_ret(self, s):
        fr = self.frames[-1]
        if s["e"] is not None:
            rt = self.ty(fr.fn["rt"])
            if rt["k"] in ("ref", "rref"):
                v = self.lvl(s["e"])
            else:
                v = self.rv(s["e"])
            if self.st is None:
                return
            if self.ty(fr.fn["rt"])["k"] != "void":
                self.st.m[("ret", fr.no)] = v
        fr.rets.append(self.st)
        self.st = None

    def x_break(self, s):
        self.brk[-1].append(self.st)
        self.st = None

    def x_continue(self, s):
        self.cont[-1].append(self.st)
        self.st = None

    def flat_cases(self, s, out):
        """Flatten nested case/default labels of a switch body."""
        if s["k"] == "block":
            for x in s["b"]:
                labels = []
                y = x
                while y is not None and y["k"] in ("case", "default"):
                    labels.append(y)
                    y = y["s"]
                out.append((labels, y))
        else:
            raise Unsupported("switch body")

    def x_switch(self, s):
        self.ex(s["init"])
        if s.get("cv"):
            self.declare(s["cv"])
        v = self.rv(s["c"])
        if self.st is None:
            return
        if isinstance(v, GV):
            raise Unsupported("switch on gated value")
        items = []
        self.flat_cases(s["b"], items)
        base = self.st
        v = t.constrain(v, base.pc)
        entries = []
        dflt = None
        rest = base.pc
        for i, (labels, y) in enumerate(items):
            g = FALSE
            for lb in labels:
                if lb["k"] == "default":
                    dflt = i
                    continue
                lo = int(lb["v"]["v"])
                if "v2" in lb:
                    for c in range(lo, int(lb["v2"]["v"]) + 1):
                        g = t.or_(g, t.eq(v, C(c)))
                else:
                    g = t.or_(g, t.eq(v, C(lo)))
            if g is not FALSE:
                entries.append((i, g))
        self.brk.append([])
        outs = []
        for i, g in entries:
            a = t.and_(rest, g)
            if a is FALSE:
                continue
            rest = t.and_(rest, t.not_(g))
            self.st = base.copy(a)
            self.run_from(items, i)
            if self.st is not None:
                outs.append(self.st)
        if rest is not FALSE:
            self.st = base.copy(rest)
            if dflt is not None:
                self.run_from(items, dflt)
            if self.st is not None:
                outs.append(self.st)
        outs += self.brk.pop()
        self.st = merge_states(outs)

    def run_from(self, items, i):
        for labels, y in items[i:]:
            if self.st is None:
                return
            self.ex(y)

    # ------------------------------------------------------------ loops

    def x_while(self, s):
        def cnd():
            if s.get("cv"):
                self.declare(s["cv"])
            return self.cond(s["c"])
        self.loop(s, cnd, lambda: self.ex(s["b"]), None)

    def x_for(self, s):
        self.ex(s["init"])
        if self.st is None:
            return
        self.loop(s, (lambda: self.cond(s["c"])) if s["c"] is not None else (lambda: TRUE),
                  lambda: self.ex(s["b"]), (lambda: self.ev(s["inc"])) if s["inc"] is not None else None)

    def x_do(self, s):
        # body once, then a while loop
        S0 = self.st.copy()
        fr = self.frames[-1]
        mark, nrets = (len(self.asserts), len(self.loops)), len(fr.rets)
        self.do_peeled(s)
        if any(not L.solved and L.node is s for L in self.loops[mark[1]:]):
            # the same loop, left from its middle
            keep = self.st, list(fr.rets), self.asserts[mark[0]:], self.loops[mark[1]:]
            self.st = S0
            del self.asserts[mark[0]:], self.loops[mark[1]:], fr.rets[nrets:]

            def body():
                self.cont.append([])
                self.ex(s["b"])
                self.st = merge_states([self.st] + self.cont.pop())
                self.leave_unless(s["c"])
            self.solve_loop(s, lambda: TRUE, body, None, S0)
            if any(not L.solved and L.node is s for L in self.loops[mark[1]:]):
                del self.asserts[mark[0]:], self.loops[mark[1]:]
                self.st, fr.rets[:] = keep[0], keep[1]
                self.asserts += keep[2]
                self.loops += keep[3]

    def leave_unless(self, c):
        """break, unless the condition holds."""
        if self.st is None:
            return
        g = self.cond(c)
        if self.st is None:
            return
        pc = self.st.pc
        out = t.and_(pc, t.not_(g))
        if out is not FALSE:
            self.brk[-1].append(self.st.copy(out))
        on = t.and_(pc, g)
        if on is FALSE:
            self.st = None
        else:
            self.st.pc = on

    def do_peeled(self, s):
        self.brk.append([])
        self.cont.append([])
        self.ex(s["b"])
        self.st = merge_states([self.st] + self.cont.pop())
        brks = self.brk.pop()
        if self.st is not None:
            self.loop(s, lambda: self.cond(s["c"]), lambda: self.ex(s["b"]), None)
        self.st = merge_states([self.st] + brks)

    def x_rfor(self, s):
        self.ex(s["init"])
        self.declare(s["rv"])
        if self.st is None:
            return
        self.declare(s["bv"])
        self.declare(s["ev"])

        def body():
            self.declare(s["v"])
            self.ex(s["b"])
        self.loop(s, lambda: self.cond(s["c"]), body, lambda: self.ev(s["inc"]))

    def iterate(self, cnd, body, inc):
        """One iteration from self.st: (cond, exit state, breaks, returns); self.st = next state."""
        fr = self.frames[-1]
        saved = fr.rets
        fr.rets = []
        try:
            c = cnd()
            if self.st is None:
                return FALSE, None, [], fr.rets
            pc = self.st.pc
            c = t.constrain(c, pc)
            if t.and_(pc, c) is FALSE:
                c = FALSE
            elif t.and_(pc, t.not_(c)) is FALSE:
                c = TRUE
            if c is FALSE:
                ex = self.st
                self.st = None
                return c, ex, [], fr.rets
            ex = None if c is TRUE else self.st.copy(t.and_(pc, t.not_(c)))
            if c is not TRUE:
                self.st.pc = t.and_(pc, c)
            self.brk.append([])
            self.cont.append([])
            body()
            self.st = merge_states([self.st] + self.cont.pop())
            br = self.brk.pop()
            if self.st is not None and inc is not None:
                inc()
            return c, ex, br, fr.rets
        finally:
            fr.rets = saved

    def loop(self, node, cnd, body, inc):
        S0 = self.st
        fr = self.frames[-1]
        # 1. constant trip count: unroll
        exits = []
        rets = []
        self.st = S0.copy()
        mark = (self.nheap, len(self.asserts), len(self.loops))
        ok = False
        for i in range(self.UNROLL + 1):
            S1 = self.st.copy()
            c, ex, br, rs = self.iterate(cnd, body, inc)
            if ex is not None and c is not FALSE and not self.bounded(node) and not (i < 12 and self.trips_bound(node, S1)):
                break
            exits += ([ex] if ex is not None else []) + br
            rets += rs
            if self.st is None:
                ok = True
                break
        if ok:
            fr.rets += rets
            self.st = merge_states(exits)
            return
        # 2. solve the recurrence
        del self.asserts[mark[1]:]
        del self.loops[mark[2]:]
        self.st = S0.copy()
        self.solve_loop(node, cnd, body, inc, S0)

    def trips_bound(self, node, S):
        """Whether the loop is left by a constant bound, of several conditions that it has to meet."""
        c = node.get("c")
        todo, parts = [c], []
        while todo:
            x = todo.pop()
            while isinstance(x, dict) and x.get("k") == "paren":
                x = x["x"]
            if isinstance(x, dict) and x.get("op") == "&&":
                todo += [x["a"], x["b"]]
            else:
                parts.append(x)
        if len(parts) < 2:
            return False
        keep, mark = self.st, (len(self.asserts), len(self.loops))
        try:
            for x in parts:
                if isinstance(x, dict) and x.get("op") in ("<", "<=", ">", ">=", "!="):
                    self.st = S.copy()
                    try:
                        if t.constrain(self.cond(x), S.pc) is TRUE:
                            return True
                    except Unsupported:
                        pass
            return False
        finally:
            self.st = keep
            del self.asserts[mark[0]:], self.loops[mark[1]:]

    def bounded(self, node):
        return self.force_unroll or node.get("bounded", False)

    def solve_loop(self, node, cnd, body, inc, S0):
        level = self.kdepth
        self.kdepth += 1
        K = t.mk("k", level)
        fr = self.frames[-1]
        leaves = {}      # (root, path) -> phi value
        nas, nlo = len(self.asserts), len(self.loops)
        uid = len(self.loops)
        try:
            for rnd in range(12):
                del self.asserts[nas:]
                del self.loops[nlo:]
                Sp = S0.copy()
                phis = {}
                for n, ((r, p), info) in enumerate(leaves.items()):
                    Sp.m[r] = self.leaf_set(Sp.m[r], p, info["phi"])
                self.st = Sp.copy()
                c, ex, br, rs = self.iterate(cnd, body, inc)
                nx = self.st
                new = False
                states = [nx] if nx is not None else []
                for S in states:
                    for r in S0.m:
                        a, b = Sp.m[r], S.m.get(r)
                        if b is None or a is b:
                            continue
                        for p in self.leaf_diff(a, b):
                            key = (r, p)
                            if key in leaves:
                                continue
                            # drop leaves below this one
                            for k2 in [k2 for k2 in leaves if k2[0] == r and k2[1][:len(p)] == p]:
                                del leaves[k2]
                            leaves[key] = {}
                            new = True
                if not new:
                    break
                for n, (r, p) in enumerate(leaves):
                    if "phi" not in leaves[(r, p)]:
                        v0 = self.leaf_get(S0.m[r], p)
                        leaves[(r, p)] = {"phi": self.mkphi(v0, r, p, level, len(self.loops), n), "init": v0}
            else:
                raise Unsupported("loop does not stabilise at %s" % self.where(node))
            if nx is None:
                # never repeats
                self.st = merge_states([x for x in [ex] + br if x is not None])
                fr.rets += rs
                return
            L = LoopSummary()
            L.node, L.level, L.K, L.S0, L.Sp, L.next, L.cond, L.exit, L.breaks, L.rets = \
                node, level, K, S0, Sp, nx, c, ex, br, rs
            L.leaves = leaves
            L.fn = fr.fn
            L.solved = False
            self.loops.append(L)
            for (r, p), info in leaves.items():
                info["next"] = self.leaf_get(nx.m[r], p)
            self.hang(L)
            sol = self.recur(L)
            if sol is None:
                self.mu_exit(L)
                return
            L.solved = True
            cl, trip = sol
            L.trip = trip
            L.closed = cl
            # exit guards
            pc0 = S0.pc
            early = [(x, False) for x in br] + [(x, True) for x in rs]
            B = FALSE
            gs = []
            for x, isret in early:
                g = self.vs(t.constrain(x.pc, pc0), cl)
                gs.append(g)
                B = t.or_(B, g)
            outs = []
            if early:
                first = t.mk("first", K, trip if trip is not None else C(-1), B)
                exists = TRUE if trip is None else t.rebuild("exists", (K, trip, B))
                for (x, isret), g in zip(early, gs):
                    m = dict(cl)
                    y = self.subst_state(x, m, S0)
                    y = self.subst_state(y, {K: first}, S0)
                    y.pc = t.and_(pc0, exists, t.subst(g, {K: first}))
                    if isret:
                        fr.rets.append(y)
                    else:
                        outs.append(y)
                after = t.not_(exists)
            else:
                after = TRUE
            if ex is not None and after is not FALSE and trip is not None:
                y = self.subst_state(ex, cl, S0)
                y = self.subst_state(y, {K: trip}, S0)
                y.pc = t.and_(pc0, after)
                outs.append(y)
            self.st = merge_states(outs)
        finally:
            self.kdepth -= 1

    def vs(self, v, m):
        return t.subst(v, {k: x for k, x in m.items() if isinstance(k, T)})

    def subst_state(self, S, m, S0):
        """Instantiate loop-head symbols in S; storage born in the loop is dropped."""
        mm = {}
        for k, v in m.items():
            if isinstance(k, T):
                mm[k] = v
            elif v[0] == "app":
                mm[k] = v[1].p + (v[2],)
            elif v[0] == "map":
                _, l, i0, seg, n = v
                end = t.add(i0, n)
                mm[k] = self.lst_slice(l, ZERO, i0).p + (seg,) + self.lst_slice(l, end, self.lst_size(l)).p
            else:
                mm[k] = self.lst_slice(v[1], ZERO, v[2]).p
        sub = Subst(mm)
        out = {}
        for r, v in S.m.items():
            o = S0.m.get(r)
            if o is None:
                if r[0] == "ret":
                    out[r] = sub(freeze(v, S))
                elif r[0] in ("h", "t", "v", "tr", "cnt"):
                    out[r] = sub(v)
                continue
            if o is v:
                out[r] = v
            else:
                out[r] = sub(v)
        return State(out, S.pc)

    def mkphi(self, v0, r, p, level, uid, n):
        nm = "\u03c6%d.%d.%d" % (level, uid, n)
        if isinstance(v0, T):
            rg = t.rng(v0)
            if rg == (0, 1) or rg == (0, 0) or rg == (1, 1):
                rg2 = self.leaf_rng(r, p)
                rg = rg2 if rg2 is not None else (None, None)
            else:
                rg2 = self.leaf_rng(r, p)
                if rg2 is not None:
                    rg = rg2
                elif v0.op == "c":
                    rg = (None, None)
            if p and isinstance(p[-1], str) and p[-1].startswith("?"):
                rg = (0, 1)
            return t.atom(nm, *rg)
        if isinstance(v0, Lst):
            a = t.atom(nm, None, None)
            for q in v0.p:
                if q[0] == "sl" and q[1] in self.elem_kind:
                    self.elem_kind[a] = self.elem_kind[q[1]]
            return Lst([("sl", a, ZERO, t.mk("size", a))])
        if isinstance(v0, It):
            return It(v0.lv, t.atom(nm, None, None), v0.rev)
        return t.opaque("loop-carried")

    def leaf_rng(self, r, p):
        if r in self.temprng and not p:
            return self.temprng[r]
        if r[0] == "v" and not p:
            ty = self.vartype.get(r[1])
            if ty is not None:
                rg = self.trng(ty)
                if rg != (None, None):
                    return rg
        return None

    def leaf_diff(self, a, b, p=()):
        if a is b:
            return
        if isinstance(a, T) and isinstance(b, T):
            yield p
            return
        if type(a) is type(b):
            if isinstance(a, (Rec, Msg)) and a.q == b.q and a.base is b.base:
                for k in list(dict.fromkeys(list(a.f) + list(b.f))):
                    x, y = a.f.get(k), b.f.get(k)
                    if x is None:
                        x = self.dflt_key(a, k, y)
                    if y is None:
                        y = self.dflt_key(b, k, x)
                    yield from self.leaf_diff(x, y, p + (k,))
                return
            if isinstance(a, Arr) and len(a.e) == len(b.e):
                for i, (x, y) in enumerate(zip(a.e, b.e)):
                    yield from self.leaf_diff(x, y, p + (("ix", C(i)),))
                return
            if isinstance(a, It) and a.lv == b.lv and a.rev == b.rev:
                if a.idx is not b.idx:
                    yield p
                return
            if a == b:
                return
        yield p

    def dflt_key(self, m, k, other):
        if isinstance(m, Msg):
            f = self.fdesc(m.q, k) if k[0] not in "?@" else None
            if f is not None:
                return self.pb_default(f) if m.base is None else self.pb_opq(m.q, f, m.base)
            if k[0] == "@":
                return self.pb_case(m)
            if k[0] == "?":
                return FALSE if m.base is None else t.mk("has", m.base, k[1:])
        elif isinstance(m, Rec) and m.base is not None:
            return self.rec_field(m, k)
        return values.raw_default(m, k, other)

    def rec_field(self, m, k):
        """Unknown field k of record value m."""
        tid = self.field_type(m.q, k)
        if tid is None:
            return t.mk("fld", m.base, k, (None, None))
        return self.opq_field(m.base, k, self.ty(self.p.nonref(tid)))

    def field_type(self, q, k):
        c = self.p.__dict__.setdefault("_ft", {})
        if not c:
            for r in self.p.R.values():
                for x in r.get("fields", []):
                    c[(r["q"], x["n"])] = x["t"]
        return c.get((q, k))

    def leaf_get(self, v, p):
        for s in p:
            if isinstance(v, (Rec, Msg)):
                x = v.f.get(s)
                if x is None:
                    x = self.dflt_key(v, s, ZERO)
                v = x
            elif isinstance(v, Arr):
                v = v.e[s[1].a[0]]
            else:
                raise Unsupported("leaf")
        return v

    def leaf_set(self, v, p, x):
        if not p:
            return x
        s = p[0]
        if isinstance(v, (Rec, Msg)):
            o = v.f.get(s)
            if o is None:
                o = self.dflt_key(v, s, ZERO)
            return v.set(s, self.leaf_set(o, p[1:], x))
        if isinstance(v, Arr):
            e = list(v.e)
            i = s[1].a[0]
            e[i] = self.leaf_set(e[i], p[1:], x)
            return Arr(e)
        raise Unsupported("leaf")

    def recur(self, L):
        """Closed forms of the loop-carried leaves and the trip count, or None."""
        K = L.K
        cl = {}
        phis = set()
        pend = []
        lists = []
        for (r, p), info in L.leaves.items():
            phi, init, nx = info["phi"], info["init"], info["next"]
            if isinstance(phi, T):
                if phi.op == "opq":
                    continue          # dead at the loop head
                phis.add(phi)
                if not isinstance(nx, T):
                    return None
                pend.append((phi, init, nx))
            elif isinstance(phi, It):
                phis.add(phi.idx)
                if not isinstance(nx, It) or nx.lv != phi.lv:
                    return None
                pend.append((phi.idx, init.idx, nx.idx))
            elif isinstance(phi, Lst):
                phis.add(phi.p[0][1])
                if not isinstance(nx, Lst):
                    return None
                lists.append((phi, init, nx))
        # sequences that only lose a fixed number of their last elements per iteration
        for phi, init, nx in lists:
            a = phi.p[0][1]
            if len(nx.p) == 1 and nx.p[0][0] == "sl" and nx.p[0][1] is a and nx.p[0][2] is ZERO:
                d = t.sub(nx.p[0][3], t.mk("size", a))
                if t.is_c(d) and len(init.p) == 1 and init.p[0][0] == "sl" and init.p[0][2] is ZERO:
                    cl[t.mk("size", a)] = t.add(self.lst_size(init), t.mul(d, K))
                    cl[a] = init.p[0][1]
        def free(x):
            return not any(y in phis for y in t.walk(x))
        self._cond_bound = L.cond
        for rnd in range(4):
            rest = []
            for phi, init, nx in pend:
                nx1 = t.subst(nx, {k: v for k, v in cl.items() if isinstance(k, T)})
                n2 = nx1
                if n2.op == "cast" and (n2.a[0] >= 32 or self.nowrap(n2, phi, L.cond, cl)):
                    n2 = n2.a[2]
                d = t.sub(n2, phi)
                if free(d):
                    if not any(y is K for y in t.walk(d)):
                        cl[phi] = t.add(init, t.mul(d, K))
                    else:
                        cl[phi] = t.add(init, t.mk("ssum", K, K, d))
                elif nx1 is phi:
                    cl[phi] = init
                elif free(nx1):
                    if nx1 is init:
                        cl[phi] = init
                    else:
                        cl[phi] = t.gate(t.eq(K, ZERO), init, t.subst(nx1, {K: t.sub(K, ONE)}))
                else:
                    rest.append((phi, init, nx))
            if len(rest) == len(pend):
                break
            pend = rest
        # boolean accumulators
        rest = []
        for phi, init, nx in pend:
            nx1 = t.subst(nx, {k: v for k, v in cl.items() if isinstance(k, T)})
            done = False
            if t.rng(phi) == (0, 1):
                hi = t.restrict1(nx1, phi, True)
                lo = t.restrict1(nx1, phi, False)
                if free(hi) and free(lo):
                    if hi is TRUE:
                        cl[phi] = t.or_(init, t.rebuild("exists", (K, K, lo)))
                        done = True
                    elif lo is FALSE:
                        cl[phi] = t.and_(init, t.not_(t.rebuild("exists", (K, K, t.not_(hi)))))
                        done = True
            if not done:
                rest.append((phi, init, nx))
        pend = rest
        # write-once selections: phi' = g(k) ? c : phi
        rest = []
        for phi, init, nx in pend:
            nx1 = t.subst(nx, {k: v for k, v in cl.items() if isinstance(k, T)})
            leaves = set()
            self.ite_leaves(nx1, leaves)
            c = [x for x in leaves if x is not phi]
            g = None
            if len(c) == 1 and free(c[0]) and not any(y is K for y in t.walk(c[0])):
                g = self.leaf_guard(nx1, c[0])
            if g is not None and free(g):
                cl[phi] = t.gate(t.rebuild("exists", (K, K, g)), c[0], init)
            else:
                rest.append((phi, init, nx))
        pend = rest
        # sequences
        for phi, init, nx in lists:
            a = phi.p[0][1]
            if nx.p and nx.p[0] == phi.p[0]:
                tail = nx.p[1:]
                tail = tuple(self.fpart(q, L.next) for q in tail)
                tail = vsubst(Lst(tail), {k: v for k, v in cl.items() if isinstance(k, T)}).p
                if any(y in phis for y in vwalk(Lst(tail))):
                    return None
                KK = t.mk("k", L.level)
                seg = ("s", TRUE, K, KK, tail)
                cl[("lst", a)] = ("app", init, seg)
            elif len(nx.p) == 1 and nx.p[0][0] == "sl" and nx.p[0][1] is a and nx.p[0][2] is ZERO:
                d = t.sub(nx.p[0][3], t.mk("size", a))
                if not free(d) or not t.is_c(d):
                    return None
                n0 = self.lst_size(init)
                cl[t.mk("size", a)] = t.add(n0, t.mul(d, K))
                cl[("lst", a)] = ("cut", init, t.add(n0, t.mul(d, K)))
            elif len(nx.p) == 3 and self.in_place(nx, a, K, cl, phis, init):
                pass
            elif nx == phi:
                cl[("lst", a)] = ("app", init, ("s", TRUE, ZERO, K, ()))
            else:
                return None
        if pend:
            return None
        if L.cond is TRUE:
            return self.fin(cl, None)
        c = t.subst(L.cond, {k: v for k, v in cl.items() if isinstance(k, T)})
        if any(y in phis for y in t.walk(c)):
            return None
        c = t.constrain(c, L.S0.pc)
        trip = self.tripcount(c, K)
        if trip is None:
            return None
        return self.fin(cl, trip)

    def in_place(self, nx, a, K, cl, phis, init):
        """One element after the other is replaced: the closed form is a comprehension."""
        (k1, a1, z, m), (k2, g, x), (k3, a3, m1, n) = (p if p[0] != "s" else ("s", None, None, None) for p in nx.p)
        size = t.mk("size", a)
        if k1 != "sl" or k2 != "e" or k3 != "sl" or a1 is not a or a3 is not a or z is not ZERO or g is not TRUE or \
                n is not size or t.sub(m1, m) is not ONE:
            return False
        at = t.subst(m, {k: v for k, v in cl.items() if isinstance(k, T)})
        i0 = t.sub(at, K)
        if any(y is K or y in phis for y in t.walk(i0)):
            return False
        if len(init.p) == 1 and init.p[0][0] == "sl" and init.p[0][2] is ZERO:
            # the element read is the one not yet replaced
            A = init.p[0][1]
            old = {y for y in vwalk(x) if y.op == "at" and y.a[0] is a}
            cm = {k: v for k, v in cl.items() if isinstance(k, T)}
            if any(t.subst(y.a[1], cm) is not at for y in old):
                return False
            x = vsubst(x, {y: t.mk("at", A, m, *y.a[2:]) for y in old})
        x = vsubst(x, {k: v for k, v in cl.items() if isinstance(k, T)})
        if any(y in phis for y in vwalk(x)):
            return False
        cl[size] = self.lst_size(init)
        cl[("lst", a)] = ("map", init, i0, ("s", TRUE, K, K, (("e", TRUE, self.fpart(("e", TRUE, x), self.st)[2]),)), K)
        return True

    def hang(self, L):
        """A loop without another way out whose condition cannot become false."""
        if L.breaks or L.rets or self.force_unroll:
            return
        phis = set()
        for info in L.leaves.values():
            phi = info["phi"]
            phis.add(phi.idx if isinstance(phi, It) else phi.p[0][1] if isinstance(phi, Lst) else phi)
        used = [y for y in t.walk(L.cond) if y in phis]
        if any(y.op == "opq" for y in t.walk(L.cond)):
            return
        stuck, at = FALSE, {}
        moving = [i["phi"] for i in L.leaves.values()
                  if isinstance(i["phi"], T) and i["phi"] in used and i["next"] is not i["phi"]]
        if not used:
            stuck = L.cond                            # nothing the condition reads changes
        elif len(set(used)) == 1 and len(moving) == 1:
            if True:
                phi = moving[0]
                nx = next(i["next"] for i in L.leaves.values() if i["phi"] is phi)
                if nx.op == "cast" and nx.a[0] < 32 and t.sub(nx.a[2], phi) is ONE:
                    # phi <= bound, where bound may be the greatest value of phi's type
                    hi = t.wrange(nx.a[0], nx.a[1])[1]
                    x = L.cond
                    if x.op == "ite" and x.a[1] is FALSE and x.a[2] is TRUE and x.a[0].op == "ltz":
                        y = x.a[0].a[0]
                        bound = t.add(y, phi)         # not (bound - phi < 0)
                        if not any(z is phi for z in t.walk(bound)) and t.rng(bound)[1] == hi:
                            stuck, at = t.eq(bound, C(hi)), {bound: hi}
        if stuck is FALSE:
            return
        stuck = t.and_(L.S0.pc, stuck)
        from .compare import satisfiable
        if satisfiable(self, stuck, at):
            raise Fault("the loop at %s never ends once its condition holds" % self.where(L.node))

    def ite_leaves(self, x, out):
        if x.op == "ite":
            self.ite_leaves(x.a[1], out)
            self.ite_leaves(x.a[2], out)
        else:
            out.add(x)

    def leaf_guard(self, x, c):
        if x.op == "ite":
            return t.ite(x.a[0], self.leaf_guard(x.a[1], c), self.leaf_guard(x.a[2], c))
        return TRUE if x is c else FALSE

    def fin(self, cl, trip):
        return cl, trip

    def fpart(self, q, S):
        return freeze_part(q, S)

    def nowrap(self, n, phi, cond, cl):
        """The narrow cast in n = cast(phi + c) cannot wrap because cond bounds phi."""
        w, sg, x = n.a
        lo, hi = t.wrange(w, sg)
        d = t.sub(x, phi)
        if not t.is_c(d):
            return False
        d = d.a[0]
        # some conjunct of cond must bound phi away from the end of the type
        for y in t.walk(cond):
            if y.op not in ("ltz", "eqz"):
                continue
            c0, dd = t._lin(y.a[0])
            k = dd.get(phi, 0)
            if abs(k) != 1:
                continue
            pos = t.restrict1(cond, y, False) is FALSE      # cond implies y
            negt = t.restrict1(cond, y, True) is FALSE      # cond implies not y
            rest = t.scale(t.sub(y.a[0], t.scale(phi, k)), -k)   # y: k*(phi - rest) ...
            l, h = t.rng(rest)
            if y.op == "ltz" and d == 1:
                if pos and k == 1 and h is not None and h <= hi:          # phi < rest
                    return True
                if negt and k == -1 and h is not None and h <= hi - 1:    # phi <= rest
                    return True
            if y.op == "ltz" and d == -1:
                if pos and k == -1 and l is not None and l >= lo:         # rest < phi
                    return True
                if negt and k == 1 and l is not None and l >= lo + 1:
                    return True
            if y.op == "eqz" and negt and d in (1, -1):                   # phi != rest
                if l is not None and h is not None and l >= lo and h <= hi:
                    return True
        return False

    def tripand(self, c, K):
        """The same for a linear condition and a further one."""
        if c.op != "ite":
            return None
        for y in sorted({y for y in t.walk(c) if y.op in ("ltz", "eqz")}, key=lambda y: y.id):
            if not any(z is K for z in t.walk(y)):
                continue
            for lit, keep in ((y, True), (t.not_(y), False)):
                if t.restrict1(c, y, not keep) is not FALSE or lit.op == "ite" and lit is c:
                    continue
                n = self.tripcount(lit, K)
                if n is not None:
                    g = t.restrict1(c, y, keep)
                    return t.mk("first", K, n, t.not_(g))
        return None

    def tripcount(self, c, K):
        """Least k >= 0 with c(k) false, for linear conditions."""
        def lin(x):
            c0, d = t._lin(x)
            k = d.pop(K, 0)
            if any(y is K for z in d for y in t.walk(z)):
                return None
            return k, t._mksum(c0, d)
        neg = False
        x = c
        if x.op == "ite" and x.a[1] is FALSE and x.a[2] is TRUE:
            neg = True
            x = x.a[0]
        if x.op == "ltz":
            r = lin(x.a[0])
            if r is None:
                return None
            k, rest = r
            if not neg and k > 0:          # k*K + rest < 0  while true
                n = t.neg(rest)            # K < n/k
                if k > 1:
                    n = t.div(t.add(n, C(k - 1)), C(k))
                return self.pos(n)
            if neg and k < 0:              # not(-|k| K + rest < 0): |k| K <= rest
                n = t.add(rest, C(-k))
                if k < -1:
                    n = t.div(n, C(-k))
                return self.pos(n)
            return None
        if not (x.op in ("ltz", "eqz")):
            return self.tripand(c, K)
        if x.op == "eqz" and neg:
            r = lin(x.a[0])
            if r is None:
                return None
            k, rest = r
            if k == 1:
                return t.neg(rest)
            if k == -1:
                return rest
            return None
        return None

    def pos(self, n):
        l, h = t.rng(n)
        if l is not None and l >= 0:
            return n
        g = t.constrain(t.lt(n, ZERO), self.st.pc if self.st is not None else TRUE)
        if g is FALSE:
            return n
        c, d = t._lin(n)
        if all(k == 1 and (t.rng(x)[0] or -1) >= 0 or t.rng(x)[0] == 0 for x, k in d.items()) and c >= 0:
            return n
        return t.gate(g, ZERO, n)

    def mu_exit(self, L):
        """No closed form: loop-carried results are unknown (but named)."""
        m = {}
        n = len(self.loops) - 1
        for i, ((r, p), info) in enumerate(L.leaves.items()):
            phi = info["phi"]
            o = t.mk("opq", ("mu", n, i), 0)
            info["out"] = o
            if isinstance(phi, T):
                if phi.op != "opq":
                    m[phi] = o
            elif isinstance(phi, It):
                m[phi.idx] = o
            elif isinstance(phi, Lst):
                m[phi.p[0][1]] = o
                self.elem_kind[o] = self.elem_kind.get(phi.p[0][1])
                if self.elem_kind[o] is None:
                    del self.elem_kind[o]
        pc0 = L.S0.pc
        outs = []
        fr = self.frames[-1]
        alls = ([(L.exit, False)] if L.exit is not None else []) + [(x, False) for x in L.breaks] + \
            [(x, True) for x in L.rets]
        for j, (x, isret) in enumerate(alls):
            y = self.subst_state(x, m, L.S0)
            y.pc = pc0 if len(alls) == 1 else t.and_(pc0, t.subst(t.constrain(x.pc, pc0), m))
            if isret:
                fr.rets.append(y)
            else:
                outs.append(y)
        self.st = merge_states(outs)

    # ------------------------------------------------------------ expressions

    def ev(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("analysis budget exceeded")
        return getattr(self, "e_" + n["k"], self.e_unknown)(n)

    def e_unknown(self, n):
        raise Unsupported("expression %s (%s) at %s" % (n["k"], n.get("c"), self.where(n)))

    def rv(self, n):
        v = self.ev(n)
        return self.rvv(n, v)

    def rvv(self, n, v):
        if self.st is None:
            return v
        if n.get("lv") and isinstance(v, (Loc, GV)):
            if isinstance(v, Loc):
                return self.load(v, n["t"])
            if v.alts and isinstance(v.alts[0][1], Loc):
                return self.load(v, n["t"])
        return v

    def lvl(self, n):
        """Location of n (temporaries are materialised)."""
        v = self.ev(n)
        if self.st is None:
            return v
        if isinstance(v, Loc) or (isinstance(v, GV) and isinstance(v.alts[0][1], Loc)):
            return v
        return self.temp(v)

    def e_const(self, n):
        return C(int(n["v"]))

    def e_null(self, n):
        return ZERO

    def e_str(self, n):
        return t.mk("str", n.get("v", ""))

    def e_zero(self, n):
        return self.default(n["t"])

    def e_mat(self, n):
        v = self.rv(n["e"])
        if self.st is None:
            return v
        return self.temp(v)

    def e_this(self, n):
        fr = self.frames[-1]
        if fr.this is None:
            raise Unsupported("this")
        return self.vm(fr.this, lambda l: self.addr(l))

    def addr(self, l):
        if isinstance(l, GV):
            return self.vm(l, self.addr)
        if not isinstance(l, Loc):
            raise Unsupported("address of %r" % (l,))
        if l.root[0] == "x" and not l.path:
            return l.root[1]
        if l.path and isinstance(l.path[-1], tuple) and l.path[-1][0] in ("el", "ix"):
            return It(Loc(l.root, l.path[:-1]), l.path[-1][1])
        return Ptr(l)

    def deref(self, p):
        """Location a pointer-like value points to."""
        if isinstance(p, GV):
            return self.vm(p, self.deref)
        if isinstance(p, Ptr):
            return p.lv
        if isinstance(p, It):
            return self.it_loc(p)
        if isinstance(p, Obj):
            return Loc(p.root)
        if isinstance(p, T):
            if p.op == "ite":
                # gated pointer terms
                return self.split_ite(p, self.deref)
            return Loc(("x", p))
        if isinstance(p, (Fn, Clo)):
            return p
        raise Unsupported("dereference of %r" % (p,))

    def split_ite(self, p, fn):
        alts = []

        def go(x, g):
            if g is FALSE:
                return
            if x.op == "ite":
                go(x.a[1], t.and_(g, x.a[0]))
                go(x.a[2], t.and_(g, t.not_(x.a[0])))
            else:
                alts.append((g, x))
        go(p, self.st.pc)
        out = [(t.constrain(g, self.st.pc), fn(x)) for g, x in alts if not (t.is_c(x) and x.a[0] == 0)]
        if not out:
            out = [(TRUE, fn(alts[0][1]))]
        return gv(out)

    def it_loc(self, p):
        lv = p.lv
        c = self.load(lv)
        idx = p.idx
        if p.rev:
            n = self.lst_size(c) if isinstance(c, Lst) else C(len(c.e))
            idx = t.sub(t.sub(n, ONE), idx)
        if isinstance(c, Arr):
            return lv.sub(("ix", idx))
        if isinstance(c, GV):
            raise Unsupported("iterator into gated container")
        if isinstance(c, Lst):
            v = self.lst_get(c, idx)
            if isinstance(v, Obj):
                return Loc(v.root)
            if isinstance(v, GV) and all(isinstance(w, Obj) for _, w in v.alts):
                return gv([(g, Loc(w.root)) for g, w in v.alts])
            return lv.sub(("el", idx))
        if isinstance(c, T):
            return lv.sub(("el", idx))
        raise Unsupported("iterator into %r" % (c,))

    def e_ref(self, n):
        fr = self.frames[-1] if self.frames else None
        loc = fr.find(n["d"]) if fr is not None else None
        if loc is None:
            if n.get("g"):
                g = self.p.G.get(n["d"])
                if g is not None and self.ty(g["t"])["k"] in ("ref", "rref"):
                    return self.lvl(g["init"])
                return Loc(("g", n["d"]))
            raise Unsupported("unbound variable %s at %s" % (n["n"], self.where(n)))
        return loc

    def e_fn(self, n):
        return Fn(n["f"])

    def e_memfn(self, n):
        return Fn(n["f"])

    def e_mem(self, n):
        b = n["b"]
        if n["arrow"]:
            p = self.rv(b)
            if self.st is None:
                return p
            loc = self.deref(p)
        else:
            v = self.ev(b)
            if self.st is None:
                return v
            if isinstance(v, Loc) or (isinstance(v, GV) and isinstance(v.alts[0][1], Loc)):
                loc = v
            else:
                # member of a prvalue
                return self.step(v, n["n"], self.ty(n["t"]))
        r = self.vm(loc, lambda l: l.sub(n["n"]))
        fty = self.p.R.get(n["rec"])
        if fty is not None:
            for x in fty.get("fields", []):
                if x["n"] == n["n"] and self.ty(x["t"])["k"] in ("ref", "rref"):
                    # reference member: stored as pointer-like location
                    v = self.load(r)
                    return v if isinstance(v, (Loc, GV)) else self.deref(v)
        return r

    def e_cast(self, n):
        ck = n["ck"]
        if ck == "LValueToRValue":
            v = self.ev(n["e"])
            if self.st is None:
                return v
            if isinstance(v, (Loc, GV)):
                r = self.load(v, n["t"])
                if isinstance(r, Obj):
                    raise Unsupported("scalar load of object")
                return r
            return v
        if ck in ("ArrayToPointerDecay",):
            l = self.lvl(n["e"])
            return It(l, ZERO) if isinstance(l, Loc) else self.vm(l, lambda x: It(x, ZERO))
        if ck == "ToVoid":
            self.ev(n["e"])
            return VOID
        v = self.ev(n["e"])
        if self.st is None:
            return v
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            ty = self.ty(n["t"])
            return self.vm(v, lambda x: t.cast(ty["w"], ty["sg"], x) if isinstance(x, T) else x)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return self.truth(v)
        if ck in ("NullToPointer", "NullToMemberPointer"):
            return ZERO
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "Dependent", "Dynamic",
                  "UserDefinedConversion", "ConstructorConversion"):
            return v
        if ck in ("IntegralToPointer", "PointerToIntegral"):
            return v
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast", "FloatingToBoolean"):
            return t.mk("fop", ck, v if isinstance(v, T) else t.opaque("float"))
        raise Unsupported("cast %s at %s" % (ck, self.where(n)))

    def arith(self, op, a, b, ty):
        if isinstance(a, GV):
            return self.vm(a, lambda x: self.arith(op, x, b, ty))
        if isinstance(b, GV):
            return self.vm(b, lambda x: self.arith(op, a, x, ty))
        if isinstance(a, It):
            if isinstance(b, It):
                d = t.sub(a.idx, b.idx)
                return t.neg(d) if a.rev else d
            return It(a.lv, t.add(a.idx, b) if op == "+" else t.sub(a.idx, b), a.rev)
        if isinstance(b, It) and op == "+":
            return It(b.lv, t.add(b.idx, a), b.rev)
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsupported("arithmetic on %r, %r" % (a, b))
        if ty["k"] == "ptr":
            pt = self.ty(ty["p"])
            sz = self.sizeof(pt)
            b2 = b if sz == 1 else t.mul(b, C(sz)) if sz else None
            if b2 is None:
                raise Unsupported("pointer arithmetic")
            return t.add(a, b2) if op == "+" else t.sub(a, b2)
        w, sg = ty["w"], ty["sg"]
        if op == "+":
            r = t.add(a, b)
        elif op == "-":
            r = t.sub(a, b)
        elif op == "*":
            r = t.mul(a, b)
        elif op == "/":
            r = t.div(a, b)
        elif op == "%":
            r = t.mod(a, b)
        elif op == "&":
            r = t.mk2("band", a, b)
        elif op == "|":
            r = t.mk2("bor", a, b)
        elif op == "^":
            r = t.mk2("bxor", a, b)
        elif op == "<<":
            r = t.shl(a, b)
        elif op == ">>":
            r = t.shr(a, b)
        else:
            raise Unsupported("operator " + op)
        if ty["k"] == "bool" or (sg and op in "+-*" and w >= 32):   # signed arithmetic that overflows means nothing
            return r
        return t.cast(w, sg, r)

    def sizeof(self, ty):
        if ty["k"] in ("int", "enum", "bool"):
            return max(1, ty["w"] // 8)
        return None

    def compare(self, op, a, b):
        if isinstance(a, GV):
            return self.vm(a, lambda x: self.compare(op, x, b))
        if isinstance(b, GV):
            return self.vm(b, lambda x: self.compare(op, a, x))
        if op in ("==", "!="):
            r = self.equal(a, b)
            return r if op == "==" else t.not_(r)
        if isinstance(a, It) and isinstance(b, It):
            a, b = (a.idx, b.idx) if not a.rev else (b.idx, a.idx)
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsupported("comparison of %r and %r" % (a, b))
        if op == "<":
            return t.lt(a, b)
        if op == ">":
            return t.lt(b, a)
        if op == "<=":
            return t.le(a, b)
        if op == ">=":
            return t.le(b, a)
        raise Unsupported("comparison " + op)

    def equal(self, a, b):
        if isinstance(a, T) and isinstance(b, T):
            if a.op == "str" or b.op == "str":
                return TRUE if a is b else (FALSE if a.op == b.op else t.mk("streq", *sorted((a, b), key=lambda x: x.id)))
            return t.eq(a, b)
        if isinstance(a, It) and isinstance(b, It):
            if a.lv == b.lv:
                return t.eq(a.idx, b.idx)
            return t.opaque("iterators of different containers")
        if isinstance(a, (Ptr, It, Fn)) and isinstance(b, (Ptr, It, Fn)):
            return TRUE if type(a) is type(b) and a == b else FALSE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Ptr, It, Fn, Clo)) and isinstance(y, T):
                return FALSE if self.noalias(x, y) else t.opaque("pointer comparison")
        if isinstance(a, Rec) and isinstance(b, Rec) and a.q == b.q == "#mapit":
            for x, y in ((a, b), (b, a)):
                if y.f["found"] is FALSE:
                    return t.not_(x.f["found"])
        raise Unsupported("equality of %r and %r" % (a, b))

    def noalias(self, x, y):
        return True

    def e_bin(self, n):
        op = n["op"]
        if op == ",":
            self.ev(n["a"])
            if self.st is None:
                return VOID
            return self.ev(n["b"])
        if op in ("&&", "||"):
            g = self.cond(n["a"])
            if self.st is None:
                return g
            if op == "&&":
                return self.branch(g, lambda: self.cond(n["b"]), lambda: FALSE)
            return self.branch(g, lambda: TRUE, lambda: self.cond(n["b"]))
        a = self.rv(n["a"])
        if self.st is None:
            return a
        b = self.rv(n["b"])
        if self.st is None:
            return b
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        return self.arith(op, a, b, self.ty(n["t"]))

    def e_asg(self, n):
        op = n["op"]
        if op == "=":
            v = self.rv(n["b"])
            if self.st is None:
                return v
            l = self.ev(n["a"])
            if self.st is None:
                return l
            self.assign(l, v, n)
            return l
        v = self.rv(n["b"])
        if self.st is None:
            return v
        l = self.ev(n["a"])
        old = self.load(l, n["a"]["t"])
        ct = self.ty(n["ct"])
        lt = self.ty(n["a"]["t"])
        if ct["k"] in ("int", "enum") and isinstance(old, T):
            x = t.cast(ct["w"], ct["sg"], old) if lt["k"] != "ptr" else old
            y = v
            if op not in ("<<=", ">>=") and isinstance(v, T):
                y = t.cast(ct["w"], ct["sg"], v)
            r = self.arith(op[:-1], x, y, ct)
        else:
            r = self.arith(op[:-1], old, v, ct)
        if lt["k"] in ("int", "enum") and isinstance(r, T):
            r = t.cast(lt["w"], lt["sg"], r)
        elif lt["k"] == "bool":
            r = self.truth(r)
        self.assign(l, r, n)
        return l

    def assign(self, l, v, n):
        self.store(l, v)

    def e_un(self, n):
        op = n["op"]
        if op in ("++", "--"):
            l = self.ev(n["e"])
            if self.st is None:
                return l
            old = self.load(l, n["e"]["t"])
            ty = self.ty(n["e"]["t"])
            r = self.incdec(old, ty, 1 if op == "++" else -1)
            self.store(l, r)
            if n["post"]:
                return old
            return l
        if op == "&":
            l = self.ev(n["e"])
            if self.st is None:
                return l
            if isinstance(l, (Fn,)):
                return l
            if not isinstance(l, (Loc, GV)):
                l = self.temp(l)
            return self.addr(l)
        v = self.rv(n["e"])
        if self.st is None:
            return v
        if op == "*":
            return self.deref(v)
        if op == "!":
            return self.vm(self.truth(v), t.not_)
        if op == "-":
            ty = self.ty(n["t"])
            return self.vm(v, lambda x: t.cast(ty["w"], ty["sg"], t.neg(x)))
        if op == "~":
            ty = self.ty(n["t"])
            return self.vm(v, lambda x: t.cast(ty["w"], ty["sg"], t.sub(t.neg(x), ONE)))
        if op == "+":
            return v
        raise Unsupported("unary " + op)

    def incdec(self, old, ty, d):
        if isinstance(old, GV):
            return self.vm(old, lambda x: self.incdec(x, ty, d))
        if isinstance(old, It):
            return It(old.lv, t.add(old.idx, C(d)), old.rev)
        if isinstance(old, T):
            if ty["k"] == "ptr":
                sz = self.sizeof(self.ty(ty["p"]))
                return t.add(old, C(d * sz))
            return t.cast(ty["w"], ty["sg"], t.add(old, C(d)))
        raise Unsupported("++ on %r" % (old,))

    def e_cond(self, n):
        g = self.cond(n["c"])
        if self.st is None:
            return g
        f = self.ev if n.get("lv") else self.rv
        return self.branch(g, lambda: f(n["a"]), lambda: f(n["b"]))

    def e_idx(self, n):
        a = self.rv(n["a"]) if not (n["a"].get("lv")) else self.ev(n["a"])
        if self.st is None:
            return a
        b = self.rv(n["b"])
        if self.st is None:
            return b
        if isinstance(a, Loc):
            return a.sub(("ix", b))
        return self.vm(a, lambda x: self.ptr_index(x, b, n))

    def ptr_index(self, a, b, n):
        if isinstance(a, It):
            return self.it_loc(It(a.lv, t.add(a.idx, b), a.rev))
        if isinstance(a, T):
            sz = self.sizeof(self.ty(n["t"]))
            if sz is None:
                return Loc(("x", t.mk("at", a, b, (None, None))))
            return Loc(("x", t.add(a, t.mul(b, C(sz)))))
        if isinstance(a, Ptr) and b is ZERO:
            return a.lv
        raise Unsupported("subscript of %r" % (a,))

    def e_init(self, n):
        ty = self.ty(n["t"])
        if ty["k"] == "arr":
            es = [self.rv(x) for x in n["e"]]
            while len(es) < ty["n"]:
                es.append(self.rv(n["fill"]) if n.get("fill") else self.default(ty["p"]))
            return Arr(es)
        if ty["k"] == "rec":
            if ty["q"] == "std::array":
                if not n["e"]:
                    return self.default_rec(ty)
                v = self.rv(n["e"][0])
                if isinstance(v, Arr):
                    return v
                raise Unsupported("array init")
            names = [x for x in n.get("fn", [])]
            f = {}
            for nm, x in zip(names, n["e"]):
                v = self.rv(x)
                if nm == "$base":
                    if isinstance(v, Rec):
                        f.update(v.f)
                else:
                    f[nm] = v
            # remaining members: in-class initialisers are part of the AST init list
            r = self.p.R.get(ty["r"])
            if r is not None and r.get("in"):
                for x in r["fields"]:
                    if x["n"] not in f:
                        f[x["n"]] = self.default(x["t"])
            return Rec(ty["q"], f)
        if not n["e"]:
            return self.default(n["t"])
        return self.rv(n["e"][0])

    def e_il(self, n):
        v = self.rv(n["e"])
        if isinstance(v, Arr):
            return Lst([("e", TRUE, x) for x in v.e])
        raise Unsupported("initializer list")

    def e_lambda(self, n):
        fr = self.frames[-1]
        env = {}
        this = fr.this
        for cp in n["caps"]:
            if cp.get("this"):
                continue
            if cp.get("ic"):
                if cp["byref"]:
                    env[cp["d"]] = self.lvl(cp["init"])
                else:
                    env[cp["d"]] = self.temp(self.rv(cp["init"]))
            elif cp["byref"]:
                l = fr.find(cp["d"])
                if l is not None:
                    env[cp["d"]] = l
            else:
                l = fr.find(cp["d"])
                if l is not None:
                    env[cp["d"]] = self.temp(self.load(l))
        c = Clo(n, env, this)
        c_parent = Frame(fr.fn, this, fr)
        c_parent.env = env
        c_parent.no = fr.no
        c.parent = c_parent
        return c

    def e_arrcopy(self, n):
        return self.rv(n["e"])

    def e_new(self, n):
        v = self.rv(n["e"]) if n.get("e") else self.uninit(n["at"], "new")
        return Ptr(Loc(self.heap(v)))

    # ------------------------------------------------------------ calls

    def e_ctor(self, n):
        from . import models
        f = self.p.F[n["f"]]
        ty = self.ty(n["t"])
        if n["cm"] and len(n["args"]) == 1:
            a = self.lvl(n["args"][0]) if models.moves(self, f, ty) else None
            if isinstance(a, Loc):
                v = models.clone(self, self.load(a))
                self.store(a, models.moved_from(self, v))
                return v
            if a is not None:
                return models.clone(self, models.val(self, a))
            return models.copy_value(self, n["args"][0])
        if ty["k"] == "arr":
            return Arr([self.default(ty["p"])] * ty["n"])
        if n.get("def") and not n["args"] and (f.get("defaulted") or f.get("implicit")) and not f.get("body"):
            return self.default_rec(ty, not n["zero"] and not n["list"])
        args = [self.arg(x, p) for x, p in zip(n["args"], f["params"] + [None] * len(n["args"]))]
        if self.st is None:
            return VOID
        h = self.over.get(f["q"])
        if h is not None:
            return h(self, n, f, None, args)
        r = models.construct(self, n, f, ty, args)
        if r is not None:
            return r
        if f.get("body"):
            return self.construct(f, ty, args)
        raise Unsupported("constructor %s at %s" % (f["sig"], self.where(n)))

    def construct(self, f, ty, args):
        """Run constructor f; the object's value."""
        rec = self.p.R[ty["r"]]
        root = self.temp(Rec(ty["q"], {}))
        self.run_ctor(f, root, args, rec)
        if self.st is None:
            return VOID
        return self.st.m.pop(root.root)

    def run_ctor(self, f, loc, args, rec):
        def pre():
            inited = set()
            for i in f.get("inits", []):
                if "field" in i:
                    fty = None
                    for x in rec["fields"]:
                        if x["n"] == i["field"]:
                            fty = self.ty(x["t"])
                    if fty is not None and fty["k"] in ("ref", "rref"):
                        v = self.lvl(i["e"])
                    else:
                        v = self.rv(i["e"])
                    if self.st is None:
                        return
                    self.store(loc.sub(i["field"]), v)
                    inited.add(i["field"])
                elif "base" in i:
                    e = i["e"]
                    bty = self.ty(i["base"])
                    if e["k"] == "ctor":
                        bf = self.p.F[e["f"]]
                        if bf.get("body"):
                            a = [self.arg(x, p) for x, p in zip(e["args"], bf["params"])]
                            self.run_ctor(bf, loc, a, self.p.R[bty["r"]])
                            continue
                    v = self.rv(e)
                    if isinstance(v, Rec):
                        cur = self.load(loc)
                        self.store(loc, Rec(cur.q, {**cur.f, **v.f}))
                elif "deleg" in i:
                    e = i["e"]
                    bf = self.p.F[e["f"]]
                    a = [self.arg(x, p) for x, p in zip(e["args"], bf["params"])]
                    self.run_ctor(bf, loc, a, rec)
                    for x in rec["fields"]:
                        inited.add(x["n"])
            for x in rec["fields"]:
                if x["n"] not in inited and self.st is not None:
                    cur = self.load(loc)
                    if x["n"] not in cur.f:
                        self.store(loc.sub(x["n"]), self.uninit(x["t"], x["n"]))
        self.invoke(f, loc, args, pre=pre)

    def e_inhctor(self, n):
        raise Unsupported("inherited constructor")

    def arg(self, n, p):
        """Argument value: Loc for reference parameters, value otherwise."""
        if self.st is None:
            return VOID
        if p is not None and self.ty(p["t"])["k"] in ("ref", "rref"):
            return self.lvl(n)
        return self.rv(n)

    def e_call(self, n):
        from . import models
        if "f" in n:
            f = self.p.F[n["f"]]
        else:
            callee = self.rv(n["callee"])
            if self.st is None:
                return VOID
            if isinstance(callee, Fn):
                f = self.p.F[callee.f]
            elif isinstance(callee, Clo):
                args = [self.lvl(a) for a in n["args"]]
                return self.call_closure(callee, args)
            else:
                raise Unsupported("indirect call at %s" % self.where(n))
        this = None
        if "this" in n:
            if n.get("arrow"):
                pv = self.rv(n["this"])
                if self.st is None:
                    return VOID
                this = self.deref(pv)
            else:
                v = self.ev(n["this"])
                if self.st is None:
                    return VOID
                this = v
        # operator calls evaluate assignment right-to-left
        args = []
        for i, a in enumerate(n["args"]):
            p = f["params"][i] if i < len(f["params"]) else None
            args.append(self.arg(a, p))
            if self.st is None:
                return VOID
        return self.dispatch(n, f, this, args)

    def dispatch(self, n, f, this, args):
        """Split on gated receivers/reference arguments, then call."""
        if isinstance(this, GV):
            return self.split(this, lambda w: self.dispatch(n, f, w, args))
        for i, a in enumerate(args):
            if isinstance(a, GV) and a.alts and isinstance(a.alts[0][1], (Loc, It, Ptr)):
                return self.split(a, lambda w: self.dispatch(n, f, this, args[:i] + [w] + args[i + 1:]))
        return self.call(n, f, this, args)

    def call(self, n, f, this, args):
        from . import models
        q = f["q"]
        h = self.over.get(q)
        if h is not None:
            return h(self, n, f, this, args)
        if f.get("lambda"):
            clo = self.load(this) if isinstance(this, Loc) else this
            if isinstance(clo, GV):
                return self.split(clo, lambda c: self.call(n, f, c, args))
            if not f.get("body") and not f["params"] and f["n"].startswith("operator "):
                return clo         # conversion to a function pointer
            if f["n"] == "__invoke":       # what a function pointer to a lambda points at
                op = [g for g in self.p.F.values() if g.get("lambda") and g["n"] == "operator()" and g.get("rec") == f.get("rec")
                      and g["q"] == f["q"].replace("__invoke", "operator()")]
                if f.get("rec") is None or len(op) != 1:
                    raise Unsupported("pointer to a lambda")
                f = op[0]
            if isinstance(clo, Clo):
                return self.invoke(f, clo.this, args, parent=clo.parent)
            if f.get("body"):      # captureless
                return self.invoke(f, None, args)
        r = models.call(self, n, f, this, args)
        if r is not models.NOMODEL:
            return r
        if f.get("body"):
            if f.get("ctor"):
                raise Unsupported("constructor call")
            return self.invoke(f, this, args)
        if f.get("defaulted") or f.get("implicit"):
            if f.get("copy_assign") or f.get("move_assign"):
                self.store(this, models.clone(self, self.load(args[0])))
                return this
        return models.external(self, n, f, this, args)

    def call_closure(self, clo, args):
        """Call a closure with Loc arguments."""
        if isinstance(clo, GV):
            return self.split(clo, lambda c: self.call_closure(c, args))
        if isinstance(clo, Fn):
            f = self.p.F[clo.f]
            if f.get("rec") is not None and not f.get("static") and len(args) == len(f["params"]) + 1:
                o = self.load(args[0]) if isinstance(args[0], Loc) else args[0]
                return self.dispatch({"k": "call"}, f, self.deref(o) if isinstance(o, Ptr) else args[0], self.conv_args(f, args[1:]))
            return self.dispatch({"k": "call"}, f, None, self.conv_args(f, args))
        n = clo.node
        if "f" in n:
            f = self.p.F[n["f"]]
        else:
            f = self.pick_inst(n["insts"], args)
        return self.invoke(f, clo.this, self.conv_args(f, args), parent=clo.parent)

    def pick_inst(self, insts, args):
        c = [self.p.F[i] for i in insts]
        if len(c) == 1:
            return c[0]
        for f in c:
            ok = True
            for p, a in zip(f["params"], args):
                ty = self.ty(self.p.nonref(p["t"]))
                v = self.load(a) if isinstance(a, Loc) else a
                q = v.q if isinstance(v, (Rec, Msg)) else None
                want = ty.get("q")
                if want != q and not (q is None and ty["k"] != "rec"):
                    ok = False
            if ok:
                return f
        raise Unsupported("cannot select a generic lambda instance")

    def conv_args(self, f, args):
        out = []
        for p, a in zip(f["params"], args):
            isref = self.ty(p["t"])["k"] in ("ref", "rref")
            if isref and not isinstance(a, (Loc, GV)):
                a = self.temp(a)
            elif not isref and isinstance(a, (Loc,)):
                a = self.load(a, p["t"])
            out.append(a)
        return out

    def invoke(self, f, this, args, parent=None, pre=None):
        if len(self.frames) > self.MAXDEPTH:
            raise Unsupported("call depth")
        body = f.get("body")
        if body is None:
            raise Unsupported("no body: " + f["sig"])
        self.functions.add(f["q"])
        if this is not None and not isinstance(this, (Loc, GV)):
            this = self.temp(this)
        fr = Frame(f, this, parent)
        self.nframe += 1
        fr.no = self.nframe
        for p, a in zip(f["params"], args):
            ty = self.ty(p["t"])
            if ty["k"] in ("ref", "rref"):
                if not isinstance(a, (Loc, GV)):
                    a = self.temp(a)
                fr.env[p["id"]] = a
            else:
                r = ("v", p["id"], fr.no)
                self.vartype[p["id"]] = ty
                self.st.m[r] = a
                fr.env[p["id"]] = Loc(r)
        self.frames.append(fr)
        sb, sc = self.brk, self.cont
        self.brk, self.cont = [], []
        try:
            if pre is not None:
                pre()
            self.ex(body)
        finally:
            self.frames.pop()
            self.brk, self.cont = sb, sc
        rts = fr.rets + ([self.st] if self.st is not None else [])
        self.st = merge_states(rts)
        if self.st is None:
            return VOID
        v = self.st.m.pop(("ret", fr.no), VOID)
        # drop the frame's locals that nothing can reach any more
        return v

    def upd_at(self, loc, fn):
        """Replace the value at loc by fn(value)."""
        if isinstance(loc, GV):
            _ = [self.store_g(l, self.vm(self.load(l), fn), t.constrain(g, self.st.pc)) for g, l in loc.alts]
            return
        v = self.load(loc)
        self.store(loc, self.vm(v, fn))

    def split_loc(self, loc, v, fn):
        """Run fn once per alternative of the gated value v stored at loc."""
        base = self.st
        outs = []
        for g, w in v.alts:
            g2 = t.and_(base.pc, g)
            if g2 is FALSE:
                continue
            self.st = base.copy(g2)
            self.store(loc, w)
            r = fn()
            if self.st is not None:
                outs.append((self.st, r))
        return self.join(outs)

    def on_assert(self, n, c):
        self.asserts.append((c, self.st.pc, self.where(n)))
        if self.assume_asserts:
            c = t.constrain(c, self.st.pc)
            pc = t.and_(self.st.pc, c)
            if pc is FALSE:
                self.st = None
            else:
                self.st.pc = pc

    def visit(self, fn, loc, v):
        if isinstance(v, GV):
            return self.split(v, lambda w: self.visit(fn, loc, w))
        i = t.constrain(v.f["i"], self.st.pc)
        if t.is_c(i):
            return self.call_closure(fn, [loc.sub("v")])
        return self.split_by(i, lambda: self.visit(fn, loc, self.load(loc)))

    def split_by(self, x, fn):
        """Run fn under each constant value of gated term x."""
        alts = []

        def go(y, g):
            if g is FALSE:
                return
            if y.op == "ite":
                go(y.a[1], t.and_(g, y.a[0]))
                go(y.a[2], t.and_(g, t.not_(y.a[0])))
            else:
                alts.append((g, y))
        go(x, self.st.pc)
        by = {}
        for g, y in alts:
            by[y] = t.or_(by.get(y, FALSE), g)
        base = self.st
        outs = []
        for y, g in by.items():
            if not t.is_c(y):
                raise Unsupported("dispatch on unknown discriminator")
            self.st = base.copy(g)
            r = fn()
            if self.st is not None:
                outs.append((self.st, r))
        return self.join(outs)

    # ------------------------------------------------------------ effects

    def emit(self, name, *vals):
        tr = self.st.m.get(("tr",), Lst())
        e = Rec("#eff:" + name, {str(i): freeze(v, self.st) for i, v in enumerate(vals)})
        self.st.m[("tr",)] = Lst(tr.p + (("e", TRUE, e),))

    def count(self, key, d=1):
        """Occurrence counter; returns the value before incrementing."""
        r = ("cnt", key)
        v = self.st.m.get(r, ZERO)
        self.st.m[r] = t.add(v, C(d))
        return v
