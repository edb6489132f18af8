"""Models of the library functions the analysed code calls: containers, iterators,
algorithms, memcpy and generated protobuf accessors (by descriptor)."""
from . import terms as t
from .terms import T, C, ZERO, ONE, TRUE, FALSE
from .values import (Loc, Ptr, Rec, Msg, Obj, Lst, Arr, It, Clo, Fn, GV, VOID, gv, merge, norm_parts, freeze, freeze_part)

NOMODEL = object()


def _uns(*a):
    from .interp import Unsupported
    raise Unsupported(*a)


# ------------------------------------------------------------------ copying


def clone(I, v):
    """Deep copy of a value (heap elements of containers are duplicated)."""
    if isinstance(v, (Msg, Lst, Rec, Arr, GV, Obj)):
        return freeze(v, I.st)
    return v


def copy_value(I, n):
    v = I.rv(n)
    if I.st is None:
        return v
    return clone(I, v)


def moves(I, f, ty):
    """Does this call of f take over what its argument holds?"""
    return ty.get("q") in MOVABLE and len(f["params"]) >= 1 and I.ty(f["params"][0]["t"])["k"] == "rref"


MOVABLE = ("std::unique_ptr", "std::shared_ptr", "std::vector", "std::deque", "std::list", "std::set")


def moved_from(I, v):
    """What is left of v once its contents have been taken (libstdc++)."""
    if isinstance(v, GV):
        return I.vm(v, lambda w: moved_from(I, w))
    return Lst() if isinstance(v, Lst) else ZERO


# ------------------------------------------------------------------ helpers


def elem_type(I, f_or_ty):
    return f_or_ty["a"][0]["t"]


def as_list(I, loc, v=None):
    v = I.load(loc) if v is None else v
    return v


def on_list(I, loc, fn):
    """fn(list value) -> result, splitting on gated contents."""
    v = I.load(loc)
    if isinstance(v, GV):
        return I.split(v, fn)
    return fn(v)


def size_of(I, v):
    if isinstance(v, Lst):
        return I.lst_size(v)
    if isinstance(v, Arr):
        return C(len(v.e))
    if isinstance(v, T) and v.op == "str":
        return C(len(v.a[0])) if isinstance(v.a[0], str) else t.mk("strlen", v)
    if isinstance(v, T):
        return t.mk("size", v)
    if isinstance(v, GV):
        return I.vm(v, lambda w: size_of(I, w))
    _uns("size of %r" % (v,))


def val(I, a):
    """rvalue of an argument that may be a reference."""
    return I.load(a) if isinstance(a, (Loc,)) or (isinstance(a, GV) and a.alts and isinstance(a.alts[0][1], Loc)) else a


def it_add(it, d):
    return It(it.lv, t.add(it.idx, d), it.rev)


def nonneg(I, d, what):
    """Fault when d, which must not be negative, is negative for some state and never positive."""
    if I.st is None or d.op == "c" and d.a[0] >= 0:
        return
    d = t.constrain(d, I.st.pc)
    h = t.rng(d)[1]
    c = t.constrain(t.lt(d, ZERO), I.st.pc)
    if c is FALSE or not (c is TRUE or h is not None and h <= 0):
        return
    from .compare import satisfiable
    from .interp import Fault
    if satisfiable(I, t.and_(I.st.pc, c), {}):
        raise Fault(what)


def range_parts(I, a, b):
    """Parts of the sequence [a, b)."""
    if isinstance(a, GV):
        _uns("gated range")
    if isinstance(a, It) and isinstance(b, It):
        if a.lv != b.lv:
            _uns("range over two containers")
        v = I.load(a.lv)
        n = size_of(I, v)
        nonneg(I, t.sub(b.idx, a.idx), "the range ends before it begins")
        nonneg(I, t.sub(n, b.idx), "the range ends past the end of its sequence")
        nonneg(I, a.idx, "the range begins before its sequence")
        if isinstance(v, Arr):
            v = Lst([("e", TRUE, x) for x in v.e])
        if isinstance(v, GV):
            _uns("gated range")
        if isinstance(v, T):
            v = Lst([("sl", v, ZERO, n)])
        if a.rev:
            s = I.lst_slice(v, t.sub(n, b.idx), t.sub(n, a.idx))
            return rev_parts(s.p)
        return I.lst_slice(v, a.idx, b.idx).p
    if isinstance(a, T) and isinstance(b, T):
        n = t.sub(b, a)
        return (("sl", t.mk("mem", a, 1), ZERO, n),)
    _uns("range %r" % (a,))


def rev_parts(ps):
    ps = tuple(ps)
    if all(p[0] == "e" for p in ps):
        return tuple(reversed(ps))
    if len(ps) == 1 and ps[0][0] == "rev":
        return ps[0][1].p
    return (("rev", Lst(ps)),)


def pure_call(I, name, args, rng=(None, None)):
    return t.mk("call", name, tuple(args), ("rng",) + tuple(rng))


# ------------------------------------------------------------------ memory


def strip(n):
    while n["k"] == "cast" and n.get("e"):
        n = n["e"]
    return n


def pointee(I, n):
    """Static element type behind pointer argument node n."""
    n = strip(n)
    ty = I.ty(I.p.nonref(n["t"]))
    if ty["k"] == "ptr" or ty["k"] == "arr":
        return I.ty(I.p.nonref(ty["p"]))
    return None


def to_bytes(v, nb):
    return [t.band(t.shr(v, C(8 * i)), C(255)) for i in range(nb)]


def read_scalar(I, src, nb, sg):
    """Value of nb bytes at pointer src, as an integer."""
    if isinstance(src, GV):
        return I.vm(src, lambda s: read_scalar(I, s, nb, sg))
    if isinstance(src, T):
        return t.mk("ld", src, nb, sg)
    if isinstance(src, Ptr):
        v = I.load(src.lv)
        if isinstance(v, T):
            return t.cast(8 * nb, sg, v)
    if isinstance(src, It):
        bs = [I.load(I.it_loc(it_add(src, C(i)))) for i in range(nb)]
        return t.cast(8 * nb, sg, t.add(*[t.scale(b, 1 << (8 * i)) for i, b in enumerate(bs)]))
    _uns("memory read from %r" % (src,))


def memcpy(I, n, f, this, args):
    dst, src, cnt = args
    if isinstance(cnt, T) and not t.is_c(cnt):
        cnt = t.constrain(cnt, I.st.pc)
    if not t.is_c(cnt):
        _uns("memcpy of symbolic size")
    nb = cnt.a[0]
    if nb == 0:
        return dst

    def one(d):
        if isinstance(d, Ptr):
            pt = pointee(I, n["args"][0])
            if pt is None or pt["k"] not in ("int", "enum", "bool"):
                _uns("memcpy into %s" % (pt and pt["s"]))
            w = max(8, pt["w"]) // 8
            if nb == w:
                v = read_scalar(I, src, nb, pt["sg"])
            elif nb < w:
                old = I.load(d.lv)
                lo = read_scalar(I, src, nb, False)
                v = t.cast(8 * w, pt["sg"], t.add(t.scale(t.shr(old, C(8 * nb)), 1 << (8 * nb)), lo))
            else:
                I.note("memcpy overruns its destination at %s" % I.where(n))
                v = read_scalar(I, src, w, pt["sg"])
            I.store(d.lv, v)
        elif isinstance(d, It):
            pt = pointee(I, n["args"][1])
            v = read_scalar(I, src, nb, False) if not isinstance(src, T) else None
            for i in range(nb):
                b = t.band(t.shr(v, C(8 * i)), C(255)) if v is not None else t.mk("ld", t.add(src, C(i)), 1, False)
                I.store(I.it_loc(it_add(d, C(i))), b)
        else:
            _uns("memcpy to %r" % (d,))
        return VOID
    I.split(dst, one)
    return dst


# ------------------------------------------------------------------ protobuf


def pb_new(I, f):
    return Obj(I.heap(Msg(I.fmsg(f))))


def pb_call(I, n, f, this, args, q):
    """Generated message method, by descriptor."""
    m = f["n"]
    d = I.p.cxx[q]
    if m in ("CopyFrom", "MergeFrom", "operator=", "Swap"):
        if m == "Swap":
            p = I.deref(args[0])
            a, b = I.load(this), I.load(p)
            I.store(this, clone(I, b))
            I.store(p, clone(I, a))
            return VOID
        v = clone(I, val(I, args[0]))
        if m == "MergeFrom":
            _uns("MergeFrom")
        I.store(this, v)
        return this
    if m == "Clear":
        I.store(this, Msg(q))
        return VOID
    if m == "default_instance":
        return I.temp(Msg(q))
    if m in ("New",):
        return Ptr(Loc(I.heap(Msg(q))))
    if m == "GetArena" or m == "GetArenaForAllocation":
        return t.mk("call", "arena", (), ("rng", None, None))

    def get(w):
        if isinstance(w, Obj):
            w = I.root(w.root)
        if isinstance(w, T) and w.op in ("opq", "at", "ld"):
            return Msg(q, {}, w)
        return w

    def fld(name):
        fd = d.fields.get(name)
        if fd is None:
            for x in d.fields.values():
                if x.name.lower() == name or x.name.lower() + "_" == name or x.name + "_" == name:
                    return x
        return fd
    oneofs = {x.oneof for x in d.fields.values() if x.oneof}
    if m.endswith("_case") and m[:-5] in oneofs:
        return I.vm(I.load(this), lambda w: I.pb_case(get(w)))
    if m.startswith("clear_") and m[6:] in oneofs:
        I.store(this, clear_oneof(I, d, get(I.load(this)), C(0)))
        return VOID
    fd = fld(m)
    if fd is not None:
        if not args:
            return this.sub(fd.name) if fd.repeated or fd.type == "message" else \
                I.vm(I.load(this), lambda w: I.pb_get(get(w), fd))
        # X(i)
        l = I.load(this.sub(fd.name))
        if fd.type == "message":
            return I.it_loc(It(this.sub(fd.name), args[0]))
        return I.vm(l, lambda w: I.lst_get(w, args[0]))
    if m.startswith("set_allocated_"):
        fd = fld(m[14:])
        if fd is not None:
            p = args[0]
            if p is ZERO:
                I.store(this, pb_clear(I, d, get(I.load(this)), fd))
            else:
                v = clone(I, I.load(I.deref(p)))
                pb_set(I, d, this, fd, v)
            return VOID
    if m.startswith("set_"):
        fd = fld(m[4:])
        if fd is not None:
            if fd.repeated:
                l = I.load(this.sub(fd.name))
                I.store(this.sub(fd.name), I.vm(l, lambda w: I.lst_set(w, args[0], lambda o: args[1])))
                return VOID
            pb_set(I, d, this, fd, strv(I, args, fd))
            return VOID
    if m.startswith("mutable_"):
        fd = fld(m[8:])
        if fd is not None:
            if fd.repeated:
                if args:
                    return I.vm(I.it_loc(It(this.sub(fd.name), args[0])), lambda l: Ptr(l))
                return Ptr(this.sub(fd.name))
            v = I.load(this)
            w = I.vm(v, lambda x: pb_mut(I, d, get(x), fd))
            I.store(this, w)
            return Ptr(this.sub(fd.name))
    if m.startswith("add_"):
        fd = fld(m[4:])
        if fd is not None:
            return rep_add(I, this.sub(fd.name), fd.type == "message" and fd,
                           None if fd.type == "message" else strv(I, args, fd))
    if m.startswith("clear_"):
        fd = fld(m[6:])
        if fd is not None:
            I.store(this, I.vm(I.load(this), lambda w: pb_clear(I, d, get(w), fd)))
            return VOID
    if m.startswith("has_"):
        fd = fld(m[4:])
        if fd is not None:
            return I.vm(I.load(this), lambda w: I.pb_has(get(w), fd))
    if m.startswith("_internal_"):
        return NOMODEL
    if m.endswith("_size"):
        fd = fld(m[:-5])
        if fd is not None:
            return I.vm(I.load(this.sub(fd.name)), I.lst_size)
    if m.startswith("release_") or m.startswith("unsafe_arena_release_"):
        fd = fld(m.split("release_", 1)[1])
        if fd is not None:
            w = get(I.load(this))
            r = I.heap(clone(I, I.pb_get(w, fd)))
            I.store(this, pb_clear(I, d, w, fd))
            return Ptr(Loc(r))
    if m in ("IsInitialized",):
        return TRUE
    if m == "ByteSizeLong":
        return t.mk("call", "bytesize", (freeze_term(I, I.load(this)),), ("rng", 0, None))
    return NOMODEL


def freeze_term(I, v):
    return t.opaque("message as term")


def strv(I, args, fd):
    if fd.type == "message":
        return clone(I, val(I, args[0]))
    v = val(I, args[0])
    if fd.type in ("string", "bytes"):
        if isinstance(v, It) or isinstance(v, Ptr):
            return t.mk("cstr", t.opaque("string"))
        return v
    if fd.type == "bool" and isinstance(v, T):
        return I.truth(v)
    r = I.PBR.get(fd.type)
    if r and isinstance(v, T):
        return t.cast(r[0], r[1], v)
    return v


def clear_oneof(I, d, w, case, keep=None):
    f = {k: v for k, v in w.f.items() if not (k in d.fields and d.fields[k].oneof and k != keep)}
    if w.base is not None:
        for x in d.fields.values():
            if x.oneof and x.name != keep:
                f[x.name] = I.pb_default(x)
    r = Msg(w.q, f, w.base)
    return r.set("@t", case)


def pb_mut(I, d, w, fd):
    if fd.oneof:
        v = I.pb_get(w, fd)
        return clear_oneof(I, d, w, C(fd.number), fd.name).set(fd.name, v)
    if fd.type == "message":
        v = I.pb_get(w, fd)
        return w.set(fd.name, v, "?" + fd.name, TRUE)
    return w.set(fd.name, I.pb_get(w, fd))


def pb_set(I, d, this, fd, v):
    def one(w):
        if isinstance(w, Obj):
            w = I.root(w.root)
        if fd.oneof:
            return clear_oneof(I, d, w, C(fd.number), fd.name).set(fd.name, v)
        if fd.type == "message":
            return w.set(fd.name, v, "?" + fd.name, TRUE)
        return w.set(fd.name, v)
    I.upd_at(this, one)


def pb_clear(I, d, w, fd):
    if fd.oneof:
        g = t.eq(I.pb_case(w), C(fd.number))
        return w.set("@t", t.gate(g, ZERO, I.pb_case(w)), fd.name, None if w.base is None else I.pb_default(fd))
    if fd.type == "message":
        return w.set(fd.name, Msg(I.fmsg(fd)), "?" + fd.name, FALSE)
    return w.set(fd.name, I.pb_default(fd))


def rep_add(I, loc, msgfd, v):
    l = I.load(loc)
    if isinstance(l, GV):
        _uns("append to gated list")
    if msgfd:
        o = pb_new(I, msgfd)
        I.store(loc, Lst(norm_parts(l.p + (("e", TRUE, o),))))
        return Ptr(Loc(o.root))
    I.store(loc, Lst(norm_parts(l.p + (("e", TRUE, v),))))
    return VOID


# ------------------------------------------------------------------ containers

VECS = ("std::vector", "std::deque", "std::list", "std::forward_list", "google::protobuf::RepeatedPtrField",
        "google::protobuf::RepeatedField", "std::initializer_list", "std::array", "std::set", "std::__cxx11::list",
        "std::__cxx11::basic_string", "std::basic_string", "std::basic_string_view", "std::unordered_set")


def list_elem_ty(I, n, f):
    """Element type of the container class of method f, from its record."""
    ta = f.get("rta")
    return None


def container_ty(I, n):
    ty = I.ty(I.p.nonref(n["this"]["t"]))
    if ty["k"] == "ptr":
        ty = I.ty(I.p.nonref(ty["p"]))
    return ty


def new_elem(I, n, args):
    """Value of a freshly emplaced element."""
    ty = container_ty(I, n)
    et = ty["a"][0]["t"]
    ety = I.ty(et)
    if not args:
        return I.default(et)
    if ety["k"] != "rec":
        return val(I, args[0])
    if ety["q"] == "std::variant":
        at = I.ty(I.p.nonref(n["args"][0]["t"]))
        if at["k"] == "rec" and at["q"].startswith("std::in_place"):
            i = alt_of(I, ety, at["a"][0])
            return Rec("std::variant", {"i": C(i), "v": alt_value(I, ety["a"][i]["t"], args[1:])})
        v = val(I, args[0])
        if isinstance(v, Rec) and v.q == "std::variant":
            return clone(I, v)
        return Rec("std::variant", {"i": C(best_alt(I, ety, at)), "v": clone(I, v)})
    if len(args) == 1:
        v = val(I, args[0])
        if isinstance(v, (Msg, Rec, Lst, Arr, GV, Obj, Clo, Ptr)):
            return clone(I, v)
    r = I.p.R.get(ety["r"])
    if r is not None and r.get("in"):
        for m in r.get("methods", []):
            g = I.p.F.get(m["f"])
            if g and g.get("ctor") and not g.get("copy") and g.get("body") and len(g["params"]) == len(args):
                return I.construct(g, ety, I.conv_args(g, args))
    if ety["q"] == "std::pair" and len(args) == 2:
        return Rec("std::pair", {"first": val(I, args[0]), "second": val(I, args[1])})
    if len(args) == 1 and not isinstance(val(I, args[0]), T):
        return val(I, args[0])
    _uns("emplaced element of %s" % ety["s"])


def to_parts(I, n, v):
    if isinstance(v, Lst):
        return v.p
    if isinstance(v, Arr):
        return tuple(("e", TRUE, x) for x in v.e)
    _uns("sequence %r" % (v,))


def seq_call(I, n, f, this, args, m):
    if isinstance(this, T):
        this = I.temp(this)
    v = I.load(this)
    if isinstance(v, GV) and m not in ("begin", "end", "cbegin", "cend", "size", "empty", "operator=", "clear"):
        return I.split_loc(this, v, lambda: seq_call(I, n, f, this, args, m))
    if m in ("size", "length", "max_size"):
        return size_of(I, v)
    if m == "empty":
        return I.vm(size_of(I, v), lambda x: t.eqz(x))
    if m in ("begin", "cbegin", "data"):
        if m == "data" and isinstance(v, T):
            return t.mk("data", v)
        return It(this, ZERO)
    if m in ("end", "cend"):
        return It(this, size_of(I, v))
    if m in ("rbegin", "crbegin"):
        return It(this, ZERO, True)
    if m in ("rend", "crend"):
        return It(this, size_of(I, v), True)
    if m in ("before_begin", "cbefore_begin"):
        return It(this, C(-1))
    if m in ("operator[]", "at", "Get"):
        return I.it_loc(It(this, val(I, args[0])))
    if m == "Mutable":
        return I.addr(I.it_loc(It(this, val(I, args[0]))))
    if m == "Set" and len(args) == 2:
        I.store(I.it_loc(It(this, val(I, args[0]))), val(I, args[1]))
        return VOID
    if m == "front":
        return I.it_loc(It(this, ZERO))
    if m == "back":
        return I.it_loc(It(this, t.sub(size_of(I, v), ONE)))
    if m in ("operator=", "CopyFrom", "assign") and len(args) == 1:
        w = clone(I, val(I, args[0]))
        if m == "operator=" and isinstance(args[0], Loc) and moves(I, f, container_ty(I, n)):
            I.store(args[0], moved_from(I, w))
        I.store(this, w)
        return this
    if m == "fill" and isinstance(v, Arr):
        I.store(this, Arr([val(I, args[0])] * len(v.e)))
        return VOID
    if m in ("reserve", "shrink_to_fit", "Reserve"):
        return VOID
    if not isinstance(v, Lst):
        _uns("%s on %r" % (m, v))

    def put(parts):
        I.store(this, Lst(norm_parts(parts)))
    if m in ("push_back", "emplace_back", "Add") and not (m == "Add" and len(args) == 2):
        if m == "Add" and not args:
            ty = container_ty(I, n)
            et = I.ty(ty["a"][0]["t"])
            if et["k"] == "rec":
                o = Obj(I.heap(Msg(et["q"])))
                put(v.p + (("e", TRUE, o),))
                return Ptr(Loc(o.root))
            put(v.p + (("e", TRUE, ZERO),))
            return Ptr(this.sub(("el", size_of(I, v))))
        e = new_elem(I, n, args)
        if I.st is None:
            return VOID
        v = I.load(this)
        put(v.p + (("e", TRUE, e),))
        if m == "emplace_back":
            return I.it_loc(It(this, I.lst_size(v)))
        if m == "Add":
            return Ptr(I.it_loc(It(this, I.lst_size(v))))
        return VOID
    if m == "Add":
        put(v.p + tuple(range_parts(I, val(I, args[0]), val(I, args[1]))))
        return VOID
    if m in ("pop_back", "RemoveLast"):
        I.store(this, I.lst_erase(v, t.sub(I.lst_size(v), ONE), I.lst_size(v)))
        return VOID
    if m == "pop_front":
        I.store(this, I.lst_erase(v, ZERO, ONE))
        return VOID
    if m in ("clear", "Clear"):
        I.store(this, Lst())
        return VOID
    if m in ("emplace_front", "push_front"):
        e = new_elem(I, n, args)
        if container_ty(I, n)["q"] == "std::forward_list" and not isinstance(e, Obj):
            e = Obj(I.heap(e))
        v = I.load(this)
        put((("e", TRUE, e),) + v.p)
        return I.it_loc(It(this, ZERO)) if m == "emplace_front" else VOID
    if m in ("insert", "emplace"):
        if not isinstance(args[0], It):
            a0 = val(I, args[0])
        else:
            a0 = args[0]
        if isinstance(a0, It) and a0.lv == this:
            if len(args) == 2:
                w = val(I, args[1])
                if isinstance(w, Lst) and f["params"][1]["t"] is not None and \
                        I.ty(I.p.nonref(f["params"][1]["t"])).get("q") == "std::initializer_list":
                    ps = w.p
                elif m == "emplace":
                    ps = (("e", TRUE, new_elem(I, n, args[1:])),)
                else:
                    ps = (("e", TRUE, clone(I, w)),)
            elif len(args) == 3:
                a, b = val(I, args[1]), val(I, args[2])
                if isinstance(a, It):
                    ps = range_parts(I, a, b)
                else:
                    ps = fill_parts(I, a, b)
            else:
                _uns("insert")
            v = I.load(this)
            I.store(this, I.lst_insert(v, a0.idx, ps))
            return It(this, a0.idx)
        # associative
        e = new_elem(I, n, args) if m == "emplace" else clone(I, a0)
        if I.set_insert is not None and isinstance(v, Lst):
            w = I.set_insert(v, e)
            if w is not None:
                I.store(this, w)
                return Rec("std::pair", {"first": t.opaque("iterator"), "second": t.opaque("inserted")})
        g = set_absent(I, v, e) if isinstance(v, Lst) else None
        if g is not None:
            I.store(this, Lst(norm_parts(v.p + (("e", g, e),))))
            return Rec("std::pair", {"first": t.opaque("iterator"), "second": g})
        I.store(this, Lst((("op", "setins", v, e),)))
        return Rec("std::pair", {"first": t.opaque("iterator"), "second": t.opaque("inserted")})
    if m == "erase":
        a = val(I, args[0])
        if isinstance(a, It):
            b = val(I, args[1]) if len(args) > 1 else it_add(a, ONE)
            I.store(this, I.lst_erase(v, a.idx, b.idx))
            return It(this, a.idx)
        _uns("erase by key")
    if m == "erase_after":
        a = val(I, args[0])
        b = val(I, args[1]) if len(args) > 1 else it_add(a, C(2))
        I.store(this, I.lst_erase(v, t.add(a.idx, ONE), b.idx))
        return VOID
    if m in ("resize", "Resize"):
        nn = val(I, args[0])
        fill = val(I, args[1]) if len(args) > 1 else None
        if fill is None:
            ty = container_ty(I, n)
            fill = I.default(ty["a"][0]["t"])
        resize(I, this, v, nn, fill)
        return VOID
    if m == "assign":
        a, b = val(I, args[0]), val(I, args[1])
        if isinstance(a, It):
            put(range_parts(I, a, b))
        else:
            put(fill_parts(I, a, b))
        return VOID
    if m == "swap":
        w = I.load(args[0])
        I.store(args[0], v)
        I.store(this, w)
        return VOID
    return NOMODEL


def fill_parts(I, n, x):
    if t.is_c(n):
        if n.a[0] <= 512:
            return (("e", TRUE, x),) * max(0, n.a[0])
    n = t.constrain(n, I.st.pc)
    l, h = t.rng(n)
    if t.is_c(n):
        return (("e", TRUE, x),) * max(0, n.a[0])
    return (("s", TRUE, n, t.mk("k", 90), (("e", TRUE, x),)),)


def resize(I, this, v, nn, fill):
    n = I.lst_size(v)
    d = t.sub(nn, n)
    if d is ZERO:
        return
    g = t.constrain(t.lt(d, ZERO), I.st.pc)
    if t.constrain(t.le(d, ZERO), I.st.pc) is TRUE:         # nothing to append
        g = TRUE

    def grow():
        w = I.load(this)
        I.store(this, Lst(norm_parts(w.p + tuple(fill_parts(I, d, fill)))))
        return VOID

    def cut():
        w = I.load(this)
        I.store(this, I.lst_erase(w, nn, n))
        return VOID
    if n is ZERO:
        grow()
        return
    I.branch(g, cut, grow)


# ------------------------------------------------------------------ iterators


def iter_call(I, n, f, this, args, m):
    ops = ([this] if this is not None else []) + list(args)

    def ival(a):
        return val(I, a)
    v = ival(ops[0])
    if isinstance(v, GV):
        return NOMODEL
    if m == "operator*":
        return I.it_loc(v)
    if m == "operator->":
        return I.vm(I.it_loc(v), lambda l: Ptr(l))
    if m in ("operator++", "operator--"):
        d = ONE if m == "operator++" else C(-1)
        I.store(ops[0], it_add(v, d))
        return v if len(ops) > 1 else ops[0]
    if m in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
        return I.compare(m[8:], v, ival(ops[1]))
    if m in ("operator+", "operator-"):
        w = ival(ops[1])
        return I.arith(m[8:], v, w, {"k": "other"})
    if m in ("operator+=", "operator-="):
        w = ival(ops[1])
        I.store(ops[0], I.arith(m[8:-1], v, w, {"k": "other"}))
        return ops[0]
    if m == "operator[]":
        return I.it_loc(it_add(v, ival(ops[1])))
    if m == "operator=":
        I.store(ops[0], ival(ops[1]))
        return ops[0]
    if m == "base":
        c = I.load(v.lv)
        return It(v.lv, t.sub(size_of(I, c), v.idx)) if v.rev else v
    return NOMODEL


# ------------------------------------------------------------------ free functions


def callf(I, fn, args):
    """Apply a callable value to Loc/value args."""
    return I.call_closure(fn, args)


def each(I, a, b, body):
    """Structured iteration over [a,b) through the loop solver."""
    pos = I.temp(a)

    def cnd():
        return I.compare("!=", I.load(pos), b)

    def inc():
        it = I.load(pos)
        I.store(pos, it_add(it, ONE))
    I.loop({"k": "algo", "l": 0, "f_": 0}, cnd, lambda: body(I.it_loc(I.load(pos))), inc)
    return pos


def free_call(I, n, f, this, args, q):
    b = q[5:] if q.startswith("std::") else q
    if b in ("forward", "move", "as_const", "ref", "cref", "launder", "forward_like") and len(args) == 1:
        return args[0]
    if b in ("addressof", "__addressof"):
        return I.addr(args[0])
    if b == "exchange":
        o = I.load(args[0])
        I.store(args[0], val(I, args[1]))
        return o
    if b == "swap":
        x, y = I.load(args[0]), I.load(args[1])
        if isinstance(x, T) or True:
            I.store(args[0], y)
            I.store(args[1], x)
        return VOID
    if b in ("min", "max") and len(args) == 2:
        x, y = val(I, args[0]), val(I, args[1])
        g = I.compare("<", y, x) if b == "min" else I.compare("<", x, y)
        return I.temp(merge(g, y, x))
    if b == "clamp" and len(args) == 3:
        x, lo, hi = (val(I, a) for a in args)
        r = merge(I.compare("<", x, lo), lo, merge(I.compare("<", hi, x), hi, x))
        return I.temp(r)
    if b in ("next", "prev"):
        d = val(I, args[1]) if len(args) > 1 else ONE
        v = val(I, args[0])
        return I.arith("+" if b == "next" else "-", v, d, {"k": "other"})
    if b == "advance":
        I.store(args[0], I.arith("+", I.load(args[0]), val(I, args[1]), {"k": "other"}))
        return VOID
    if b == "distance":
        return I.arith("-", val(I, args[1]), val(I, args[0]), {"k": "other"})
    if b in ("begin", "end", "cbegin", "cend", "size", "data", "empty", "rbegin", "rend"):
        v = I.load(args[0])
        return seq_call(I, n, f, args[0], [], b)
    if b == "invoke":
        return callf(I, val(I, args[0]), args[1:])
    if b == "get" and len(args) == 1:
        return get_model(I, n, f, args[0])
    if b == "get_if":
        l = I.deref(args[0])
        v = I.load(l)
        i = alt_index(I, n, f, v)
        g = I.vm(v, lambda w: t.eq(w.f["i"], C(i)))
        return gv([(g, Ptr(l.sub("v"))), (t.not_(g), ZERO)])
    if b == "holds_alternative":
        v = I.load(args[0])
        i = alt_index(I, n, f, v)
        return I.vm(v, lambda w: t.eq(w.f["i"], C(i)))
    if b == "visit":
        fn = val(I, args[0])
        v = I.load(args[1])
        return I.visit(fn, args[1], v)
    if b in ("tie", "make_tuple", "forward_as_tuple", "make_pair"):
        if b == "tie" or b == "forward_as_tuple":
            if not all(isinstance(a, Loc) for a in args):
                _uns("tuple of references")
            return Rec("std::tuple", {"_%d" % i: ref_to(a) for i, a in enumerate(args)})
        nm = ("first", "second") if b == "make_pair" else tuple("_%d" % i for i in range(len(args)))
        return Rec("std::pair" if b == "make_pair" else "std::tuple", {k: clone(I, val(I, a)) for k, a in zip(nm, args)})
    if b == "make_unique" or b == "make_shared":
        ty = I.ty(f["ta"][0]["t"])
        return make_obj(I, n, ty, f["ta"][0]["t"], args)
    # algorithms
    if b in ("any_of", "all_of", "none_of"):
        return quant(I, b, val(I, args[0]), val(I, args[1]), val(I, args[2]))
    if b in ("find_if", "find", "find_if_not"):
        return find(I, b, val(I, args[0]), val(I, args[1]), val(I, args[2]))
    if b == "for_each":
        fn = val(I, args[2])
        each(I, val(I, args[0]), val(I, args[1]), lambda l: callf(I, fn, [l]))
        return fn
    if b in ("count_if", "count"):
        fn = val(I, args[2])
        acc = I.temp(ZERO)

        def body(l):
            g = I.truth(callf(I, fn, [l])) if b == "count_if" else I.compare("==", I.load(l), fn)
            I.store(acc, t.add(I.load(acc), g))
        each(I, val(I, args[0]), val(I, args[1]), body)
        return I.load(acc)
    if b in ("copy", "reverse_copy", "copy_n", "move_backward", "copy_backward"):
        return copy_model(I, b, [val(I, a) for a in args])
    if b == "accumulate":
        acc = I.temp(val(I, args[2]), I.trng(I.ty(f["ta"][1]["t"])))
        fn = val(I, args[3]) if len(args) > 3 else None

        def body(l):
            o = I.load(acc)
            r = I.arith("+", o, I.load(l), I.ty(f["ta"][1]["t"])) if fn is None else val(I, callf(I, fn, [I.temp(o), l]))
            I.store(acc, cv(I, r, f["ta"][1]["t"]))
        each(I, val(I, args[0]), val(I, args[1]), body)
        return I.load(acc)
    if b in ("copy_if", "remove_if", "remove", "remove_copy_if", "remove_copy"):
        a, e = val(I, args[0]), val(I, args[1])
        fn = val(I, args[-1])
        if "remove" in b and "copy" not in b:
            if not isinstance(a, It) or a.rev:
                _uns("removal")
            kept = I.temp(Lst())
            each(I, a, e, lambda l: I.branch(test_of(I, b, fn, l), lambda: VOID, lambda: push_to(I, kept, I.load(l))))
            ps = I.load(kept).p
            m = size_of(I, Lst(ps))
            left = ("sl", t.opaque("moved-from elements"), ZERO, t.sub(t.sub(e.idx, a.idx), m))
            I.store(a.lv, replace_range(I, a, e, ps + (left,)))
            return it_add(a, m)
        out = I.temp(val(I, args[2]))
        put = lambda l: lambda: (put_out(I, out, I.load(l)), VOID)[1]
        if b == "copy_if":
            each(I, a, e, lambda l: I.branch(test_of(I, b, fn, l), put(l), lambda: VOID))
        else:
            each(I, a, e, lambda l: I.branch(test_of(I, b, fn, l), lambda: VOID, put(l)))
        return I.load(out)
    if b == "minmax" and len(args) == 2:
        x, y = val(I, args[0]), val(I, args[1])
        g = I.compare("<", y, x)
        return Rec("std::pair", {"first": merge(g, y, x), "second": merge(g, x, y)})
    if b == "iter_swap":
        x, y = (I.it_loc(val(I, a)) for a in args)
        u, w = I.load(x), I.load(y)
        I.store(x, w)
        I.store(y, u)
        return VOID
    if b == "iota":
        cur = I.temp(val(I, args[2]))

        def body(l):
            I.store(l, I.load(cur))
            I.store(cur, I.arith("+", I.load(cur), ONE, I.ty(f["ta"][1]["t"])))
        each(I, val(I, args[0]), val(I, args[1]), body)
        return VOID
    if b == "equal" and not any(isinstance(val(I, x), (Clo, Fn, Ptr)) for x in args):
        a, e, o = val(I, args[0]), val(I, args[1]), I.temp(val(I, args[2]))
        same = I.temp(TRUE, (0, 1))

        def body(l):
            it = I.load(o)
            I.store(same, t.and_(I.load(same), I.compare("==", I.load(l), I.load(I.it_loc(it)))))
            I.store(o, it_add(it, ONE))
        if len(args) == 4:
            b4 = val(I, args[3])
            g = t.eq(t.sub(e.idx, a.idx), t.sub(b4.idx, I.load(o).idx))
            return I.branch(g, lambda: (each(I, a, e, body), I.load(same))[1], lambda: FALSE)
        each(I, a, e, body)
        return I.load(same)
    if b in ("fill", "fill_n"):
        if b == "fill":
            x = val(I, args[2])
            each(I, val(I, args[0]), val(I, args[1]), lambda l: I.store(l, x))
            return VOID
    if b in ("transform",) and len(args) == 4:
        fn = val(I, args[3])
        out = I.temp(val(I, args[2]))

        def body(l):
            r = val(I, callf(I, fn, [l]))
            put_out(I, out, r)
        each(I, val(I, args[0]), val(I, args[1]), body)
        return I.load(out)
    if b == "reverse":
        a, e = val(I, args[0]), val(I, args[1])
        ps = rev_parts(range_parts(I, a, e))
        I.store(a.lv, replace_range(I, a, e, ps))
        return VOID
    if b == "rotate":
        a, mid, e = (val(I, x) for x in args)
        ps = tuple(range_parts(I, mid, e)) + tuple(range_parts(I, a, mid))
        I.store(a.lv, replace_range(I, a, e, ps))
        return It(a.lv, t.add(a.idx, t.sub(e.idx, mid.idx)))
    if b == "swap_ranges":
        a, e, o = (val(I, x) for x in args)
        o2 = It(o.lv, t.add(o.idx, t.sub(e.idx, a.idx)))
        p1, p2 = range_parts(I, a, e), range_parts(I, o, o2)
        I.store(a.lv, replace_range(I, a, e, p2))
        I.store(o.lv, replace_range(I, o, o2, p1))
        return o2
    if b in ("back_inserter", "front_inserter", "inserter"):
        return Rec("#ins", {"c": Ptr(args[0]), "kind": t.mk("str", b)})
    if b in ("numeric_limits::max", "numeric_limits::min", "numeric_limits::lowest"):
        _uns(b)
    if b in ("abs",):
        x = val(I, args[0])
        return merge(t.lt(x, ZERO), t.neg(x), x)
    if b in ("get_deleter",):
        return NOMODEL
    return NOMODEL


def test_of(I, b, fn, l):
    if b in ("remove", "remove_copy"):
        return I.compare("==", I.load(l), fn)
    return I.truth(val(I, callf(I, fn, [l])))


def push_to(I, lv, x):
    w = I.load(lv)
    I.store(lv, Lst(norm_parts(w.p + (("e", TRUE, x),))))
    return VOID


def put_out(I, out, r):
    o = I.load(out)
    if isinstance(o, It):
        I.store(I.it_loc(o), r)
        I.store(out, it_add(o, ONE))
        return
    if isinstance(o, Rec) and o.q == "#ins":
        l = I.deref(o.f["c"])
        w = I.load(l)
        if o.f["kind"].a[0] == "back_inserter":
            I.store(l, Lst(norm_parts(w.p + (("e", TRUE, r),))))
            return
        if o.f["kind"].a[0] == "front_inserter":
            I.store(l, Lst(norm_parts((("e", TRUE, r),) + w.p)))
            return
    _uns("output iterator")


def replace_range(I, a, e, ps):
    v = I.load(a.lv)
    nonneg(I, t.sub(size_of(I, v), e.idx), "elements are written past the end of the sequence")
    nonneg(I, a.idx, "elements are written before the beginning of the sequence")
    if isinstance(v, Arr):
        n = len(ps)
        n = t.sub(e.idx, a.idx)
        if t.is_c(n) and not all(p[0] == "e" and p[1] is TRUE for p in ps):
            ps = tuple(("e", TRUE, I.lst_get(Lst(ps), C(i))) for i in range(n.a[0]))
        n = len(ps)
        if t.is_c(a.idx) and all(p[0] == "e" and p[1] is TRUE for p in ps):
            i = a.idx.a[0]
            return Arr(v.e[:i] + tuple(p[2] for p in ps) + v.e[i + n:])
        _uns("range write into array")
    s = I.lst_split(v, a.idx)
    if s is not None:
        s2 = I.lst_split(Lst(s[1]), t.sub(e.idx, a.idx))
        if s2 is not None:
            return Lst(norm_parts(tuple(s[0]) + tuple(ps) + tuple(s2[1])))
    return Lst([("op", "repl", v, a.idx, e.idx, Lst(ps))])


def copy_model(I, b, a):
    if b == "copy_n":
        n = a[1]
        src = (a[0], I.arith("+", a[0], n, {"k": "other"}))
        dst = a[2]
    else:
        src, dst = (a[0], a[1]), a[2]
    ps = tuple(range_parts(I, *src))
    if b == "reverse_copy":
        ps = rev_parts(ps)
    if isinstance(dst, Rec) and dst.q == "#ins":
        l = I.deref(dst.f["c"])
        w = I.load(l)
        if dst.f["kind"].a[0] == "back_inserter":
            I.store(l, Lst(norm_parts(w.p + ps)))
            return dst
        _uns("copy to inserter")
    n = t.sub(src[1].idx, src[0].idx) if isinstance(src[0], It) else t.sub(src[1], src[0])
    if isinstance(dst, It):
        if dst.rev:
            if b != "copy":
                _uns("reverse output")
            c = size_of(I, I.load(dst.lv))
            e = It(dst.lv, t.sub(c, dst.idx))
            s = It(dst.lv, t.sub(t.sub(c, dst.idx), n))
            I.store(dst.lv, replace_range(I, s, e, rev_parts(ps)))
            return it_add(dst, n)
        if b in ("copy_backward", "move_backward"):
            s = It(dst.lv, t.sub(dst.idx, n))
            I.store(dst.lv, replace_range(I, s, dst, ps))
            return s
        I.store(dst.lv, replace_range(I, dst, it_add(dst, n), ps))
        return it_add(dst, n)
    _uns("copy destination %r" % (dst,))


def quant(I, kind, a, b, fn):
    acc = I.temp(FALSE if kind != "all_of" else TRUE, (0, 1))

    def body(l):
        r = I.truth(val(I, callf(I, fn, [l])))
        o = I.load(acc)
        if kind == "all_of":
            I.store(acc, t.and_(o, r))
        else:
            I.store(acc, t.or_(o, r))
    each(I, a, b, body)
    r = I.load(acc)
    return t.not_(r) if kind == "none_of" else r


def find(I, kind, a, b, fn):
    pos = I.temp(a)

    def cnd():
        c = I.compare("!=", I.load(pos), b)

        def test():
            l = I.it_loc(I.load(pos))
            if kind == "find":
                r = I.compare("==", I.load(l), fn)
            else:
                r = I.truth(val(I, callf(I, fn, [l])))
            return r if kind == "find_if_not" else t.not_(r)
        return I.branch(c, test, lambda: FALSE)

    def brk_body():
        pass
    # as a loop with an early exit so that the solver yields first/exists
    def cnd2():
        return I.compare("!=", I.load(pos), b)

    def body():
        l = I.it_loc(I.load(pos))
        if kind == "find":
            r = I.compare("==", I.load(l), fn)
        else:
            r = I.truth(val(I, callf(I, fn, [l])))
        if kind == "find_if_not":
            r = t.not_(r)

        def stop():
            I.x_break(None)
            return VOID
        I.branch(r, stop, lambda: VOID)
    I.loop({"k": "algo", "l": 0, "f_": 0}, cnd2, body, lambda: I.store(pos, it_add(I.load(pos), ONE)))
    return I.load(pos)


def alt_index(I, n, f, v):
    """Alternative number named by the template argument of std::get & co."""
    ta = f["ta"][0]
    if "v" in ta:
        return int(ta["v"])
    want = I.ty(ta["t"])
    # variant argument type
    a = n["args"][0]
    ty = I.ty(I.p.nonref(a["t"]))
    if ty["k"] == "ptr":
        ty = I.ty(I.p.nonref(ty["p"]))
    for i, x in enumerate(ty["a"]):
        if "t" in x and I.ty(x["t"])["s"].replace("const ", "") == want["s"].replace("const ", ""):
            return i
    _uns("variant alternative " + want["s"])


def ref_to(l):
    """Element of reference type of a tuple."""
    return Rec("#ref", {"p": Ptr(l)})


def is_ref(x):
    return isinstance(x, Rec) and x.q == "#ref"


def unref(I, x):
    return I.load(x.f["p"].lv) if is_ref(x) else x


def get_model(I, n, f, a):
    v = I.load(a) if isinstance(a, (Loc, GV)) else a
    w = v.alts[0][1] if isinstance(v, GV) else v
    if isinstance(w, Rec) and w.q == "std::variant":
        i = alt_index(I, n, f, w)
        g = t.constrain(I.vm(v, lambda x: t.eq(x.f["i"], C(i))), I.st.pc)
        if g is FALSE:
            I.unreach.append((I.st.pc, I.where(n)))
            I.st = None
            return VOID
        return a.sub("v")
    i = int(f["ta"][0]["v"])
    if isinstance(w, Rec) and w.q == "std::pair":
        return a.sub("first" if i == 0 else "second")
    if isinstance(w, Arr):
        return a.sub(("ix", C(i)))
    if isinstance(w, Rec):
        x = w.f["_%d" % i]
        if is_ref(x):
            return x.f["p"].lv
        return a.sub("_%d" % i)
    _uns("std::get of %r" % (w,))


def make_obj(I, n, ty, tid, args):
    if ty["k"] != "rec":
        v = val(I, args[0]) if args else ZERO
    else:
        r = I.p.R.get(ty["r"])
        v = None
        if r is not None and r.get("in"):
            for m in r.get("methods", []):
                g = I.p.F.get(m["f"])
                if g and g.get("ctor") and not g.get("copy") and g.get("body") and len(g["params"]) == len(args):
                    v = I.construct(g, ty, I.conv_args(g, args))
                    break
        if v is None:
            v = I.default(tid) if not args else clone(I, val(I, args[0]))
            if isinstance(v, T) or len(args) > 1:
                _uns("object of %s" % ty["s"])
    return Ptr(Loc(I.heap(v)))


# ------------------------------------------------------------------ entry points


def call(I, n, f, this, args):
    q = f["q"]
    if q == "ygv_assert":
        c = I.truth(args[0]) if not isinstance(args[0], GV) else t.opaque("assert")
        I.on_assert(n, c)
        return VOID
    if q in ("__builtin_popcount", "__builtin_popcountl", "__builtin_popcountll", "std::popcount"):
        return t.pop(args[0])
    if q in ("__builtin_unreachable", "abort", "std::abort", "std::terminate", "__assert_fail", "exit"):
        I.unreach.append((I.st.pc, I.where(n)))
        I.st = None
        return VOID
    if q in ("memcpy", "std::memcpy", "__builtin_memcpy", "memmove", "std::memmove"):
        return memcpy(I, n, f, this, args)
    cls, _, m = q.rpartition("::")
    if cls in I.p.cxx:
        if this is None and m != "default_instance":
            return NOMODEL
        return pb_call(I, n, f, this, args, cls)
    if q.startswith("google::protobuf::Arena::Create") or q == "google::protobuf::Arena::CreateMaybeMessage":
        ty = I.ty(f["ta"][0]["t"])
        return Ptr(Loc(I.heap(I.default(f["ta"][0]["t"]))))
    if q.startswith("google::protobuf::Arena::"):
        return t.mk("call", q, (), ("rng", None, None))
    if m.endswith("_IsValid") and q.startswith("YGOpen::Proto"):
        e = enum_desc(I, q[:-8])
        if e is not None:
            r = FALSE
            for v in e:
                r = t.or_(r, t.eq(args[0], C(v)))
            return r
    if q.startswith(("std::", "__gnu_cxx::", "google::protobuf::")):
        # iterators first: receiver or first argument is an iterator value
        o = this if this is not None else (args[0] if args else None)
        if o is not None and m.startswith("operator") or m == "base":
            v = o
            if isinstance(o, Loc):
                try:
                    v = I.load(o)
                except Exception:
                    v = None
            if isinstance(v, It):
                r = iter_call(I, n, f, this, args, m)
                if r is not NOMODEL:
                    return r
        if this is not None:
            r = method(I, n, f, this, args, cls, m)
            if r is not NOMODEL:
                return r
        else:
            if m.startswith("operator") and args:
                r = op_call(I, n, f, args, m)
                if r is not NOMODEL:
                    return r
            r = free_call(I, n, f, this, args, q)
            if r is not NOMODEL:
                return r
    return NOMODEL


def op_call(I, n, f, args, m):
    op = m[8:]
    vs = [val(I, a) for a in args]
    if op in ("==", "!=") and len(vs) == 2:
        a, b = vs
        if isinstance(a, Lst) and isinstance(b, Lst):
            if a == b:
                return TRUE if op == "==" else FALSE
            if t.constrain(t.eq(I.lst_size(a), I.lst_size(b)), I.st.pc) is FALSE:
                return FALSE if op == "==" else TRUE
            return t.opaque("container comparison")
        if isinstance(a, Rec) and a.q == "std::optional" and isinstance(b, Rec) and b.q == a.q:
            h = t.and_(a.f["has"], b.f["has"])
            r = h if h is FALSE else t.and_(h, I.equal(a.f["val"], b.f["val"]))
            r = t.or_(r, t.and_(t.not_(a.f["has"]), t.not_(b.f["has"])))
            return r if op == "==" else t.not_(r)
        if isinstance(a, Rec) and isinstance(b, Rec) and a.q != "#mapit":
            r = TRUE
            for k in a.f:
                r = t.and_(r, I.equal(unref(I, a.f[k]), unref(I, b.f[k])))
            return r if op == "==" else t.not_(r)
        return I.compare(op, a, b)
    if op in ("<", ">", "<=", ">="):
        a, b = vs
        if isinstance(a, Rec) and a.q in ("std::tuple", "std::pair"):
            ks = list(a.f)

            def get(r, k):
                return unref(I, r.f[k])
            lt = FALSE
            if op in (">", "<="):
                a, b = b, a
            for k in reversed(ks):
                x, y = get(a, k), get(b, k)
                lt = t.or_(I.compare("<", x, y), t.and_(I.equal(x, y), lt))
            return lt if op in ("<", ">") else t.not_(lt)
        return I.compare(op, a, b)
    if op in ("&", "|", "^") and len(vs) == 2 and all(isinstance(x, T) for x in vs):
        return t.mk2({"&": "band", "|": "bor", "^": "bxor"}[op], *vs)
    return NOMODEL


def enum_desc(I, cxxname):
    for e in I.p.schema.enums.values():
        if I.p.schema.cxx_name(e.name) == cxxname:
            return [n for _, n in e.values]
    return None


def set_absent(I, v, e):
    """Condition under which e is not in the set listed by v (None: not known)."""
    g = TRUE
    for p in v.p:
        if p[0] == "e":
            g = t.and_(g, t.not_(t.and_(p[1], I.equal(p[2], e))))
        else:
            return None
    return g


def method(I, n, f, this, args, cls, m):
    if cls in ("std::basic_string", "std::__cxx11::basic_string") and m == "operator conv":
        return clone(I, val(I, this))
    if cls in VECS:
        return seq_call(I, n, f, this, args, m)
    if cls == "std::bitset":
        v = I.load(this)
        b = v.f["v"] if isinstance(v, Rec) else v
        if m == "operator[]" or m == "test":
            i = val(I, args[0])
            if isinstance(this, Loc) and not I.ty(f["rt"])["k"] == "bool":
                return Rec("#bitref", {"c": Ptr(this), "i": i})
            return t.band(t.shr(b, i), ONE)
        if m in ("set", "reset", "flip"):
            n_ = v.f["n"].a[0]
            if not args:
                I.store(this, v.set("v", C((1 << n_) - 1) if m == "set" else ZERO))
                return this
            i = val(I, args[0])
            on = I.truth(val(I, args[1])) if len(args) > 1 else (TRUE if m == "set" else FALSE)
            bit = t.band(t.shr(b, i), ONE)
            I.store(this, v.set("v", t.add(b, t.mul(t.sub(on, bit), t.shl(ONE, i)))))
            return this
        if m in ("to_ulong", "to_ullong"):
            return b
        if m in ("any", "none"):
            return t.not_(t.eqz(b)) if m == "any" else t.eqz(b)
        if m == "count":
            return t.add(*[t.band(t.shr(b, C(i)), ONE) for i in range(v.f["n"].a[0])])
        return NOMODEL
    if cls.endswith("bitset::reference") or cls.endswith("::reference"):
        v = I.load(this)
        if isinstance(v, Rec) and v.q == "#bitref":
            if m.startswith("operator") and m != "operator=":
                l = I.deref(v.f["c"])
                bb = I.load(l).f["v"]
                bit = t.band(t.shr(bb, v.f["i"]), ONE)
                return t.not_(bit) if m == "operator~" else bit
    if cls == "std::variant":
        v = I.load(this)
        if m == "index":
            return I.vm(v, lambda w: w.f["i"])
        if m == "valueless_by_exception":
            return FALSE
        if m == "emplace":
            ty = container_ty(I, n)
            ta = f["ta"][0]
            i = alt_of(I, ty, ta)
            x = alt_value(I, ty["a"][i]["t"], args)
            I.store(this, Rec("std::variant", {"i": C(i), "v": x}))
            return this.sub("v")
        if m == "operator=":
            x = args[0]
            pv = val(I, x)
            if isinstance(pv, Rec) and pv.q == "std::variant":
                I.store(this, clone(I, pv))
                return this
            ty = container_ty(I, n)
            at = I.ty(I.p.nonref(n["args"][0]["t"]))
            i = best_alt(I, ty, at)
            I.store(this, Rec("std::variant", {"i": C(i), "v": clone(I, pv)}))
            return this
    if cls in ("std::unique_ptr", "std::shared_ptr", "std::optional"):
        v = I.load(this)
        if cls == "std::optional":
            if m in ("has_value", "operator bool", "operator conv"):
                return I.vm(v, lambda w: w.f["has"])
            if m in ("operator*", "value"):
                return this.sub("val")
            if m == "operator->":
                return Ptr(this.sub("val"))
            if m == "reset":
                I.store(this, v.set("has", FALSE))
                return VOID
            if m == "operator=":
                w = val(I, args[0])
                if isinstance(w, Rec) and w.q == "std::optional":
                    I.store(this, clone(I, w))
                else:
                    I.store(this, Rec("std::optional", {"has": TRUE, "val": clone(I, w)}))
                return this
            if m == "emplace":
                ty = container_ty(I, n)
                x = alt_value(I, ty["a"][0]["t"], args)
                I.store(this, Rec("std::optional", {"has": TRUE, "val": x}))
                return this.sub("val")
            if m == "value_or":
                return I.vm(v, lambda w: merge(w.f["has"], w.f["val"], val(I, args[0])))
            return NOMODEL
        if m == "operator*":
            return I.vm(v, I.deref)
        if m in ("operator->", "get"):
            return v
        if m.startswith("operator bool") or m == "operator conv":
            return I.truth(v)
        if m == "reset":
            I.store(this, val(I, args[0]) if args else ZERO)
            return VOID
        if m == "release":
            I.store(this, ZERO)
            return v
        if m == "operator=":
            w = val(I, args[0])
            if isinstance(args[0], Loc) and I.ty(f["params"][0]["t"])["k"] == "rref":
                I.store(args[0], ZERO)
            I.store(this, w)
            return this
    if cls in ("std::map", "std::unordered_map"):
        return map_call(I, n, f, this, args, m)
    if cls in ("std::pair", "std::tuple") and m == "operator=":
        v, w = I.load(this), val(I, args[0])
        ty = container_ty(I, n)
        if not isinstance(v, Rec) or not isinstance(w, Rec) or len(v.f) != len(w.f):
            _uns("assignment of %r" % (w,))
        new = [unref(I, x) for x in w.f.values()]
        for k, y, e in zip(list(v.f), new, ty["a"]):
            y = cv(I, y, e["t"])
            I.store(v.f[k].f["p"].lv if is_ref(v.f[k]) else this.sub(k), y)
        return this
    if cls == "std::function" and m == "operator=" and len(args) == 1:
        I.store(this, val(I, args[0]))
        return this
    if cls == "std::function" and m == "operator()":
        return callf(I, I.load(this), args)
    return NOMODEL


def alt_of(I, ty, ta):
    if "v" in ta:
        return int(ta["v"])
    w = I.ty(ta["t"])["s"]
    for i, x in enumerate(ty["a"]):
        if "t" in x and I.ty(x["t"])["s"] == w:
            return i
    _uns("variant alternative")


def best_alt(I, ty, at):
    for i, x in enumerate(ty["a"]):
        if "t" in x and I.ty(x["t"])["s"].replace("const ", "") == at["s"].replace("const ", ""):
            return i
    for i, x in enumerate(ty["a"]):
        if "t" in x and I.ty(x["t"])["k"] == at["k"]:
            return i
    _uns("variant alternative for " + at["s"])


def alt_value(I, tid, args):
    ty = I.ty(tid)
    if ty["k"] != "rec":
        return val(I, args[0]) if args else ZERO
    if not args:
        return I.default(tid)
    if len(args) == 1:
        v = val(I, args[0])
        if isinstance(v, (Rec, Msg)) and v.q == ty["q"]:
            return clone(I, v)
        if isinstance(v, (Lst, Arr)):
            return v
    r = I.p.R.get(ty["r"])
    if r is not None and r.get("in"):
        for m in r.get("methods", []):
            g = I.p.F.get(m["f"])
            if g and g.get("ctor") and not g.get("copy") and g.get("body") and len(g["params"]) == len(args):
                return I.construct(g, ty, I.conv_args(g, args))
        if not r["bases"] and len(r["fields"]) >= len(args):
            fl = {x["n"]: val(I, a) for x, a in zip(r["fields"], args)}
            for x in r["fields"][len(args):]:
                fl[x["n"]] = I.default(x["t"])
            return Rec(ty["q"], fl)
    _uns("alternative of %s" % ty["s"])


def map_call(I, n, f, this, args, m):
    h = I.map_model
    if h is not None:
        return h(I, n, f, this, args, m)
    return NOMODEL


def construct(I, n, f, ty, args):
    """Constructor of a library/protobuf type, or None."""
    q = ty.get("q", "")
    if q in I.p.cxx:
        if not args:
            return Msg(q)
        v = val(I, args[0])
        if isinstance(v, (Msg, GV)):
            return clone(I, v)
        return Msg(q)
    if not q.startswith(("std::", "google::", "__gnu_cxx::")):
        if f.get("copy") and not f.get("body"):
            return clone(I, val(I, args[0]))
        return None
    if q in I.LISTS:
        if not args:
            return Lst()
        vs = [val(I, a) for a in args]
        if isinstance(vs[0], (Lst, GV)) and not isinstance(vs[0], T):
            return clone(I, vs[0])
        if isinstance(vs[0], T) and len(f["params"]) >= 1 and I.ty(I.p.nonref(f["params"][0]["t"]))["k"] == "int":
            ints = [v for v, p in zip(vs, f["params"]) if I.ty(I.p.nonref(p["t"]))["k"] != "rec" or
                    not I.ty(I.p.nonref(p["t"]))["q"].endswith("allocator")]
            fill = ints[1] if len(ints) > 1 else I.default(ty["a"][0]["t"])
            return Lst(norm_parts(fill_parts(I, vs[0], fill)))
        if len(vs) >= 2 and isinstance(vs[0], It):
            return Lst(norm_parts(range_parts(I, vs[0], vs[1])))
        return Lst()
    if q == "std::array":
        return I.default_rec(ty)
    if q == "std::pair":
        if not args:
            return I.default_rec(ty)
        if any(I.ty(e["t"])["k"] in ("ref", "rref") for e in ty["a"]):
            _uns("pair of references")
        vs = [val(I, a) for a in args]
        if len(vs) == 1:
            return clone(I, vs[0])
        return Rec(q, {"first": cv(I, vs[0], ty["a"][0]["t"]), "second": cv(I, vs[1], ty["a"][1]["t"])})
    if q == "std::tuple":
        vs = [val(I, a) for a in args]
        if len(vs) == 1 and isinstance(vs[0], Rec) and vs[0].q == "std::tuple":
            w = list(vs[0].f.values())
            if len(w) != len(ty["a"]):
                _uns("tuple conversion")
            return Rec(q, {"_%d" % i: x if is_ref(x) and I.ty(e["t"])["k"] in ("ref", "rref") else cv(I, unref(I, x), e["t"])
                           for i, (x, e) in enumerate(zip(w, ty["a"]))})
        if not args:
            return Rec(q, {"_%d" % i: I.default(e["t"]) for i, e in enumerate(ty["a"])})
        if len(args) != len(ty["a"]):
            _uns("tuple from %d values" % len(args))
        r = {}
        for i, (a, v, e) in enumerate(zip(args, vs, ty["a"])):
            if I.ty(e["t"])["k"] in ("ref", "rref"):
                if not isinstance(a, Loc):
                    _uns("tuple of references")
                r["_%d" % i] = ref_to(a)
            else:
                r["_%d" % i] = cv(I, v, e["t"])
        return Rec(q, r)
    if q == "std::bitset":
        v = val(I, args[0]) if args else ZERO
        w = ty["a"][0]["v"]
        return Rec(q, {"v": t.cast(int(w), False, v), "n": C(int(w))})
    if q == "std::variant":
        if not args:
            return I.default_rec(ty)
        v = val(I, args[0])
        if isinstance(v, Rec) and v.q == "std::variant":
            return clone(I, v)
        if f["params"] and I.ty(I.p.nonref(f["params"][0]["t"])).get("q", "").startswith("std::in_place"):
            pty = I.ty(I.p.nonref(f["params"][0]["t"]))
            i = alt_of(I, ty, pty["a"][0])
            return Rec(q, {"i": C(i), "v": alt_value(I, ty["a"][i]["t"], args[1:])})
        at = I.ty(I.p.nonref(f["params"][0]["t"]))
        i = best_alt(I, ty, at)
        return Rec(q, {"i": C(i), "v": clone(I, v)})
    if q in ("std::unique_ptr", "std::shared_ptr"):
        if not args:
            return ZERO
        v = val(I, args[0])
        if isinstance(args[0], Loc) and q == "std::unique_ptr":
            I.store(args[0], ZERO)
        return v
    if q == "std::optional":
        if not args:
            return Rec(q, {"has": FALSE, "val": I.default(ty["a"][0]["t"])})
        v = val(I, args[0])
        if isinstance(v, Rec) and v.q in ("std::nullopt_t",):
            return Rec(q, {"has": FALSE, "val": I.default(ty["a"][0]["t"])})
        if isinstance(v, Rec) and v.q == q:
            return clone(I, v)
        return Rec(q, {"has": TRUE, "val": clone(I, v)})
    if q == "std::map":
        return I.default_rec(ty)
    if q in ("std::function", "std::reference_wrapper"):
        if not args:
            return ZERO
        return val(I, args[0])
    if q in ("std::reverse_iterator",):
        v = val(I, args[0])
        if isinstance(v, It):
            if v.rev:
                return v
            return It(v.lv, t.sub(size_of(I, I.load(v.lv)), v.idx), True)
    if q == "std::mersenne_twister_engine" or q == "std::random_device":
        return t.opaque("random generator")
    if len(args) == 1:
        v = val(I, args[0])
        if isinstance(v, It):
            return v
        if isinstance(v, T) and v.op == "str" or q.endswith("basic_string_view") or q.endswith("basic_string"):
            if isinstance(v, T):
                return v
    if not args:
        try:
            return I.default_rec(ty)
        except Exception:
            return t.mk("dflt", q)
    if q.endswith("basic_string") or q.endswith("basic_string_view"):
        v = val(I, args[0])
        if isinstance(v, T):
            return v
        return t.opaque("string")
    return None


def cv(I, v, tid):
    ty = I.ty(I.p.nonref(tid))
    if isinstance(v, T) and ty["k"] in ("int", "enum"):
        return t.cast(ty["w"], ty["sg"], v)
    return clone(I, v)


def external(I, n, f, this, args):
    if I.external is not None:
        return I.external(n, f, this, args)
    _uns("external %s at %s" % (f["sig"], I.where(n)))
