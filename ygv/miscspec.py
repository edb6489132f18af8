"""The encode context and the place helpers."""
from . import build as ygbuild, terms as t
from .budget import limit
from .cardspec import at, entry
from .compare import Result, compare
from .decspec import keep
from .eventspec import Out
from .frame import BIG, PILES, PLACE, ZONES, card, lst, place, program, seg
from .interp import Interp
from .models import val
from .terms import C, FALSE, TRUE, ZERO, ONE
from .values import Loc, Lst, Msg, Rec, VOID

CTX = "YGOpen::Server::BasicEncodeContext"
U32 = (0, 2 ** 32 - 1)
S32 = (-2 ** 31, 2 ** 31 - 1)


def unknown_place(n):
    return Msg(PLACE, {"con": t.atom("con " + n, *S32), "loc": t.atom("loc " + n, *U32), "seq": t.atom("seq " + n, *U32),
                       "oseq": t.atom("oseq " + n, *S32)})


def same(a, b):
    r = TRUE
    for f in ("con", "loc", "seq", "oseq"):
        r = t.and_(r, t.eq(a.f[f], b.f[f]))
    return r


def pick(g, a, b):
    return Msg(PLACE, {f: t.ite(g, a.f[f], b.f[f]) for f in ("con", "loc", "seq", "oseq")})


class Table:
    """std::map from places: the entries in the order they were made, the latest one counting."""

    def __init__(self, I):
        self.I, self.log, self.n = I, {}, 0
        I.map_model = self.call
        I.over["std::_Rb_tree_const_iterator::operator->"] = self.arrow
        I.over["std::_Rb_tree_iterator::operator->"] = self.arrow
        I.over["std::_Rb_tree_const_iterator::operator*"] = self.arrow
        I.over["std::_Rb_tree_iterator::operator*"] = self.arrow

    def entries(self, this):
        return self.log.setdefault((this.root, tuple(this.path)), [])

    def present(self, es, k):
        r = FALSE
        for g, key, loc in es:
            r = t.ite(t.and_(g, same(key, k)), TRUE if loc is not None else FALSE, r)
        return r

    def lookup(self, es, k):
        r = unknown_place("never recorded")
        for g, key, loc in es:
            if loc is not None:
                r = pick(t.and_(g, same(key, k)), self.I.load(loc), r)
        return r

    def put(self, es, k, v, g):
        self.n += 1
        loc = Loc(("slot", self.n))
        self.I.st.m[loc.root] = v
        es.append((g, k, loc))
        return loc

    def key(self, x):
        v = val(self.I, x)
        return Msg(PLACE, {f: self.I.pb_get(v, self.I.fdesc(PLACE, f)) for f in ("con", "loc", "seq", "oseq")})

    def it(self, es, k):
        return Rec("#mapit", {"found": self.present(es, k), "first": k, "second": self.lookup(es, k)})

    def arrow(self, I, n, f, this, args):
        v = I.load(this) if isinstance(this, Loc) else this
        if not (isinstance(v, Rec) and v.q == "#mapit"):
            raise Exception("iterator of unknown origin")
        I.need = getattr(I, "need", []) + [(I.st.pc, v.f["found"])]
        l = I.temp(Rec("#pair", {"first": v.f["first"], "second": v.f["second"]}))
        return I.addr(l) if f["n"].endswith("->") else l

    def call(self, I, n, f, this, args, m):
        es = self.entries(this)
        g = I.st.pc
        zero = place(0, 0, 0, 0)
        if m in ("operator[]", "at"):
            k = self.key(args[0])
            v = pick(self.present(es, k), self.lookup(es, k), zero)
            return self.put(es, k, v, g)
        if m == "find":
            return self.it(es, self.key(args[0]))
        if m in ("count", "contains"):
            return self.present(es, self.key(args[0]))
        if m in ("end", "cend"):
            return Rec("#mapit", {"found": FALSE, "first": zero, "second": zero})
        if m == "insert_or_assign":
            self.put(es, self.key(args[0]), self.key(args[1]), g)
            return VOID
        if m in ("emplace", "try_emplace", "insert") and len(args) in (1, 2):
            a = args
            if len(a) == 1:
                p = val(I, a[0])
                if not (isinstance(p, Rec) and p.q == "std::pair"):
                    raise Exception("std::map::" + m)
                a = list(p.f.values())
            k = self.key(a[0])
            was = self.present(es, k)
            self.put(es, k, self.key(a[1]), t.and_(g, t.not_(was)))
            return Rec("std::pair", {"first": self.it(es, k), "second": t.not_(was)})
        if m == "erase":
            v = val(I, args[0])
            if isinstance(v, Msg):
                es.append((g, self.key(args[0]), None))
                return VOID
        if m == "clear":
            if g is TRUE:
                del es[:]
                return VOID
        raise Exception("std::map::" + m)


class Context:
    def __init__(self):
        self.P = P = program("context.cpp")
        self.I = I = Interp(P)
        self.this = Loc(("ctx",))
        self.table = Table(I)
        self.board = None
        self.filled = 0
        self.hooked = 0
        self.now = {}
        I.st.m[("tr",)] = Lst()
        for q, h in (("YGOpen::Client::parse_event", self.h_event), ("YGOpen::Client::parse_query", self.h_query)):
            I.over[q] = h
        ctor = [f for f in P.fns(CTX + "::BasicEncodeContext") if f.get("body") and not f["params"]]
        rec = [r for r in P.d["records"] if r["q"] == CTX]
        if len(ctor) != 1 or len(rec) != 1:
            raise ygbuild.AnalysisBroken("encode context not found")
        I.st.m[self.this.root] = Rec(CTX, {})
        I.run_ctor(ctor[0], self.this, [], rec[0])
        I.st.m[("tr",)] = Lst()

    def owned(self, l):
        return isinstance(l, Loc) and l.root == self.this.root

    def method(self, obj, name, args):
        q = self.I.load(obj).q
        fs = [f for f in self.P.d["functions"] if f["n"] == name and f.get("body") and len(f["params"]) == len(args) and
              f["q"].rsplit("::", 1)[0] == q]
        if not fs:
            raise Exception("%s::%s not found" % (q, name))
        return self.I.invoke(fs[0], obj, args)

    def frame(self, board):
        return self.method(board, "frame", [])

    def h_event(self, I, n, f, this, args):
        b = args[0]
        if not self.owned(b):
            I.emit("event elsewhere")
            return VOID
        self.board = b
        I.emit("event", ONE, I.load(args[1]))
        self.filled += 1
        self.fill(b, str(self.filled))
        return VOID

    def h_query(self, I, n, f, this, args):
        I.emit("query", ONE if self.owned(args[0]) else ZERO, I.load(args[1]))
        if self.owned(args[0]):
            self.qframe = args[0]
        return VOID

    def fill(self, board, tag):
        """Gives the board's frame unknown contents, different from any before."""
        fr = self.frame(board)
        self.fr = fr
        self.now = {}
        for con in (0, 1):
            for nm, l in PILES.items():
                loc = self.method(fr, "pile", [C(con), C(l)])
                p, n = seg("%s.%d.%#x" % (tag, con, l))
                self.I.store(loc, lst(p))
                self.now[("pile", con, l)] = n
            for nm, (l, lim) in ZONES.items():
                for s in range(lim):
                    loc = self.method(fr, "zone", [C(con), C(l), C(s)])
                    p, n = seg("%s.%d.%#x.%d" % (tag, con, l, s))
                    self.I.store(loc.sub("card"), card("%s.%d.%#x.%d" % (tag, con, l, s)))
                    self.I.store(loc.sub("materials"), lst(p))
                    self.now[("zone", con, l, s)] = n

    def call(self, name, *args):
        f = entry(self.P, "ygv::" + name)
        a = []
        for x, p in zip(args, f["params"][1:]):
            k = self.I.ty(p["t"])["k"]
            a.append(self.I.temp(x) if k in ("ref", "rref") else x)
        r = self.I.invoke(f, None, [self.this] + a)
        return self.I.load(r) if isinstance(r, Loc) else r


def guarded(o, box, fn, secs=60):
    try:
        with limit(secs):
            fn()
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % (str(e) or type(e).__name__)[:200]
    if "R" in box:
        o.functions |= set(box["R"].I.functions)
    return o


def put(R, o, aspect, a, b, what, n=60):
    if R.I.st is None:
        keep(o, aspect, Result("differ", "no path returns", what))
        return
    r = compare(R.I, a, b, R.I.st.pc, n)
    keep(o, aspect, r if r.status == "equal" else Result(r.status, r.detail, what))


def answers(R, o, when):
    for k in sorted(R.now):
        if k[0] == "pile":
            put(R, o, "pile size", R.call("pile_size", C(k[1]), C(k[2])), R.now[k], "%s, controller %d, location %#x" % (when, k[1], k[2]))
        else:
            for oseq in (C(-1), t.atom("any overlay", *S32)):
                put(R, o, "has material", R.call("has_mat", place(k[1], k[2], k[3], oseq)), t.lt(ZERO, R.now[k]),
                    "%s, controller %d, location %#x, sequence %d" % ((when,) + k[1:]))


def d_board(steps):
    P = program("context.cpp")
    w = at(P, P.fns(CTX + "::parse")[0] if P.fns(CTX + "::parse") else entry(P, "ygv::parse"))
    o = Out("board answers, %d events" % steps, w)
    box = {}

    def go():
        R = box["R"] = Context()
        R.now = {}
        for con in (0, 1):
            R.now.update({("pile", con, l): ZERO for l in PILES.values()})
            R.now.update({("zone", con, l, s): ZERO for l, lim in ZONES.values() for s in range(lim)})
        answers(R, o, "before anything")
        M = "YGOpen::Proto::Duel::Msg"
        fd = R.I.fdesc(M, "event")
        for i in range(steps):
            ev = Msg("YGOpen::Proto::Duel::Msg::Event", {}, t.atom("event %d" % i, None, None))
            q = Lst()
            R.I.st.m[("tr",)] = Lst()
            R.call("parse", Msg(fd.parent if hasattr(fd, "parent") else M, {"@t": C(fd.number), "event": ev, "queries": q}))
            put(R, o, "applied", R.I.st.m[("tr",)], Lst([("e", TRUE, Rec("#event", {"0": ONE, "1": ev}))]), "event applied to the tracked board")
            answers(R, o, "after event %d" % (i + 1))
    return guarded(o, box, go)


MSG = "YGOpen::Proto::Duel::Msg"


def d_parse():
    """Any message: its event if it is one, then each of its queries, applied to the context's own board."""
    P = program("context.cpp")
    o = Out("any message", at(P, (P.fns(CTX + "::parse") or [entry(P, "ygv::parse")])[0]))
    box = {}

    def go():
        R = box["R"] = Context()
        I = R.I
        fd = I.fdesc(MSG, "event")
        case = t.atom("kind", 0, 40)
        ev = Msg(I.fmsg(fd), {}, t.atom("event", None, None))
        qa, n = t.atom("queries", None, None), t.atom("len:queries", 0, BIG)
        I.elem_kind[qa] = ("msg", I.fmsg(I.fdesc(MSG, "queries")))
        qs = Lst([("sl", qa, ZERO, n)])
        R.call("parse", Msg(MSG, {"@t": case, "event": ev, "queries": qs}))
        k = t.mk("k", 0)
        g = t.eq(case, C(fd.number))
        want = Lst([("e", g, Rec("#eff:event", {"0": ONE, "1": ev})),
                    ("s", TRUE, n, k, (("e", TRUE, Rec("#eff:query", {"0": ONE, "1": I.elem(qa, k)})),))])
        put(R, o, "applied", I.st.m[("tr",)], want, "what is applied to the tracked board, in order")
        fr = getattr(R, "qframe", None)
        if fr is None:
            raise Exception("no query applied")
        b = [l for l in [getattr(R, "board", None)] if l is not None]
        if b:
            own = R.frame(b[0])
            keep(o, "applied", Result("equal" if (own.root, tuple(own.path)) == (fr.root, tuple(fr.path)) else "differ",
                                      "queries are applied to another frame than the board's", "queries"))
    return guarded(o, box, go)


def patterns(n):
    """Which of n recordings are about the same holder, up to renaming."""
    def go(k, used):
        if k == 0:
            yield ()
            return
        for x in range(used + 1):
            for r in go(k - 1, max(used, x + 1)):
                yield (x,) + r
    return list(go(n, 0))


def d_left(pattern):
    """Recordings about unknown holders, equal as the pattern says, then a lookup of each."""
    P = program("context.cpp")
    o = Out("holders recorded " + "".join("ABCDE"[i] for i in pattern), at(P, (P.fns(CTX + "::get_xyz_left") or [entry(P, "ygv::left")])[0]))
    box = {}

    def go():
        R = box["R"] = Context()
        I = R.I
        keys = [unknown_place("holder " + "ABCDE"[i]) for i in range(max(pattern) + 1)]
        for i, a in enumerate(keys):
            for b in keys[:i]:
                I.st.pc = t.and_(I.st.pc, t.not_(same(a, b)))
        base = I.st.pc
        last = {}
        for n, i in enumerate(pattern):
            last[i] = unknown_place("from %d" % n)
            R.call("set_left", keys[i], last[i])
        I.st.pc = t.and_(I.st.pc, base)
        for i in sorted(last):
            got = R.call("left", keys[i])
            for f in ("con", "loc", "seq", "oseq"):
                put(R, o, "left", t.constrain(got.f[f], I.st.pc), last[i].f[f], "%s of the place recorded last for holder %s" % (f, "ABCDE"[i]), 200)
        for pc, found in getattr(I, "need", []):
            if t.constrain(found, pc) is not TRUE and not implied(R, found, pc):
                keep(o, "left", Result("undecided", "lookup of an entry that may be absent"))
    return guarded(o, box, go)


def implied(R, g, pc):
    return compare(R.I, g, TRUE, pc, 200).status == "equal"


def d_deferred():
    P = program("context.cpp")
    o = Out("deferred materials", at(P, (P.fns(CTX + "::take_deferred_xyz_mat") or [entry(P, "ygv::take")])[0]))
    box = {}

    def go():
        R = box["R"] = Context()
        el = lambda *ps: Lst([("e", TRUE, p) for p in ps])                           # noqa: E731
        a, b, c = (unknown_place("deferred %d" % i) for i in range(3))
        put(R, o, "deferred", R.call("take"), el(), "nothing deferred yet")
        for given in ((a,), (a, b, c), (c, a, a), ()):
            for p in given:
                R.call("defer", p)
            put(R, o, "deferred", R.call("take"), el(*given), "%d deferred" % len(given))
            put(R, o, "deferred", R.call("take"), el(), "taken twice")
        r = [t.atom("reason %d" % i, *U32) for i in range(2)]
        put(R, o, "reason", R.call("reason"), ZERO, "no reason told")
        for x in r:
            R.call("set_reason", x)
            put(R, o, "reason", R.call("reason"), x, "reason told")
    return guarded(o, box, go)


def d_independent():
    """What each recording leaves alone."""
    P = program("context.cpp")
    o = Out("recordings are independent", at(P, (P.fns(CTX + "::parse") or [entry(P, "ygv::parse")])[0]))
    box = {}

    def go():
        R = box["R"] = Context()
        I = R.I
        a, b, c = unknown_place("holder"), unknown_place("from"), unknown_place("deferred")
        x = t.atom("reason", *U32)
        fd = I.fdesc(MSG, "event")
        ev = Msg(I.fmsg(fd), {}, t.atom("event", None, None))

        def event():
            R.call("parse", Msg(MSG, {"@t": C(fd.number), "event": ev, "queries": Lst()}))
        steps = {"a holder is recorded": lambda: R.call("set_left", a, b), "a material is deferred": lambda: R.call("defer", c),
                 "the match reason is told": lambda: R.call("set_reason", x), "an event is parsed": event}
        for last in steps:
            R = box["R"] = Context()
            I = R.I
            for s in [s for s in steps if s != last] + [last]:
                steps[s]()
            got = R.call("left", a)
            for f in b.f:
                put(R, o, "left", got.f[f], b.f[f], "after " + last)
            put(R, o, "reason", R.call("reason"), x, "after " + last)
            answers(R, o, "after " + last)
            put(R, o, "deferred", R.call("take"), Lst([("e", TRUE, c)]), "after " + last)
            answers(R, o, "after deferred materials are taken")
            put(R, o, "reason", R.call("reason"), x, "after deferred materials are taken")
    return guarded(o, box, go, 120)


# ---------------------------------------------------------------- place helpers

LOCS = {"UNSPECIFIED": 0, **PILES, **{k: v[0] for k, v in ZONES.items()}}
OVERLAY = 0x80


def kind(v):
    return (v == 0, bool(v & sum(PILES.values())), bool(v & sum(l for l, _ in ZONES.values())))


class Helpers:
    def __init__(self):
        self.P = program("context.cpp")
        self.I = Interp(self.P)
        self.I.st.m[("tr",)] = Lst()

    def call(self, name, *args):
        f = entry(self.P, "ygv::" + name)
        a = [self.I.temp(x) if self.I.ty(p["t"])["k"] in ("ref", "rref") else x for x, p in zip(args, f["params"])]
        r = self.I.invoke(f, None, a)
        return self.I.load(r) if isinstance(r, Loc) else r


def d_classify():
    P = program("context.cpp")
    o = Out("classification of locations", at(P, (P.fns("YGOpen::Duel::is_pile") or [entry(P, "ygv::pile")])[0]))
    box = {}

    def go():
        H = box["R"] = Helpers()
        bits = [t.batom("location bit %d" % i) for i in range(32)]
        x = t.add(*[t.scale(b, 1 << i) for i, b in enumerate(bits)])
        anyof = lambda m: t.or_(*[b for i, b in enumerate(bits) if m >> i & 1])                       # noqa: E731
        want = {"empty": t.not_(anyof(2 ** 32 - 1)), "pile": anyof(sum(PILES.values())), "zone": anyof(sum(l for l, _ in ZONES.values()))}
        for nm, w in want.items():
            put(H, o, "classified", H.call(nm, x), w, "is_%s of any flags" % nm)
        p = unknown_place("any")
        for nm, l in LOCS.items():
            for i, f in enumerate(("empty", "pile", "zone")):
                w = TRUE if kind(l)[i] else FALSE
                put(H, o, "classified", H.call(f, C(l)), w, "is_%s of %s" % (f, nm))
                q = Msg(PLACE, dict(p.f, loc=C(l)))
                put(H, o, "place", H.call("place_" + f, q), w, "is_%s of a place in %s" % (f, nm))
        for f, w in (("place_con", p.f["con"]), ("place_loc", p.f["loc"])):
            put(H, o, "place", H.call(f, p), w, f)
        for nm, (l, lim) in ZONES.items():
            put(H, o, "limit", H.call("limit", C(l)), C(lim), "zones in " + nm)
        H.I.st.m[("out",)] = Lst()
        H.I.invoke(entry(P, "ygv::controllers"), None, [Loc(("out",))])
        put(H, o, "controllers", H.I.st.m[("out",)], Lst([("e", TRUE, ZERO), ("e", TRUE, ONE)]), "the controllers listed")
    return guarded(o, box, go)
