"""Required effect of applying and of undoing every event."""
from itertools import product
from . import build as ygbuild, terms as t
from .budget import limit
from .compare import Result, compare
from .decspec import keep
from .dsl import build
from .frame import program
from .interp import Interp
from .terms import C, FALSE, TRUE, ZERO
from .values import GV, It, Loc, Lst, Msg, Rec, VOID, freeze

EVENT = ".YGOpen.Proto.Duel.Msg.Event"
PARTS = ("frame", "chain_stack", "turn", "turn_controller", "phase", "blocked_zones")
U32 = (0, 2 ** 32 - 1)


class Out:
    def __init__(self, key, where):
        self.key, self.where, self.r, self.error, self.functions = key, where, {}, None, set()


class Board:
    """An abstract board with its parts found through its public getters."""

    def __init__(self, P, plain):
        self.P = P
        self.I = I = Interp(P)
        self.plain = plain
        I.external = self.ext
        self.this = Loc(("board",))
        entry = P.fns("ygv::plain_apply" if plain else "ygv::recorded_apply")
        if len(entry) != 1:
            raise ygbuild.AnalysisBroken("event driver not found")
        self.rec = P.d["types"][P.nonref(entry[0]["params"][0]["t"])]["r"]
        ctor = [f for f in self.methods("BasicBoard") if not f["params"]]
        if len(ctor) != 1:
            raise ygbuild.AnalysisBroken("board constructor not found")
        I.st.m[self.this.root] = Rec("YGOpen::Client::BasicBoard", {})
        I.run_ctor(ctor[0], self.this, [], P.R[self.rec])
        self.at = {}
        for nm in PARTS:
            self.at[nm] = self.get(nm, [])
        for c in (0, 1):
            self.at["lp%d" % c] = self.get("lp", [C(c)])
        for nm in list(self.at):
            I.st.m[("tr", nm)] = Lst()
        I.st.m[("tr",)] = Lst()

    def methods(self, name):
        return [f for f in self.P.d["functions"] if f["n"] == name and f.get("rec") == self.rec and f.get("body")]

    def get(self, name, args, const=False):
        c = [f for f in self.methods(name) if len(f["params"]) == len(args) and bool(f.get("const")) == const]
        if len(c) != 1:
            raise ygbuild.AnalysisBroken("board getter %s not found" % name)
        return self.I.invoke(c[0], self.this, list(args))

    def ext(self, n, f, this, args):
        I = self.I
        if f["n"] == "Value" or f["n"] == "Values" or f["n"] == "Frame":
            return VOID
        nm = [k for k, l in self.at.items() if l == this or (isinstance(this, Loc) and isinstance(l, Loc) and l.root == this.root and
                                                             tuple(this.path[:len(l.path)]) == tuple(l.path))]
        if len(nm) != 1:
            raise Exception("effect on an unknown part of the board: %s" % f["q"])
        vs = []
        for a in args:
            v = I.load(a) if isinstance(a, Loc) else a
            vs.append(v)
        name = f["n"]
        if name in ("assign", "card_shuffle", "undo_card_shuffle"):
            vs = [self.range(v) if isinstance(v, It) else v for v in vs]
            if name == "assign" and isinstance(vs[0], tuple):
                a, b = vs
                if a[0] != b[0]:
                    raise Exception("range over two containers")
                vs = [I.lst_slice(a[1], a[2], b[2])]
            else:
                cnt = vs[-1]
                vs = [I.lst_slice(v[1], v[2], t.add(v[2], cnt)) if isinstance(v, tuple) else v for v in vs]
        tr = I.st.m[("tr", nm[0])]
        e = Rec("#eff:" + name, {str(i): freeze(v, I.st) for i, v in enumerate(vs)})
        I.st.m[("tr", nm[0])] = Lst(tr.p + (("e", TRUE, e),))
        if name in ("operator=",):
            return this
        return VOID

    def range(self, it):
        if it.rev:
            raise Exception("reversed range")
        return it.lv, self.I.load(it.lv), it.idx

    def apply(self, which, ev):
        f = self.P.fns("ygv::" + which)
        self.I.st.m[("event",)] = ev
        self.I.invoke(f[0], None, [self.this, Loc(("event",))])

    def where(self, name):
        for f in self.P.fns("YGOpen::Client::" + name):
            if f.get("body"):
                return "%s:%d" % (self.P.files[f["file"]] if isinstance(f["file"], int) else f["file"], f["line"])
        raise ygbuild.AnalysisBroken("%s not found" % name)

    def traces(self):
        return {k: self.I.st.m[("tr", k)] for k in self.at}

    # ------------------------------------------------------------ reading the event in the specification

    def field(self, m, path):
        for nm in path.split("."):
            fd = self.I.fdesc(m.q, nm)
            if fd is None:
                raise ygbuild.AnalysisBroken("field %s of %s not found" % (nm, m.q))
            m = self.I.pb_get(m, fd)
        return m


class Each:
    """One operation per element of a repeated field."""

    def __init__(self, recv, path, do, undo):
        self.recv, self.path, self.do, self.undo = recv, path, do, undo


class One:
    def __init__(self, recv, do, undo):
        self.recv, self.do, self.undo = recv, do, undo


def fld(b, names):
    return lambda e: [b.field(e, n) for n in names]


def adds(b, path):
    return Each("frame", path, lambda e: ("card_add", [e]), lambda e: ("undo_card_add", [e]))


def removes(b, path):
    return Each("frame", path, lambda e: ("card_remove", [e]), lambda e: ("undo_card_remove", [e]))


def resizes(b, path):
    g = fld(b, ("place", "count"))
    return Each("frame", path, lambda e: ("pile_resize", g(e)), lambda e: ("undo_pile_resize", g(e)))


def pairs(b, path, do, undo, names, inv):
    g = fld(b, names)
    return Each("frame", path, lambda e: (do, g(e)), lambda e: (undo, [g(e)[i] for i in inv]))


def assigned(recv, v):
    return One(recv, ("assigned", [v]), ("undo", []))


def steps(b, case, ev):
    """The operations the event stands for, in order."""
    I = b.I
    if case == "board.exchange":
        x = "board.exchange."
        return [resizes(b, x + "resize.ops"), removes(b, x + "remove.places"), adds(b, x + "add.places")]
    if case == "board.state":
        x = "board.state."
        tc = b.field(ev, x + "turn_counter")
        lps = b.field(ev, x + "lps")
        has = t.constrain(t.le(ZERO, tc), I.st.pc)
        r = [] if has is FALSE else [assigned("turn", tc)]
        r += [assigned("lp%d" % c, I.lst_get(lps, C(c))) for c in (0, 1)]
        return r + [One("chain_stack", ("assign", [b.field(ev, x + "chains")]), ("undo", [])), One("frame", ("clear", []), ("undo_clear", [])),
                    adds(b, x + "add.places"), resizes(b, x + "resize.ops")]
    if case == "card.add":
        return [adds(b, "card.add.places")]
    if case == "card.remove":
        return [removes(b, "card.remove.places")]
    if case == "card.exchange":
        return [pairs(b, "card.exchange.ops", "card_swap", "card_swap", ("place_a", "place_b"), (0, 1))]
    if case == "card.move":
        return [pairs(b, "card.move.ops", "card_move", "card_move", ("old_place", "new_place"), (1, 0))]
    if case == "card.shuffle":
        a, c = b.field(ev, "card.shuffle.previous_places"), b.field(ev, "card.shuffle.current_places")
        c = I.lst_slice(c, ZERO, I.lst_size(a))
        return [One("frame", ("card_shuffle", [a, c, I.lst_size(a)]), ("undo_card_shuffle", [a, c, I.lst_size(a)]))]
    if case == "pile.splice":
        return [pairs(b, "pile.splice.ops", "pile_splice", "pile_splice", ("from", "count", "to", "reverse"), (2, 1, 0, 3))]
    if case == "pile.exchange":
        return [pairs(b, "pile.exchange.ops", "pile_swap", "pile_swap", ("place_a", "place_b"), (0, 1))]
    if case == "chain_stack.push":
        v = b.field(ev, "chain_stack.push")
        return [One("chain_stack", ("push_back", [v]), ("undo_push_back", [v]))]
    if case == "chain_stack.pop":
        return [One("chain_stack", ("pop_back", []), ("undo_pop_back", []))]
    if case == "next_turn":
        return [assigned("turn", t.cast(32, False, t.add(b.was["turn"], C(1)))), assigned("turn_controller", b.field(ev, "next_turn"))]
    if case == "next_phase":
        return [assigned("phase", b.field(ev, "next_phase"))]
    if case.startswith("lp."):
        if case.count(".") == 1:                # no change told: what is assigned is what was there, to be undone like any other
            return [assigned("lp" + case[-1], b.was["lp" + case[-1]])]
        _, how, con = case.split(".")
        old, v = b.was["lp" + con], b.field(ev, "lp." + how)
        new = {"become": lambda: v, "damage": lambda: t.ite(t.lt(old, v), ZERO, t.cast(32, False, t.sub(old, v))),
               "pay": lambda: t.ite(t.lt(old, v), ZERO, t.cast(32, False, t.sub(old, v))),
               "recover": lambda: t.cast(32, False, t.add(old, v))}[how]()
        return [assigned("lp" + con, new)]
    if case == "zone_block":
        return [One("blocked_zones", ("assign", [b.field(ev, "zone_block.zones")]), ("undo", []))]
    return []


CASES = (
    "board.exchange", "board.state", "board", "card.add", "card.remove", "card.exchange", "card.move", "card.shuffle", "card",
    "pile.splice", "pile.exchange", "pile", "chain_stack.push", "chain_stack.pop", "chain_stack", "next_turn", "next_phase",
    "lp.become.0", "lp.become.1", "lp.damage.0", "lp.damage.1", "lp.pay.0", "lp.pay.1", "lp.recover.0", "lp.recover.1", "lp.0", "lp.1",
    "zone_block", "finish", "meta", "",
)


def symbolic(b, case):
    """An arbitrary event of the case: every field unknown, every list of unknown length."""
    I = b.I
    schema = I.p.schema.messages[EVENT]
    q = I.p.schema.cxx_name(EVENT)
    path = [x for x in case.split(".") if x and not x.isdigit()]

    def mk(full, base, rest):
        m = I.p.schema.messages[full]
        r = Msg(I.p.schema.cxx_name(full), {}, base)
        if rest:
            fd = m.fields[rest[0]]
            r = r.set("@t", C(fd.number))
            for o in m.fields.values():
                if o.oneof and o is not fd:
                    r = r.set(o.name, I.pb_default(o))
            if fd.type == "message" and not fd.repeated:
                r = r.set(fd.name, mk(fd.type_name, t.mk("fld", base, fd.name, (None, None)), rest[1:]))
            else:
                r = r.set(fd.name, I.pb_opq(r.q, fd, base))
        elif any(o.oneof for o in m.fields.values()) and full.count(".Event") and len(m.fields) > 1 and case in ("", "board", "card", "pile", "chain_stack", "lp.0", "lp.1"):
            r = r.set("@t", ZERO)
            for o in m.fields.values():
                if o.oneof:
                    r = r.set(o.name, I.pb_default(o))
        return r
    ev = mk(EVENT, t.atom("event", None, None), path)
    if case.startswith("lp."):
        ev = put(ev, ["lp", "controller"], C(int(case[-1])))
    return ev


def put(m, path, v):
    if len(path) == 1:
        return m.set(path[0], v)
    return m.set(path[0], put(m.f[path[0]], path[1:], v))


def listed(b, case, n, neg):
    """The event with every repeated field holding exactly n elements with unknown fields."""
    ev = symbolic(b, case)
    I = b.I

    def fill(m, at):
        for fd in I.p.cxx[m.q].fields.values():
            if fd.oneof and m.f.get("@t") is not None and m.f["@t"] != C(fd.number):
                continue
            p = at + [fd.name]
            if fd.repeated:
                k = 2 if fd.name == "lps" else n
                if fd.type == "message":
                    m = m.set(fd.name, Lst([("e", TRUE, Msg(I.fmsg(fd), {}, t.atom("%s%d" % (".".join(p), z), None, None))) for z in range(k)]))
                else:
                    m = m.set(fd.name, Lst([("e", TRUE, t.atom("%s%d" % (".".join(p), z), *U32)) for z in range(k)]))
            elif fd.type == "message" and len(p) < 5 and (m.f.get(fd.name) is not None or fd.name in ("add", "remove", "resize")):
                x = m.f.get(fd.name)
                if x is None:
                    x = Msg(I.fmsg(fd), {}, t.atom(".".join(p), None, None))
                m = m.set(fd.name, fill(x, p))
        if neg is not None and "turn_counter" in I.p.cxx[m.q].fields:
            m = m.set("turn_counter", C(-1) if neg else t.atom("turn_counter", 0, 2 ** 31 - 1))
        return m
    return fill(ev, [])


def eff(b, name, vals):
    from . import models
    return Rec("#eff:" + name, {str(i): freeze(v, b.I.st) for i, v in enumerate(vals)})


def trace(b, st, ev, undo):
    """Required effect trace per part of the board."""
    I = b.I
    out = {k: () for k in b.at}
    for s in (reversed(st) if undo else st):
        fn = s.undo if undo else s.do
        if isinstance(s, One):
            nm, vs = fn
            out[s.recv] += (("e", TRUE, eff(b, nm, vs)),)
            continue
        l = b.field(ev, s.path)
        if all(p[0] == "e" for p in l.p):
            es = [p[2] for p in l.p]
            for e in (reversed(es) if undo else es):
                nm, vs = fn(e)
                out[s.recv] += (("e", TRUE, eff(b, nm, vs)),)
            continue
        K = t.mk("k", 0)
        n = I.lst_size(l)
        e = I.lst_get(l, t.sub(t.sub(n, C(1)), K) if undo else K)
        nm, vs = fn(e)
        out[s.recv] += (("s", TRUE, n, K, (("e", TRUE, eff(b, nm, vs)),)),)
    return out


def values(b):
    """Gives the plain board unknown contents."""
    I = b.I
    b.was = {}
    for k, l in b.at.items():
        if k == "frame":
            continue
        if k in ("chain_stack", "blocked_zones"):
            if b.plain:
                a = t.atom("old:" + k, None, None)
                I.elem_kind[a] = ("msg", "YGOpen::Proto::Duel::" + ("Chain" if k == "chain_stack" else "Place"))
                b.was[k] = Lst([("sl", a, ZERO, t.mk("size", a))])
                I.store(l, b.was[k])
        else:
            b.was[k] = t.atom("old:" + k, *(U32 if k not in ("turn_controller", "phase") else (0, 1 if k == "turn_controller" else 0x200)))
            I.store(l if b.plain else l.sub("now"), b.was[k])


def check(o, b, aspect, got, want, n):
    for k in got:
        if got[k] == want[k]:
            r = Result("equal")
        else:
            r = compare(b.I, got[k], want[k], b.I.st.pc, n)
        if r.status != "equal":
            r = Result(r.status, r.detail, "%s %s" % (k, r.path))
        keep(o, aspect, r)


def variants(deep):
    """(case, size of its lists or None for any, turn counter sign)"""
    for c in CASES:
        if c == "board.state":
            for n in (0, 1, 2) + ((4, 6) if deep else ()):
                for neg in (False, True):
                    yield c, n, neg
        elif c.startswith(("card.", "pile.", "zone_block", "board.ex")):
            yield c, None, None
            for n in (0, 1, 3) + ((6,) if deep else ()):
                yield c, n, None
        else:
            yield c, None, None


def d_event(mode, case, n, neg):
    """mode: 'plain' (values afterwards), 'applied' (effects in order), 'undone' (mirrored effects)."""
    P = program("events.cpp")
    b = Board(P, mode == "plain")
    o = Out("%s.%s%s%s" % (mode, case or "empty event", "" if n is None else "[%d]" % n,
                           "" if neg is None else "[no turn]" if neg else "[turn]"),
            b.where("undo_parse_event" if mode == "undone" else "parse_event"))
    I = b.I
    try:
        with limit(20):
            values(b)
            ev = symbolic(b, case) if n is None else listed(b, case, n, neg)
            want = trace(b, steps(b, case, ev), ev, mode == "undone")
            st = steps(b, case, ev)
            b.apply({"plain": "plain_apply", "applied": "recorded_apply", "undone": "recorded_undo"}[mode], ev)
            o.functions |= set(I.functions)
            if I.st is None:
                keep(o, "returns", Result("differ", "every path ends in a failed assertion or in unreachable code"))
                return o
            keep(o, "returns", Result("equal"))
            got = {k: v for k, v in b.traces().items()}
            want = {k: Lst(v) for k, v in want.items()}
            if mode != "plain":
                check(o, b, "effects", got, want, 80)
            else:
                fin = dict(b.was)
                for s in st:
                    if isinstance(s, One) and s.recv != "frame":
                        nm, vs = s.do
                        old = fin[s.recv]
                        if nm in ("assigned", "assign"):
                            fin[s.recv] = vs[0]
                        elif nm == "push_back":
                            fin[s.recv] = Lst(old.p + (("e", TRUE, vs[0]),))
                        elif nm == "pop_back":
                            fin[s.recv] = I.lst_slice(old, ZERO, t.sub(I.lst_size(old), C(1)))
                g2 = {k: I.load(b.at[k]) for k in fin}
                check(o, b, "values", g2, fin, 80)
                check(o, b, "effects", {"frame": got["frame"]}, {"frame": want["frame"]}, 80)
            ev2 = I.st.m[("event",)]
            keep(o, "event unchanged", Result("equal" if ev2 == ev else "undecided"))
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % str(e)[:200]
    return o


def d_board():
    """The getters of a board name distinct parts, alike for reading and writing; a fresh board is empty."""
    P = program("events.cpp")
    b = Board(P, True)
    o = Out("board", b.where("parse_event"))
    I = b.I
    try:
        fs = b.methods("frame")
        o.where = "%s:%d" % (P.files[fs[0]["file"]] if isinstance(fs[0]["file"], int) else fs[0]["file"], fs[0]["line"])
        locs = [repr(l) for l in b.at.values()]
        keep(o, "getters", Result("equal" if len(set(locs)) == len(locs) else "differ", "two getters name one part: %s" % locs))
        for k, l in b.at.items():
            c = b.get(k[:2], [C(int(k[2]))], True) if k.startswith("lp") else b.get(k, [], True)
            keep(o, "getters", Result("equal" if c == l else "differ", "reading and writing %s name different parts" % k))
            if k in ("chain_stack", "blocked_zones"):
                keep(o, "fresh board", compare(I, I.load(l), Lst(), I.st.pc, 20))
            elif k != "frame":
                keep(o, "fresh board", compare(I, I.load(l), ZERO, I.st.pc, 20))
        keep(o, "returns", Result("equal" if I.st is not None else "differ"))
        o.functions |= set(I.functions)
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % str(e)[:200]
    return o
