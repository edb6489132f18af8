"""Obligations of the answer decoder: the response bytes required for every answer."""
from . import build as ygbuild, terms as t
from .budget import OutOfTime, limit
from .codec import NS, PLACE
from .compare import compare, Result
from .interp import Unsupported
from .queryspec import QOut
from .terms import C, T, ZERO, TRUE, FALSE
from .values import Lst, Loc, Msg

ANS = "YGOpen::Proto::Duel::Answer"
REQ = "YGOpen::Proto::Duel::Msg_Request"


def le(v, n):
    """Little-endian bytes of v reduced to n bytes."""
    if isinstance(v, int):
        v = C(v)
    v = t.cast(8 * n, False, v)
    return [t.band(t.shr(v, C(8 * i)), C(255)) for i in range(n)]


def i32(v):
    return le(v, 4)


class B:
    """Builds Answer and Request values from nested dicts over opaque leaves."""

    def __init__(self, I):
        self.I = I
        self.n = 0
        self.fixed = {}

    def msg(self, full, d):
        from .dsl import build
        return build(self.I, full, d)

    def sym(self, name, lo, hi):
        return t.atom(name, lo, hi)


U32 = (0, 2 ** 32 - 1)


def answers(deep):
    """(label, request dict, answer dict, response bytes, zero-extra facts)."""
    v = t.atom("v", *U32)
    for f in ("select_attribute", "select_card_code", "select_effect", "select_number", "select_position"):
        yield f, {}, {f: v}, i32(v)
    r = t.atom("v64", 0, 2 ** 64 - 1)
    yield "select_race", {}, {"select_race": r}, le(r, 8)
    s = t.atom("s", -2 ** 31, 2 ** 31 - 1)
    yield "select_rock_paper_scissors", {}, {"select_rock_paper_scissors": s}, i32(s)
    b = t.batom("b")
    yield "select_yes_no", {}, {"select_yes_no": b}, i32(b)
    yield "select_to_chain.no_op", {}, {"select_to_chain": {"no_op": b}}, i32(-1)
    yield "select_to_chain.index", {}, {"select_to_chain": {"index": v}}, i32(v)
    for k in ("cancel", "finish"):
        for kind in ("limbo", "recursive", "unique_range"):
            yield "select_card.%s[%s]" % (k, kind), {"select_card": {kind: {}}}, {"select_card": {k: b}}, i32(-1)
    ns = (1, 2, 3, 5, 9) + ((16, 33, 60) if deep else ())
    for n in ns:
        xs = [t.atom("x%d" % i, *U32) for i in range(n)]
        a = {"select_card": {"indexes": {"values": xs}}}
        for kind in ("limbo", "unique_range"):
            yield "select_card.indexes[%s,%d]" % (kind, n), {"select_card": {kind: {}}}, a, \
                i32(1) + i32(n) + [y for x in xs for y in le(x, 2)]
        yield "select_card.indexes[recursive,%d]" % n, {"select_card": {"recursive": {}}}, a, i32(1) + i32(xs[0])
        yield "sort.indexes[%d]" % n, {}, {"sort": {"indexes": {"values": xs}}}, le(n, 1) + [y for x in xs for y in le(x, 1)]
    yield "sort.skip", {}, {"sort": {"skip": b}}, i32(-1)
    for battle in (False, True):
        rq = {"select_idle": {"is_battle_cmd": battle}}
        cmd = "battle" if battle else "idle"
        yield "select_idle.shuffle[%s]" % cmd, rq, {"select_idle": {"shuffle": b}}, i32(8)
        for ph, code in (((0x100, 2), (0x200, 3)) if battle else ((0x80, 6), (0x200, 7))):
            yield "select_idle.phase[%s,%#x]" % (cmd, ph), rq, {"select_idle": {"phase": ph}}, i32(code)
        acts = {0: 0, 6: 1} if battle else {0: 5, 1: 0, 2: 1, 3: 2, 4: 3, 5: 4}
        for act, code in acts.items():
            ix = t.atom("ix", *U32)
            yield "select_idle.card_action[%s,%d]" % (cmd, act), rq, \
                {"select_idle": {"card_action": {"action": act, "index": ix}}}, le(code, 2) + le(ix, 2)
    zones = [(4, s, 4, s) for s in range(7)] + [(8, s, 8, s) for s in range(5)] + \
        [(0x100, 0, 8, 5), (0x200, 0, 8, 6), (0x200, 1, 8, 7)]
    for n in (1, 2, 3):
        for i, z in enumerate(zones):
            zs = [zones[(i + 3 * j) % len(zones)] for j in range(n)]
            cons = [t.atom("con%d" % j, 0, 1) for j in range(n)]
            ps = [{"con": c, "loc": z[0], "seq": z[1], "oseq": -1} for c, z in zip(cons, zs)]
            out = [y for c, z in zip(cons, zs) for y in (c, C(z[2]), C(z[3]))]
            yield "select_zone[%s]" % ",".join("%#x/%d" % z[:2] for z in zs), {}, {"select_zone": {"places": ps}}, out


def garbage(n):
    return Lst([("e", TRUE, t.atom("g%d" % i, 0, 255)) for i in range(n)])


def decide(K, label, rq, ans, out_bytes, n=60):
    P = K.D
    f = K.entry(P, "decode_one_answer")
    o = QOut(label, "%s:%s" % (P.files[f["file"]] if isinstance(f["file"], int) else f["file"], f["line"]))
    exp = Lst([("e", TRUE, x if isinstance(x, T) else C(x)) for x in out_bytes])
    try:
        with limit(8):
            for before in (0, 3, 4, 40):
                I = K.interp(P)
                b = B(I)
                I.st.m[("req",)] = b.msg(".YGOpen.Proto.Duel.Msg.Request", rq)
                I.st.m[("ans",)] = b.msg(".YGOpen.Proto.Duel.Answer", ans)
                I.st.m[("out",)] = garbage(before)
                pc0 = I.st.pc
                I.invoke(f, None, [Loc(("req",)), Loc(("ans",)), Loc(("out",))])
                if I.st is None:
                    o.r["returns"] = Result("differ", "does not return")
                    return o
                got = I.st.m[("out",)]
                oob = [x for x in I.oob if x[3] is not FALSE]
                sz = I.lst_size(got)
                keep(o, "size", compare(I, sz, C(len(out_bytes)), I.st.pc, n))
                keep(o, "bounds", Result("differ", "%s at offset %d of a %d-byte response" % oob[0][:3]) if oob else Result("equal"))
                keep(o, "bytes", compare(I, got, exp, I.st.pc, n))
                o.functions |= set(I.functions)
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % str(e)[:200]
    return o


def keep(o, k, r):
    old = o.r.get(k)
    rank = {"equal": 0, "undecided": 1, "differ": 2}
    if old is None or rank[r.status] > rank[old.status]:
        o.r[k] = r
