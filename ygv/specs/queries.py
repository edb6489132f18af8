"""Required meaning of the core's card queries."""
from .. import terms as t
from ..terms import C, TRUE
from ..dsl import Cur

# flag -> (payload reader); each returns (fields of Query.Data, payload size term)


def _u32(field, conv=lambda v: v):
    def rd(c):
        return {field: {"value": conv(c.u(4))}}
    return rd


def _i32(field):
    return lambda c: {field: {"value": c.i(4)}}


def _u8(field):
    return lambda c: {field: {"value": c.flag()}}


def _targets(c):
    return {"targets": {"values": [c.rep(c.count(4), lambda c: c.place())]}}


def _counters(c):
    def one(c):
        v = c.u(4)
        return {"type": t.band(v, C(0xFFFF)), "count": t.shr(v, C(16))}
    return {"counters": {"values": [c.rep(c.count(4), one)]}}


def _link(c):
    r = c.i(4)
    return {"link_rate": {"value": t.cast(32, False, r)}, "link_arrow": {"value": c.u(4)}}


QUERY = {
    "CODE": (0x1, _u32("code")),
    "POSITION": (0x2, _u32("position")),
    "ALIAS": (0x4, _u32("alias")),
    "TYPE": (0x8, _u32("type")),
    "LEVEL": (0x10, _u32("level", lambda v: t.cast(32, True, v))),
    "RANK": (0x20, _u32("xyz_rank")),
    "ATTRIBUTE": (0x40, _u32("attribute")),
    "RACE": (0x80, lambda c: {"race": {"value": c.u(8)}}),
    "ATTACK": (0x100, _i32("atk")),
    "DEFENSE": (0x200, _i32("def")),
    "BASE_ATTACK": (0x400, _i32("base_atk")),
    "BASE_DEFENSE": (0x800, _i32("base_def")),
    "EQUIP_CARD": (0x4000, lambda c: {"equipped_to": {"value": c.place()}}),
    "TARGET_CARD": (0x8000, _targets),
    "COUNTERS": (0x20000, _counters),
    "OWNER": (0x40000, lambda c: {"owner": {"value": c.con()}}),
    "STATUS": (0x80000, _u32("status")),
    "IS_PUBLIC": (0x100000, _u8("is_public")),
    "LSCALE": (0x200000, _u32("pend_l_scale")),
    "RSCALE": (0x400000, _u32("pend_r_scale")),
    "LINK": (0x800000, _link),
    "IS_HIDDEN": (0x1000000, _u8("is_hidden")),
    "COVER": (0x2000000, _u32("cover")),
}
OVERLAY = 0x10000
END = 0x80000000
# flags the core defines or may add that carry nothing this system models
UNKNOWN = ((0x1000, 8), (0x2000, 14), (0x4000000, 4), (0x8000000, 5), (0x3, 0x104), (0, 16))


class Qspec:
    """Reads a sequence of query records; collects the facts that fix the record kinds."""

    def __init__(self, kinds):
        self.c = c = Cur()
        self.facts, self.data = [], {}
        self.n, self.ptr = C(0), None
        for k in kinds:
            size_at, flag_at = c.p, t.add(c.p, C(2))
            flag = END if k == "END" else OVERLAY if k == "OVERLAY" else QUERY[k][0] if k in QUERY else k[0]
            # later record headers may lie behind a payload of unknown length: assume
            # their contents under the address term both sides share
            self.facts.append((t.mk("ld", flag_at, 4, False), flag))
            c.skip(6)
            p0 = c.p
            if k == "OVERLAY":
                self.n = c.count(4)
                self.ptr = c.p
                c.skip(t.mul(self.n, C(4)))
            elif k in QUERY:
                self.data.update(QUERY[k][1](c))
            elif k != "END":
                c.skip(k[1] - 4)
            self.facts.append((t.mk("ld", size_at, 2, False), t.add(c.p, t.neg(p0), C(4))))
        self.end = c.p


def sequences(deep):
    names = list(QUERY) + ["OVERLAY"]
    yield ("END",)
    for a in names + list(UNKNOWN):
        yield (a, "END")
    fixed = [n for n in names if n not in ("TARGET_CARD", "COUNTERS", "OVERLAY")]
    yield tuple(names) + ("END",)
    yield tuple(reversed(names)) + ("END",)
    for a in names + list(UNKNOWN):
        for b in names if deep else ("CODE", "LINK", "TARGET_CARD", "OVERLAY"):
            if a != b:
                yield (a, b, "END")
    for a in UNKNOWN:
        for b in fixed if deep else ("RACE",):
            yield (b, a, "END")
