"""Required meaning of every message of the edo9300 core: its byte layout (what is
consumed, where each field lies) and the structured message it stands for."""
from .. import terms as t
from ..terms import C, TRUE
from ..dsl import nest, Rep, When, Raw

# wire identifiers of the core (ocgcore)
MSG = dict(
    RETRY=1, HINT=2, START=4, WIN=5, UPDATE_DATA=6, UPDATE_CARD=7, SELECT_BATTLECMD=10, SELECT_IDLECMD=11,
    SELECT_EFFECTYN=12, SELECT_YESNO=13, SELECT_OPTION=14, SELECT_CARD=15, SELECT_CHAIN=16, SELECT_PLACE=18,
    SELECT_POSITION=19, SELECT_TRIBUTE=20, SORT_CHAIN=21, SELECT_COUNTER=22, SELECT_SUM=23, SELECT_DISFIELD=24,
    SORT_CARD=25, SELECT_UNSELECT_CARD=26, CONFIRM_DECKTOP=30, CONFIRM_CARDS=31, SHUFFLE_DECK=32, SHUFFLE_HAND=33,
    SWAP_GRAVE_DECK=35, SHUFFLE_SET_CARD=36, REVERSE_DECK=37, DECK_TOP=38, SHUFFLE_EXTRA=39, NEW_TURN=40,
    NEW_PHASE=41, CONFIRM_EXTRATOP=42, MOVE=50, POS_CHANGE=53, SET=54, SWAP=55, FIELD_DISABLED=56, SUMMONING=60,
    SUMMONED=61, SPSUMMONING=62, SPSUMMONED=63, FLIPSUMMONING=64, FLIPSUMMONED=65, CHAINING=70, CHAINED=71,
    CHAIN_SOLVING=72, CHAIN_SOLVED=73, CHAIN_END=74, CHAIN_NEGATED=75, CHAIN_DISABLED=76, CARD_SELECTED=80,
    RANDOM_SELECTED=81, BECOME_TARGET=83, DRAW=90, DAMAGE=91, RECOVER=92, EQUIP=93, LPUPDATE=94, CARD_TARGET=96,
    CANCEL_TARGET=97, PAY_LPCOST=100, ADD_COUNTER=101, REMOVE_COUNTER=102, ATTACK=110, BATTLE=111,
    ATTACK_DISABLED=112, DAMAGE_STEP_START=113, DAMAGE_STEP_END=114, MISSED_EFFECT=120, TOSS_COIN=130, TOSS_DICE=131,
    ROCK_PAPER_SCISSORS=132, HAND_RES=133, ANNOUNCE_RACE=140, ANNOUNCE_ATTRIB=141, ANNOUNCE_CARD=142,
    ANNOUNCE_NUMBER=143, ANNOUNCE_CARD_FILTER=144, CARD_HINT=160, TAG_SWAP=161, RELOAD_FIELD=162, AI_NAME=163,
    PLAYER_HINT=165, MATCH_KILL=170)

# known to the encoder's enumeration, but not translated yet (declared TODO): reported as unknown
UNSUPPORTED = ("SELECT_COUNTER", "SELECT_SUM", "ANNOUNCE_CARD", "ANNOUNCE_CARD_FILTER")

MD, HAND, MZ, SZ, GY, BAN, EX = 1, 2, 4, 8, 0x10, 0x20, 0x40
FZ, PZ = 0x100, 0x200
R_SUMMON, R_SPSUMMON, R_FLIP, R_EFFECT, R_DRAW = 0x10, 0x800, 0x2000, 0x40, 0x2000000
P_BATTLE, P_MAIN2, P_END = 0x80, 0x100, 0x200
OK, SWALLOWED, UNKNOWN = "OK", "SWALLOWED", "UNKNOWN"

EVENT, REQUEST, SPECIAL, QUERYMSG = {}, {}, {}, {}


def event(*names):
    def deco(fn):
        for n in names:
            EVENT[n] = fn
        return fn
    return deco


def request(*names):
    def deco(fn):
        for n in names:
            REQUEST[n] = fn
        return fn
    return deco


def ev(path, leaf):
    return nest("event." + path, leaf)


def place(con, loc, seq, oseq=-1):
    return {"con": con, "loc": loc, "seq": seq, "oseq": oseq}


# ---------------------------------------------------------------- events

@event("CONFIRM_DECKTOP", "CONFIRM_EXTRATOP", "CONFIRM_CARDS")
def _(c, n):
    c.skip(1)
    k = c.count(4)

    def card(c):
        c.skip(4)
        return c.place(1, 4, 0)
    return ev("meta.confirm.places", [c.rep(k, card)])


@event("SHUFFLE_DECK")
def _(c, n):
    return ev("meta.shuffle_pile.places", [pile(c.con(), MD)])


@event("SHUFFLE_HAND", "SHUFFLE_EXTRA")
def _(c, n):
    con = c.con()
    k = c.count(4)
    c.skip(t.mul(k, C(4)))
    return ev("meta.shuffle_pile.places", [pile(con, HAND if n == "SHUFFLE_HAND" else EX)])


def pile(con, loc):
    return {"con": con, "loc": loc, "seq": 0, "oseq": -1}


@event("SHUFFLE_SET_CARD")
def _(c, n):
    c.skip(1)
    k = c.count(1)
    a = c.rep(k, lambda c: c.place())
    b = c.rep(k, lambda c: c.place())
    return ev("card.shuffle", {"previous_places": [a], "current_places": [b]})


@event("NEW_TURN")
def _(c, n):
    return ev("next_turn", c.con())


@event("NEW_PHASE")
def _(c, n):
    return ev("next_phase", c.u(2))


@event("POS_CHANGE")
def _(c, n):
    c.skip(4)
    p = c.place(1, 1, 0)
    c.skip(2)
    return ev("meta.update.places", [p])


@event("SET")
def _(c, n):
    c.skip(4)
    p = c.place(1, 4, 0)
    c.skip(4)
    return ev("meta.update.places", [p])


@event("SWAP")
def _(c, n):
    c.skip(4)
    a = c.place()
    c.skip(4)
    b = c.place()
    return ev("card.exchange.ops", [{"place_a": a, "place_b": b}])


def zones(bits, first):
    """Places whose bit is clear, in bit order; the low half belongs to `first`."""
    out = []
    for half in range(2):
        con = first if half == 0 else t.cast(8, False, t.sub(C(1), first))
        for b in range(16):
            if b == 7:
                continue
            loc, seq = ((MZ, b) if b < 7 else (SZ, b - 8) if b < 13 else (FZ, 0) if b == 13 else (PZ, b - 14))
            out.append(When(t.eqz(t.band(bits, C(1 << (16 * half + b)))), [place(con, loc, seq)]))
    return out


@event("FIELD_DISABLED")
def _(c, n):
    return ev("zone_block.zones", zones(c.u(4), C(0)))


@event("SUMMONING", "SPSUMMONING", "FLIPSUMMONING")
def _(c, n):
    c.skip(4)
    p = c.place()
    r = {"SUMMONING": R_SUMMON, "SPSUMMONING": R_SPSUMMON, "FLIPSUMMONING": R_FLIP}[n]
    return ev("meta.update", {"places": [p], "reason": r})


@event("CHAINING")
def _(c, n):
    c.skip(4)
    a = c.place()
    b = c.place(1, 4, 0)
    e = c.effect()
    c.skip(4)
    return ev("chain_stack.push", {"card_place": a, "place": b, "effect": e})


@event("CHAINED", "CHAIN_SOLVING", "CHAIN_NEGATED", "CHAIN_DISABLED")
def _(c, n):
    c.skip(1)
    return ev("meta.chain_status", {"CHAINED": 1, "CHAIN_SOLVING": 2, "CHAIN_NEGATED": 3, "CHAIN_DISABLED": 4}[n])


@event("CHAIN_SOLVED")
def _(c, n):
    c.skip(1)
    return ev("chain_stack.pop", True)


@event("DAMAGE", "RECOVER", "LPUPDATE", "PAY_LPCOST")
def _(c, n):
    con = c.con()
    f = {"DAMAGE": "damage", "RECOVER": "recover", "LPUPDATE": "become", "PAY_LPCOST": "pay"}[n]
    return ev("lp", {"controller": con, f: c.u(4)})


@event("RANDOM_SELECTED", "CARD_SELECTED", "BECOME_TARGET")
def _(c, n):
    if n == "RANDOM_SELECTED":
        c.skip(1)
    k = c.count(4)
    return ev("meta.selection.selected_places", [c.rep(k, lambda c: c.place())])


@event("CARD_TARGET", "CANCEL_TARGET")
def _(c, n):
    a = c.place()
    return ev("meta.selection", {"selector": a, "selected_places": [c.place()]})


@event("ADD_COUNTER", "REMOVE_COUNTER")
def _(c, n):
    c.skip(2)
    p = c.place(1, 1, 0)
    c.skip(2)
    return ev("meta.update.places", [p])


@event("ATTACK")
def _(c, n):
    a = c.place()
    b = c.place()
    return ev("meta.attack", {"attacker": a, "attack_target": ("optional", t.not_(t.eqz(b["loc"])), b)})


@event("TOSS_COIN", "TOSS_DICE")
def _(c, n):
    con = c.con()
    k = c.count(1)
    r = c.rep(k, lambda c: c.flag() if n == "TOSS_COIN" else c.u(1))
    return ev("result.coin" if n == "TOSS_COIN" else "result.dice", {"actor": con, "values": [r]})


@event("HAND_RES")
def _(c, n):
    b = c.u(1)
    return ev("result.rps.values", [t.band(b, C(3)), t.band(t.shr(b, C(2)), C(3))])


def resize_op(con, loc, count):
    return {"place": place(con, loc, 0), "count": count}


@event("START")
def _(c, n):
    c.skip(1)
    lps = [c.u(4), c.u(4)]
    ops = []
    for i in range(2):
        ops.append(resize_op(i, MD, c.u(2)))
        ops.append(resize_op(i, EX, c.u(2)))
    return ev("board.state", {"turn_counter": 0, "lps": lps, "resize": {"ops": ops}})


@event("TAG_SWAP")
def _(c, n):
    con = c.con()
    main = c.count(4)
    extra = c.count(4)
    c.skip(4)
    hand = c.count(4)
    c.skip(4)
    c.skip(t.mul(t.cast(32, False, t.add(extra, hand)), C(8)))
    ops = [resize_op(con, MD, main), resize_op(con, EX, extra), resize_op(con, HAND, hand)]
    return ev("board.exchange", {"con": con, "resize": {"ops": ops}})


@event("PLAYER_HINT")
def _(c, n):
    con = c.con()
    ty = c.u(1)
    c.dom("enum", t.add(c.p, C(-1)), 1, (1, 2))
    e = c.effect()
    return ev("meta.description", {"con": con, "__case__": (t.eq(ty, C(1)), {"add": e}, {"remove": e})})


# ---------------------------------------------------------------- requests

def req(c, path, leaf):
    return nest("request." + path, leaf)


@request("ANNOUNCE_ATTRIB")
def _(c, n):
    return {"select_attribute": {"count": c.u(1), "attribute": c.u(4)}}


@request("ANNOUNCE_RACE")
def _(c, n):
    return {"select_race": {"count": c.u(1), "race": c.u(8)}}


@request("SELECT_UNSELECT_CARD")
def _(c, n):
    d = {"can_finish": c.flag(), "accept": c.flag(), "min": c.u(4), "max": c.u(4)}

    def card(c):
        code = c.u(4)
        return {"code": code, "place": c.place()}
    d["selectable_cards"] = [c.rep(c.count(4), card)]
    d["deselectable_cards"] = [c.rep(c.count(4), card)]
    return {"select_card": {"recursive": d}}


@request("SELECT_TRIBUTE")
def _(c, n):
    d = {"can_cancel": c.flag(), "tribute_min": c.u(4), "tribute_max": c.u(4)}

    def card(c):
        code = c.u(4)
        p = c.place(1, 4, 0)
        return {"code": code, "place": p, "count_as": c.u(1)}
    d["cards"] = [c.rep(c.count(4), card)]
    return {"select_card": {"unique_tributes": d}}


@request("SELECT_OPTION")
def _(c, n):
    return {"select_effect": {"count": 1, "effects": [c.rep(c.count(1), lambda c: c.effect())]}}


@request("ANNOUNCE_NUMBER")
def _(c, n):
    return {"select_number": {"count": 1, "numbers": [c.rep(c.count(1), lambda c: c.u(8))]}}


@request("SELECT_POSITION")
def _(c, n):
    return {"select_position": {"count": 1, "code": c.u(4), "position": c.u(1)}}


@request("ROCK_PAPER_SCISSORS")
def _(c, n):
    return {"select_rock_paper_scissors": True}


def act(sw, pw):
    def f(c):
        c.skip(4)
        p = c.place(1, sw, pw)
        e = c.effect()
        c.skip(1)
        return {"place": p, "effect": e}
    return f


def bare(sw):
    def f(c):
        c.skip(4)
        return c.place(1, sw, 0)
    return f


def bits(*pairs):
    r = C(0)
    for g, b in pairs:
        r = t.add(r, t.ite(g, C(b), C(0)))
    return r


@request("SELECT_BATTLECMD")
def _(c, n):
    a = c.rep(c.count(4), act(4, 0))

    def atk(c):
        c.skip(4)
        p = c.place(1, 1, 0)
        return {"place": p, "can_attack_directly": c.flag()}
    b = c.rep(c.count(4), atk)
    m2, e = c.flag(), c.flag()
    return {"select_idle": {"is_battle_cmd": True, "activable_cards": [a], "can_attack_cards": [b],
                            "available_phase": bits((m2, P_MAIN2), (e, P_END)), "can_shuffle": False}}


@request("SELECT_IDLECMD")
def _(c, n):
    d = {"is_battle_cmd": False}
    for f, sw in (("summonable_cards", 4), ("spsummonable_cards", 4), ("repositionable_cards", 1),
                  ("msetable_cards", 4), ("ssetable_cards", 4)):
        d[f] = [c.rep(c.count(4), bare(sw))]
    d["activable_cards"] = [c.rep(c.count(4), act(4, 0))]
    b, e = c.flag(), c.flag()
    d["available_phase"] = bits((b, P_BATTLE), (e, P_END))
    d["can_shuffle"] = c.flag()
    return {"select_idle": d}


@request("SELECT_CHAIN")
def _(c, n):
    d = {"triggering": t.not_(t.eqz(t.band(c.u(1), C(0x7F)))), "forced": c.flag()}
    c.skip(8)
    d["activable_cards"] = [c.rep(c.count(4), act(4, 4))]
    return {"select_to_chain": d}


@request("SELECT_EFFECTYN")
def _(c, n):
    code = c.u(4)
    p = c.place()
    return {"select_yes_no": {"code": code, "place": p, "effect": c.effect()}}


@request("SELECT_YESNO")
def _(c, n):
    return {"select_yes_no": {"effect": c.effect()}}


@request("SELECT_PLACE", "SELECT_DISFIELD")
def _(c, n, rep=None):
    d = {"blocking": n == "SELECT_DISFIELD", "count": c.u(1)}
    d["places"] = zones(c.u(4), rep)
    return {"select_zone": d}


@request("SORT_CHAIN", "SORT_CARD")
def _(c, n):
    def card(c):
        c.skip(4)
        return c.place(4, 4, 0)
    return {"sort": {"places": [c.rep(c.count(4), card)]}}


# messages that carry no information of their own: only their length matters
LENGTH = dict(RETRY=0, HINT=10, SUMMONED=0, SPSUMMONED=0, FLIPSUMMONED=0, CHAIN_END=0, BATTLE=38, EQUIP=20,
              ATTACK_DISABLED=0, DAMAGE_STEP_START=0, DAMAGE_STEP_END=0, MISSED_EFFECT=14, CARD_HINT=19)


# ---------------------------------------------------------------- the remaining kinds
# Each yields (label, path condition, spec) where spec(c) returns dict(state, msg, trace).

def special(*names):
    def deco(fn):
        for n in names:
            SPECIAL[n] = fn
        return fn
    return deco


def ld(p, n, sg=False):
    return t.mk("ld", p, n, sg)


def pile_size(con, loc):
    return t.mk("call", "pile_size", (con, C(loc)), ("rng", 0, 2 ** 64 - 1))


def u32(x):
    return t.cast(32, False, x)


@special("WIN")
def _(S):
    def spec(c):
        who = c.u(1)
        c.dom("enum", t.add(c.p, C(-1)), 1, (0, 1, 2))
        d = {"win_reason": c.u(1), "match_win_reason": t.mk("call", "get_match_win_reason", (), ("rng", 0, 2 ** 32 - 1)),
             "__case__": (t.eq(who, C(2)), {"draw": True}, {"winner": who})}
        return ev("finish", d), []
    yield "", TRUE, spec


@special("MATCH_KILL")
def _(S):
    def spec(c):
        return None, [("match_win_reason", c.u(4))]
    yield "", TRUE, spec


@special("DECK_TOP")
def _(S):
    def spec(c):
        con = c.con()
        seq = u32(t.sub(t.add(pile_size(con, MD), C(-1)), c.u(4)))
        c.skip(8)
        return ev("meta.update.places", [place(con, MD, seq)]), []
    yield "", TRUE, spec


@special("DRAW")
def _(S):
    def spec(c):
        con = c.con()
        n = c.count(4)
        c.skip(t.mul(n, C(8)))
        op = {"from": place(con, MD, u32(t.sub(pile_size(con, MD), n))), "count": n,
              "to": place(con, HAND, u32(pile_size(con, HAND))), "reverse": True}
        return ev("pile", {"reason": R_DRAW, "splice": {"ops": [op]}}), []
    yield "", TRUE, spec


@special("REVERSE_DECK")
def _(S):
    def spec(c):
        ops = [{"from": place(i, MD, 0), "count": u32(pile_size(C(i), MD)), "to": place(i, MD, 0), "reverse": True}
               for i in range(2)]
        return ev("pile", {"reason": R_EFFECT, "splice": {"ops": ops}}), []
    yield "", TRUE, spec


@special("AI_NAME")
def _(S):
    def spec(c):
        n = c.count(2)
        c.skip(t.add(n, C(1)))
        return None, []
    yield "", TRUE, spec


@special("SELECT_CARD")
def _(S):
    def spec(c):
        rep = c.con()
        d = {"can_cancel": c.flag(), "min": c.u(4), "max": c.u(4)}
        n = c.u(4, dom="ncount")
        limbo = t.eqz(ld(t.add(c.p, C(5)), 1))

        def card(c):
            code = c.u(4)
            return {"code": code, "place": c.place_or_limbo()}
        p0, doms = c.p, list(c.doms)
        cards = c.rep(n, card)
        end, doms2 = c.p, c.doms
        c.p, c.doms = p0, doms

        def code(c):
            v = c.u(4)
            c.skip(10)
            return v
        codes = c.rep(n, code)
        c.p, c.doms = end, doms2
        return {"request": {"replier": rep, "__case__": (
            limbo, {"select_card": {"limbo": dict(d, card_codes=[codes])}},
            {"select_card": {"unique_range": dict(d, cards=[cards])}})}}, []
    yield "", TRUE, spec


@special("RELOAD_FIELD")
def _(S):
    def spec(c):
        fl = c.u(4)

        def bit(m):
            return t.not_(t.eqz(t.band(fl, C(m))))
        shape = {"three_columns": bit(0x400000), "has_pzones": bit(0x800), "has_separate_pzones": bit(0x1000),
                 "has_emzones": bit(0x2000), "has_skill_zone": False}
        lps, add, ops = [], [], []
        for con in range(2):
            lps.append(c.u(4))
            for z, cnt in ((MZ, 7), (SZ, 8)):
                for seq in range(cnt):
                    loc, s = (z, seq) if z == MZ or seq < 5 else (FZ, 0) if seq == 5 else (PZ, seq - 6)
                    has = c.flag()
                    c.doms.append(("count", t.add(c.p, C(1)), 4, c.ks))
                    n = ld(t.add(c.p, C(1)), 4)
                    add.append(When(has, [place(con, loc, s)]))
                    k = t.mk("k", 0)
                    add.append(Rep(n, k, [place(con, loc, s, t.cast(32, True, k))], has))
                    c.p = t.add(c.p, t.ite(has, C(5), C(0)))
            for loc in (MD, HAND, GY, BAN, EX):
                ops.append(resize_op(con, loc, c.u(4)))
            c.skip(4)

        def chain(c):
            c.skip(4)
            a = c.place()
            b = c.place(1, 4, 0)
            return {"card_place": a, "place": b, "effect": c.effect()}
        chains = c.rep(c.count(4), chain)
        return ev("board.state", {"shape": shape, "turn_counter": -1, "lps": lps, "chains": [chains],
                                  "add": {"places": add}, "resize": {"ops": ops}}), []
    yield "", TRUE, spec


# ---------------------------------------------------------------- MSG_MOVE

WIRE = [("limbo", 0, None), ("MD", MD, None), ("HAND", HAND, None), ("MZ", MZ, None), ("SZ", SZ, "<5"),
        ("FIELD", SZ, 5), ("PZ0", SZ, 6), ("PZ1", SZ, 7), ("GY", GY, None), ("BAN", BAN, None), ("EX", EX, None)]
PILES = (MD, HAND, GY, BAN, EX)


def wire_class(p, name, loc, sq, ov):
    """Constraint and required place of the 10-byte location record at p."""
    con, lb, seq, pos = ld(p, 1), ld(t.add(p, C(1)), 1), ld(t.add(p, C(2)), 4), ld(t.add(p, C(6)), 4)
    facts, doms, g = [(lb, loc | (0x80 if ov else 0))], [("con", p, 1, ())], TRUE
    rloc, rseq = loc, seq
    if sq == "<5":
        g = t.lt(seq, C(5))
        doms.append(("enum", t.add(p, C(2)), 4, (), (0, 1, 2, 3, 4)))
    elif sq is not None:
        facts.append((seq, sq))
        rloc, rseq = (FZ, C(0)) if sq == 5 else (PZ, C(sq - 6))
    else:
        doms.append(("enum", t.add(p, C(2)), 4, (), (0, 1, 2, 3, 4, 5, 6) if loc == MZ else range(61)))
    ipos = t.cast(32, True, pos)
    if ov:
        g = t.and_(g, t.le(C(0), ipos))
        doms.append(("enum", t.add(p, C(6)), 4, (), (0, 1, 2, 3, 7)))
    else:
        doms.append(("enum", t.add(p, C(6)), 4, (), (1, 2, 4, 8)))
    return g, facts, doms, place(con, rloc, rseq, ipos if ov else C(-1)), rloc


def move_cases(S, only=None):
    for a in WIRE:
        for b in WIRE:
            for ova in ((False, True) if a[1] else (False,)):
                for ovb in ((False, True) if b[1] else (False,)):
                    yield a, b, ova, ovb


@special("MOVE")
def _(S):
    for a, b, ova, ovb in move_cases(S):
        p = t.add(S.base, C(4))
        ga, fa, da, prev, la = wire_class(p, *a, ova)
        gb, fb, db, curr, lb = wire_class(t.add(p, C(10)), *b, ovb)
        label = "%s%s->%s%s" % (a[0], "+mat" if ova else "", b[0], "+mat" if ovb else "")

        def spec(c, prev=prev, curr=curr, la=la, lb=lb, ova=ova, ovb=ovb, doms=da + db):
            c.doms += doms
            c.skip(24)
            reason = c.u(4)

            def card(d):
                return ev("card", dict(d, reason=reason))
            has_mat = S.call_bool("has_xyz_mat", prev)
            if not la and not lb:
                return None, []
            if not la:
                return card({"add": {"places": [curr]}}), []
            if not lb:
                tr = [] if la in PILES else [(has_mat, "xyz_left", S.place(prev), S.place({}))]
                return card({"remove": {"places": [prev]}}), tr
            if ovb and lb in PILES:
                return None, [("xyz_mat_defer", S.place(prev))]
            if not ovb and lb not in PILES:
                k = t.mk("k", 0)
                df = t.atom("deferred", None, None)
                el = S.elem(df, k)
                ik = t.cast(32, True, k)
                same = t.and_(t.eq(S.get(el, "con"), curr["con"]), t.eq(S.get(el, "loc"), C(curr["loc"])),
                              t.eq(S.get(el, "seq"), curr["seq"]), t.eq(S.get(el, "oseq"), ik))
                ops = [Rep(t.mk("size", df), k, [When(t.not_(same), [
                    {"old_place": el, "new_place": dict(curr, oseq=ik)}])]), {"old_place": prev, "new_place": curr}]
                return card({"move": {"ops": ops}}), [("take_deferred_xyz_mat",)]
            if ova and la in PILES:
                owner = S.call_place("get_xyz_left", dict(prev, oseq=C(-1)))
                return card({"move": {"ops": [{"old_place": S.set(owner, "oseq", prev["oseq"]),
                                               "new_place": curr}]}}), []
            tr = []
            if la not in PILES and lb in PILES:
                tr = [(has_mat, "xyz_left", S.place(curr), S.place(prev))]
            return card({"move": {"ops": [{"old_place": prev, "new_place": curr}]}}), tr
        yield label, t.and_(ga, gb), spec, fa + fb


# ---------------------------------------------------------------- MSG_SWAP_GRAVE_DECK

@special("SWAP_GRAVE_DECK")
def _(S):
    con = ld(S.base, 1)
    gs, ds = pile_size(con, GY), pile_size(con, MD)

    def bits(n, m):
        """The run structure of an extra-deck bit mask."""
        return "graveyard=%d,extra=%s" % (n, format(m, "0%db" % n) if n else "-")

    def spec(c, n, m):
        con = c.con()
        pos = c.u(4)
        size = c.u(4)
        c.dom("enum", t.add(c.p, C(-4)), 4, ((n + 7) // 8, (n + 7) // 8 + 1))
        c.skip(size)

        def op(f, fs, cnt, to, ts, rev=False):
            return {"from": place(con, f, fs), "count": cnt, "to": place(con, to, ts), "reverse": rev}
        ops = []
        if n:
            ops.append(op(GY, 0, n, MD, 0))
        ops.append(When(t.not_(t.eqz(ds)), [op(MD, n, u32(ds), GY, 0)]))
        sent = i = 0
        while i < n:
            if not m >> i & 1:
                i += 1
                continue
            j = i
            while j < n and m >> j & 1:
                j += 1
            ops.append(op(MD, i - sent, j - i, EX, u32(t.add(pos, C(sent)))))
            sent += j - i
            i = j
        return ev("pile.splice.ops", ops), []

    def case(n, m):
        facts = [(gs, n)]
        for i in range((n + 7) // 8):
            # bits past the graveyard's size are not the pile's: set them
            pad = 0xFF << (n - 8 * i) & 0xFF if n - 8 * i < 8 else 0
            facts.append((ld(t.add(S.base, C(9 + i)), 1), m >> 8 * i & 255 | pad))
        return bits(n, m), TRUE, lambda c: spec(c, n, m), facts
    for n in range(0, 7 if S.deep else 5):
        for m in range(1 << n):
            yield case(n, m)
    # longer graveyards: the run structure crosses byte boundaries of the bit buffer
    for n, m in ((9, 0b110000001), (12, 0b011110000110), (16, 0xC181)):
        yield case(n, m)
