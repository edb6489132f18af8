"""The room: every layout of seats reached through its interface, with unknown decks, verdicts, readiness and dice,
against a reference model of what a room tells whom."""
from . import build as ygbuild, terms as t
from .budget import limit
from .cardspec import at, entry
from .compare import Result, compare
from .decspec import keep
from .eventspec import Out
from .frame import program
from .interp import Interp
from .terms import C, FALSE, ONE, TRUE, ZERO
from .values import Arr, GV, Loc, Lst, Msg, Obj, Ptr, Rec, VOID, freeze, merge

ROOM = "YGOpen::Server::BasicRoom"
PB = ".YGOpen.Proto."
HOST_CHOOSES, RPS, DICE, COIN = 0, 1, 2, 3
LIMIT = 3                       # MAX_DUELISTS_PER_TEAM
UNKNOWN = "unknown spectators"
METHODS = {HOST_CHOOSES: "host chooses", RPS: "rock paper scissors", DICE: "dice", COIN: "coin"}


def app(lst, g, e):
    return lst if g is FALSE else Lst(lst.p + (("e", g, e),))


def fresh(o):
    """Independent copy of a nest of dicts and lists of immutable values."""
    if isinstance(o, dict):
        return {k: fresh(v) for k, v in o.items()}
    return list(o) if isinstance(o, list) else o


class Room:
    """An abstract room driven through its interface, and the reference model beside it."""

    def __init__(self):
        self.P = P = program("room.cpp")
        self.I = I = Interp(P)
        I.external = self.ext
        I.set_insert = self.joined
        self.this = Loc(("room",))
        rec = [r for r in P.d["records"] if r["q"] == ROOM]
        ct = [f for f in P.d["functions"] if f["q"] == ROOM + "::BasicRoom" and f.get("body") and len(f["params"]) == 5]
        if len(rec) != 1 or len(ct) != 1:
            raise ygbuild.AnalysisBroken("room not found")
        self.rec, self.ctor = rec[0], ct[0]
        self.peers = {}
        for r, q in (("validator", "ygv::Validator"), ("cores", "ygv::Cores")):
            I.st.m[(r,)] = Rec(q, {})
        I.st.m[("cnt", "random")] = ZERO
        I.st.m[("told", UNKNOWN)] = I.st.m[("asked",)] = Lst()
        # reference model
        self.seats, self.spect, self.more = {}, [], ZERO
        self.valid, self.ready, self.deck = {}, {}, {}
        self.told = {}
        self.asked = Lst()
        self.deciding = FALSE

    # ------------------------------------------------------------ surroundings

    def q(self, name):
        if PB + name not in self.P.schema.messages:
            raise ygbuild.AnalysisBroken("message %s not found" % name)
        return self.P.schema.cxx_name(PB + name)

    def msg(self, name, **fs):
        """A message; oneof members by name."""
        fd = self.P.schema.messages[PB + name].fields
        by = {f.name: f for f in fd.values()}
        d = {}
        for k, v in fs.items():
            if k not in by:
                raise ygbuild.AnalysisBroken("field %s of %s not found" % (k, name))
            f = by[k]
            d[k] = v
            if f.oneof:
                d["@t"] = C(f.number)
            elif f.type == "message" and not f.repeated:
                d["?" + k] = TRUE
        return Msg(self.q(name), d)

    def peer(self, i):
        r = ("peer", i)
        if r not in self.I.st.m:
            self.I.st.m[r] = Rec("ygv::Peer", {})
            self.I.st.m[("told", i)] = Lst()
        return Loc(r)

    def user(self, i):
        return Msg(self.q("User"), {}, t.atom("user of peer %s" % i, None, None))

    def verdict(self, banlist, deck):
        return t.mk("call", "accepted", (banlist, deck.base if isinstance(deck, Msg) else deck), ("rng", 0, 1))

    def error(self, banlist, deck):
        return Msg(self.q("DeckError"), {}, t.mk("call", "error", (banlist, deck.base), ("rng", None, None)))

    def rng(self, n):
        return t.mk("call", "random", (n,), ("rng", 0, 2 ** 32 - 1))

    def ext(self, n, f, this, args):
        I = self.I
        nm = f["n"]
        val = lambda a: I.load(a) if isinstance(a, Loc) else a                             # noqa: E731
        if f["q"] == "ygv::Peer::send":
            v = freeze(val(args[0]), I.st)
            if isinstance(this, Loc) and this.root[0] == "peer":
                r, e = ("told", this.root[1]), v
            else:
                r, e = ("told", UNKNOWN), Rec("#sent", {"to": val(this) if isinstance(this, Loc) else this, "what": v})
            I.st.m[r] = Lst(I.st.m.get(r, Lst()).p + (("e", TRUE, e),))
            return VOID
        if f["q"] == "ygv::Peer::fill_user":
            if not (isinstance(this, Loc) and this.root[0] == "peer"):
                raise Exception("user of an unknown client")
            I.store(args[0], self.user(this.root[1]))
            return VOID
        if f["q"] == "ygv::Validator::check":
            b, d = val(args[0]), freeze(val(args[1]), I.st)
            if not isinstance(d, Msg) or d.base is None or d.f:
                raise Exception("a deck of unknown origin is checked")
            r = ("asked",)
            I.st.m[r] = Lst(I.st.m.get(r, Lst()).p + (("e", TRUE, Rec("#check", {"list": b, "deck": d})),))
            I.store(args[2], self.error(b, d))
            return self.verdict(b, d)
        if f["q"] == "ygv::Rng::operator()":
            return self.rng(I.count("random"))
        raise Exception("external " + f["q"])

    def joined(self, v, e):
        """A set of unknown spectators with one more (a client enters once)."""
        if len(v.p) != 1 or v.p[0][0] != "sl":
            return None
        _, a, lo, n = v.p[0]
        return Lst((("sl", self.grown(a, e), lo, t.add(n, ONE)),))

    def grown(self, a, e):
        return t.mk("call", "with", (a, "peer %s" % e.lv.root[1]), ("rng", None, None))

    # ------------------------------------------------------------ operations on both

    def create(self, maxd, ftdm, host="h"):
        I = self.I
        self.m, self.ftdm, self.host = maxd, ftdm, host
        self.banlist = t.atom("banlist", None, None)
        lst = Lst([("e", TRUE, C(x)) for x in maxd])
        self.limits = Msg(self.q("DeckLimits"), {}, t.atom("deck limits", None, None))
        self.options = self.msg("Room.Options", max_duelists=lst, ftdm=C(ftdm), banlist_id=self.banlist, deck_limits=self.limits)
        self.construct(self.options)
        self.model_enter(host)

    def construct(self, options):
        I = self.I
        I.st.m[self.this.root] = Rec(ROOM, {})
        I.run_ctor(self.ctor, self.this, [Loc(("validator",)), Loc(("cores",)), Rec("ygv::Rng", {}), self.peer(self.host), options], self.rec)

    def enter(self, i):
        self.I.invoke(entry(self.P, "ygv::room_enter"), None, [self.this, self.peer(i)])
        self.model_enter(i)

    def signal(self, i, state, **kv):
        """A client's signal; state None: an empty one."""
        if state is None:
            s = self.msg("Room.Signal")
        else:
            k = {"Configuring": "configuring", "DecidingFirstTurn": "deciding_first_turn"}[state]
            s = self.msg("Room.Signal", **{k: self.msg("Room.Signal." + state, **kv)})
        self.raw(i, s)
        if not kv:
            return
        (k, v), = kv.items()
        getattr(self, "model_" + k)(i, v)

    def raw(self, i, s):
        self.I.st.m[("signal",)] = s
        self.I.invoke(entry(self.P, "ygv::room_visit"), None, [self.this, self.peer(i), Loc(("signal",))])

    def offer(self, i, name):
        d = Msg(self.q("Deck"), {}, t.atom("deck " + name, None, None))
        self.signal(i, "Configuring", update_deck=d)

    # ------------------------------------------------------------ the reference model

    def tell(self, i, g, m):
        if i == UNKNOWN:
            if self.more is not ZERO and g is not FALSE:
                k = t.mk("k", 0)
                x = Rec("#sent", {"to": t.mk("at", self.moreatom, k, (None, None)), "what": m})
                self.told[i] = Lst(self.told.get(i, Lst()).p + (("s", g, self.more, k, (("e", TRUE, x),)),))
            return
        self.told[i] = app(self.told.get(i, Lst()), g, m)

    def tell_all(self, g, m):
        for k in sorted(self.seats):
            self.tell(self.seats[k], g, m)
        self.tell(UNKNOWN, g, m)
        for i in self.spect:
            self.tell(i, g, m)

    def duelist(self, k, ready):
        i = self.seats[k]
        return self.msg("Room.Duelist", team=C(k[0]), pos=C(k[1]), user=self.user(i), is_host=TRUE if i == self.host else FALSE,
                        is_ready=ready)

    def cfg(self, **kv):
        return self.msg("Room.Event", configuring=self.msg("Room.Event.Configuring", **kv))

    def dec(self, **kv):
        return self.msg("Room.Event", deciding_first_turn=self.msg("Room.Event.DecidingFirstTurn", **kv))

    def model_enter(self, i):
        g = t.not_(self.deciding)
        lst = Lst([("e", TRUE, self.duelist(k, self.ready[k])) for k in sorted(self.seats)])
        n = t.add(self.more, C(len(self.spect)))
        self.tell(i, g, self.cfg(entering_state=self.msg("Room.Event.Configuring.EnteringState", options=self.options, duelists=lst,
                                                         spectator_count=n)))
        free = {c: [p for p in range(self.m[c]) if (c, p) not in self.seats] for c in (0, 1)}
        count = {c: self.m[c] - len(free[c]) for c in (0, 1)}
        teams = [c for c in (0, 1) if free[c]]
        if teams:
            c = min(teams, key=lambda c: (count[c], c))
            k = (c, free[c][0])
            self.seats[k] = i
            self.valid[k], self.ready[k], self.deck[k] = FALSE, FALSE, None
            self.tell_all(g, self.cfg(duelist_enters=self.duelist(k, FALSE)))
        else:
            if self.more is not ZERO:
                self.moreatom, self.more = self.grown(self.moreatom, Ptr(self.peer(i))), t.add(self.more, ONE)
            else:
                self.spect.append(i)
            self.tell_all(g, self.msg("Room.Event", spectator_count=t.add(n, ONE)))

    def seat(self, i):
        s = [k for k, j in self.seats.items() if j == i]
        return s[0] if s else None

    def model_update_deck(self, i, d):
        k, g = self.seat(i), t.not_(self.deciding)
        if k is None or g is FALSE:
            return
        ok = self.verdict(self.banlist, d)
        self.asked = app(self.asked, g, Rec("#check", {"list": self.banlist, "deck": d}))
        st = self.msg("Room.Event.Configuring.DeckStatus", deck_error=self.error(self.banlist, d))
        st = Msg(st.q, {**st.f, "?deck_error": t.not_(ok), "deck_error": merge(ok, Msg(st.f["deck_error"].q, {}), st.f["deck_error"])})
        self.tell(i, g, self.cfg(deck_status=st))
        self.valid[k] = t.ite(g, ok, self.valid[k])
        self.deck[k] = (g, ok, d, self.deck[k])

    def model_ready_status(self, i, r):
        k = self.seat(i)
        if k is None:
            return
        g = t.and_(t.not_(self.deciding), t.and_(t.not_(t.eq(r, self.ready[k])), t.or_(t.not_(r), self.valid[k])))
        self.ready[k] = t.ite(g, r, self.ready[k])
        self.tell_all(g, self.cfg(update_duelist=self.duelist(k, r)))

    def model_start_dueling(self, i, _):
        g = t.not_(self.deciding)
        if i != self.host:
            return
        for c in (0, 1):
            ks = [k for k in self.seats if k[0] == c]
            g = t.and_(g, TRUE if ks else FALSE)
            for k in sorted(ks):
                g = t.and_(g, t.and_(self.valid[k], self.ready[k]))
        self.deciding = t.or_(self.deciding, g)
        self.tell_all(g, self.dec(entering_state=self.msg("Room.Event.DecidingFirstTurn.EnteringState")))
        R = "Room.Event.DecidingFirstTurn.Result"
        prompt = self.dec(decide_first_turn=TRUE)
        if self.ftdm == HOST_CHOOSES:
            self.tell(self.host, g, prompt)
        elif self.ftdm == COIN:
            w = t.mod(self.rng(ZERO), C(2))
            self.tell_all(g, self.dec(result=self.msg(R, team_going_first=w, coin_result=w)))
            self.lead(g, w, prompt)
        elif self.ftdm == DICE:
            roll = lambda n: t.add(t.mod(self.rng(n), C(6)), ONE)                           # noqa: E731
            k = t.mk("k", 0)
            a, b = roll(t.scale(k, 2)), roll(t.add(t.scale(k, 2), ONE))
            n = t.mk("first", k, C(-1), t.not_(t.eq(a, b)))
            pair = lambda x, y: self.msg(R + ".Dice.ResultPair", team0=x, team1=y)         # noqa: E731
            la, lb = roll(t.scale(n, 2)), roll(t.add(t.scale(n, 2), ONE))
            w = t.lt(la, lb)
            lst = Lst([("s", TRUE, n, k, (("e", TRUE, pair(a, b)),)), ("e", TRUE, pair(la, lb))])
            self.tell_all(g, self.dec(result=self.msg(R, team_going_first=w, dice=self.msg(R + ".Dice", results=lst))))
            self.lead(g, w, prompt)

    def leader(self, c):
        ks = sorted(k for k in self.seats if k[0] == c)
        return self.seats[ks[0]] if ks else None

    def lead(self, g, w, m):
        for c, gc in ((0, t.not_(w)), (1, w)):
            if self.leader(c) is not None:
                self.tell(self.leader(c), t.and_(g, gc), m)

    def model_team_going_first(self, i, v):
        if self.ftdm != HOST_CHOOSES or i != self.host:
            return
        g = t.and_(self.deciding, t.le(v, ONE))
        self.tell_all(g, self.dec(result=self.msg("Room.Event.DecidingFirstTurn.Result", team_going_first=v)))

    # ------------------------------------------------------------ judging

    def fork(self):
        c = object.__new__(Room)
        c.__dict__.update(self.__dict__)
        for k in ("seats", "spect", "valid", "ready", "deck", "told"):
            setattr(c, k, fresh(getattr(self, k)))
        c.base = self.I.st.copy()
        return c

    def resume(self):
        self.I.external = self.ext
        self.I.st = self.base.copy()
        self.I.asserts = []

    def mark(self):
        """Forget what was said so far."""
        for k in [k for k in self.I.st.m if k[0] in ("told", "asked")]:
            self.I.st.m[k] = Lst()
        self.told, self.asked = {}, Lst()

    def many(self):
        """Let there be any number of further spectators; False if the room keeps them some other way."""
        v = self.I.st.m[self.this.root]
        fs = [x["n"] for x in self.rec["fields"] if self.I.ty(x["t"]).get("q") in ("std::set", "std::unordered_set", "std::vector")]
        fs = [k for k in fs if isinstance(v.f.get(k), Lst) and all(p[0] == "e" and isinstance(p[2], Ptr) for p in v.f[k].p)]
        if len(fs) != 1:
            return False
        self.moreatom = t.atom("spectators", None, None)
        self.more = t.mk("size", self.moreatom)
        self.spect = []                 # those known so far are among them
        self.I.st.m[self.this.root] = Rec(v.q, {**v.f, fs[0]: Lst((("sl", self.moreatom, ZERO, self.more),))})
        return True

    def decks(self):
        """peer -> deck kept for it, found by type."""
        out = {}

        def go(v):
            if isinstance(v, Rec):
                ps = [x for x in v.f.values() if isinstance(x, Ptr) and isinstance(x.lv, Loc) and x.lv.root[0] == "peer"]
                ds = [x for x in v.f.values() if isinstance(x, (Msg, GV)) and (x.q if isinstance(x, Msg) else x.alts[0][1].q if
                      isinstance(x.alts[0][1], Msg) else "") == self.q("Deck")]
                if len(ps) == 1 and len(ds) == 1:
                    out[ps[0].lv.root[1]] = ds[0]
                for x in v.f.values():
                    go(x)
            elif isinstance(v, Arr):
                for x in v.e:
                    go(x)
            elif isinstance(v, Lst):
                for p in v.p:
                    if p[0] == "e":
                        go(p[2])
        go(self.I.st.m[self.this.root])
        return out

    def deck_value(self, k):
        d = self.deck[k]

        def go(d):
            if d is None:
                return Msg(self.q("Deck"), {})
            g, ok, v, old = d
            return merge(g, merge(ok, v, Msg(v.q, {})), go(old))
        return go(d)

    def kind(self, m):
        """What an announcement is about, without its contents."""
        if isinstance(m, Rec) and m.q == "#sent":
            return Rec("#sent", {"to": m.f["to"], "what": self.kind(m.f["what"])})
        if not isinstance(m, Msg):
            return m
        c = self.I.pb_case(m)
        d = {"case": c}
        for f in self.P.cxx[m.q].fields.values():
            if f.oneof and f.name in m.f and f.type == "message" and isinstance(m.f[f.name], Msg):
                d[f.name] = self.I.pb_case(m.f[f.name])
        return Rec("#kind", d)

    def kinds(self, l):
        def part(p):
            if p[0] == "e":
                return ("e", p[1], self.kind(p[2]))
            if p[0] == "s":
                return p[:4] + (tuple(part(x) for x in p[4]),)
            if p[0] == "g":
                return p[:2] + (tuple(part(x) for x in p[2]),)
            raise Exception("messages of unknown origin")
        return Lst([part(p) for p in l.p])

    def kind_is(self, m, path):
        """Whether a message is of the kind named by its oneof members, as a condition."""
        g = TRUE
        for nm in path:
            if not isinstance(m, Msg):
                raise Exception("announcement of unknown form")
            f = {f.name: f for f in self.P.cxx[m.q].fields.values()}[nm]
            g = t.and_(g, t.eq(self.I.pb_case(m), C(f.number)))
            if g is FALSE:
                return g
            m = m.f.get(nm)
        return g

    def when(self, told, path=()):
        """Condition under which some known client is told something of that kind."""
        r = FALSE
        for i in told:
            if i == UNKNOWN:
                continue
            for p in told[i].p:
                if p[0] != "e":
                    raise Exception("messages of unknown origin")
                r = t.or_(r, t.and_(p[1], self.kind_is(p[2], path)))
        return r

    def own(self, told, i, path, names):
        """The fields `names` of the messages of that kind told to client i."""
        out = Lst()
        for p in told.get(i, Lst()).p:
            g = t.and_(p[1], self.kind_is(p[2], path))
            if g is FALSE:
                continue
            m = p[2]
            for nm in path:
                m = m.f[nm]
            out = app(out, g, Rec("#fields", {nm: self.I.pb_get(m, self.I.fdesc(m.q, nm)) for nm in names}))
        return out

    def said(self):
        return {k[1]: v for k, v in self.I.st.m.items() if k[0] == "told"}

    EFFECTS = {"left": ("deciding_first_turn", "entering_state"), "toggled": ("configuring", "update_duelist"),
               "seated": ("configuring", "duelist_enters"), "spectates": ("spectator_count",),
               "decided": ("deciding_first_turn", "result"), "anything": ()}

    def judge(self, o, prefix="", only=None):
        """Compare what was said since the last mark."""
        I = self.I
        if I.st is None:
            keep(o, "left" if only else "audience", Result("differ", "no path returns", prefix))
            return
        pc = I.st.pc
        got = self.said()

        def put(aspect, a, b, what="", n=160):
            if only is not None and aspect not in only:
                return None
            r = compare(I, a, b, pc, n)
            if r.status != "equal":
                r = Result(r.status, (what + ": " if what else "") + r.detail, "%s%s" % (prefix, r.path))
            keep(o, aspect, r)
            return r
        other = self.judge_result(got, put)
        for i in sorted(set(got) | set(self.told), key=str):
            a, b = got.get(i, Lst()), self.told.get(i, Lst())
            if other is not None:               # other draws than the model's: who leads and what was drawn is judged above
                put("content", self.results(a, other), self.results(b, other), "to %s: the result" % self.who(i))
                a, b = self.neutral(a), self.neutral(b)
            r = put("audience", self.kinds(a), self.kinds(b), self.who(i))
            if r is not None and r.status == "equal":
                put("content", a, b, "to " + self.who(i))
        for nm, path in self.EFFECTS.items():
            put(nm, self.when(got, path), self.when(self.told, path), "when " + (".".join(path) or "anything is said"))
        for k, i in sorted(self.seats.items()):
            for nm, path in (("seat", ("configuring", "duelist_enters")), ("seat", ("configuring", "update_duelist"))):
                put(nm, self.own(got, i, path, ("team", "pos", "user")), self.own(self.told, i, path, ("team", "pos", "user")), self.who(i))
        for i in sorted((set(got) | set(self.told)) - {UNKNOWN}, key=str):
            for path in (("configuring", "deck_status"),):
                put("reply", self.own(got, i, path, ("deck_error",)), self.own(self.told, i, path, ("deck_error",)), self.who(i))
        put("validated", I.st.m.get(("asked",), Lst()), self.asked)
        have = self.decks()
        for k, i in sorted(self.seats.items()):
            if i in have:
                put("deck", have[i], self.deck_value(k), self.who(i))
        for c, apc, where in I.asserts:
            if t.constrain(c, apc) is TRUE:
                keep(o, "assertions", Result("equal"))
                continue
            r = compare(I, c, TRUE, apc, 160)
            keep(o, "assertions", r if r.status == "equal" else Result(r.status, "assertion fails at %s" % where))

    RESULT, PROMPT = ("deciding_first_turn", "result"), ("deciding_first_turn", "decide_first_turn")

    def neutral(self, l):
        """The announcements with the result's contents and the prompt to the winner left out."""
        def parts(ps):
            out = []
            for p in ps:
                if p[0] == "s":
                    out.append(p[:4] + (parts(p[4]),))
                    continue
                x, wrap = p[2], None
                if isinstance(x, Rec) and x.q == "#sent":
                    wrap, x = x.f["to"], x.f["what"]
                if self.kind_is(x, self.PROMPT) is TRUE:
                    continue
                if self.kind_is(x, self.RESULT) is TRUE:
                    x = Rec("#result", {})
                    if wrap is not None:
                        x = Rec("#sent", {"to": wrap, "what": x})
                    p = p[:2] + (x,) + p[3:]
                out.append(p)
            return tuple(out)
        return Lst(parts(l.p))

    def results(self, l, want):
        """The results told, each compared with `want`, the one told to the host."""
        out = []
        for p in l.p:
            for e in (p[4] if p[0] == "s" else (p,)):
                x = e[2]
                if isinstance(x, Rec) and x.q == "#sent":
                    x = x.f["what"]
                if self.kind_is(x, self.RESULT) is TRUE:
                    out.append(("e", p[1], want if l is not None and self.ours(x) else x))
        return Lst(out)

    def ours(self, x):
        return any(self.kind_is(p[2], self.RESULT) is TRUE and p[2] is x for l in self.told.values() for p in l.p if p[0] == "e")

    def judge_result(self, got, put):
        """The decision announced, and who is prompted."""
        I = self.I
        path, prompt, other = self.RESULT, self.PROMPT, None
        want = next((self.own(self.told, i, path, ("team_going_first", "coin_result", "dice")) for i in (self.host,)), Lst())
        have = self.own(got, self.host, path, ("team_going_first", "coin_result", "dice"))
        r = compare(I, have, want, I.st.pc, 160)
        win = {}
        if r.status != "equal" and len(have.p) == len(want.p) == 1 and self.ftdm in (COIN, DICE):
            # other draws are as good: the announcement has to agree with itself
            m = have.p[0][2].f
            w = m["team_going_first"]
            ok = t.and_(t.le(ZERO, w), t.le(w, ONE))
            if self.ftdm == COIN:
                ok = t.and_(ok, t.eq(m["coin_result"], w))
            else:
                l = I.pb_get(m["dice"], I.fdesc(m["dice"].q, "results"))
                if not l.p or l.p[-1][0] != "e" or l.p[-1][1] is not TRUE:
                    raise Exception("dice of unknown form")
                x, y = (I.pb_get(l.p[-1][2], I.fdesc(l.p[-1][2].q, k)) for k in ("team0", "team1"))
                for v in (x, y):
                    ok = t.and_(ok, t.and_(t.le(ONE, v), t.le(v, C(6))))
                ok = t.and_(ok, t.and_(t.not_(t.eq(x, y)), t.eq(w, t.lt(x, y))))
            put("result", ok, TRUE, "the announced decision agrees with itself")
            put("result", have.p[0][1], want.p[0][1], "when a decision is announced")
            other = next(p[2] for p in got[self.host].p if self.kind_is(p[2], path) is not FALSE)
            for c in (0, 1):
                win[self.leader(c)] = t.and_(have.p[0][1], t.eq(w, C(c)))
        else:
            put("result", have, want)
        for i in sorted((set(got) | set(self.told)) - {UNKNOWN}, key=str):
            a = self.when({i: got.get(i, Lst())}, prompt)
            b = win.get(i, FALSE) if win else self.when({i: self.told.get(i, Lst())}, prompt)
            put("prompt", a, b, "prompt to " + self.who(i))
        return other

    def who(self, i):
        k = self.seat(i)
        if k is not None:
            return "duelist %d of team %d%s" % (k[1], k[0], " (host)" if i == self.host else "")
        return UNKNOWN if i == UNKNOWN else "spectator" if i in self.spect else "outsider"


def out(R, key, f):
    o = Out(key, at(R.P, f))
    return o


def guarded(o, fn, secs=60):
    try:
        with limit(secs):
            fn()
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % (str(e) or type(e).__name__)[:200]
    return o


def arrive(R, n):
    """n clients in all, each offering a deck of unknown validity and saying whether it is ready."""
    for j in range(n):
        i = R.host if j == 0 else "p%d" % j
        if j:
            R.enter(i)
        R.offer(i, str(i))
        R.signal(i, "Configuring", ready_status=t.batom("ready %s" % i))


def layout(m0, m1, n, ftdm=HOST_CHOOSES, many=False):
    R = Room()
    R.create([m0, m1], ftdm)
    arrive(R, n)
    if many and not R.many():
        raise Exception("spectators are kept in an unknown way")
    R.mark()
    return R


def name(m0, m1, n, many):
    return "%d+%d seats, %d clients%s" % (m0, m1, n, " and more spectators" if many else "")


def layouts(deep):
    """Layouts of seats reached by arrivals: every limit per team, every number of clients until two are spectators."""
    for m0 in range(1, LIMIT + 1):
        for m1 in range(1, LIMIT + 1):
            for n in range(1, m0 + m1 + 3):
                yield m0, m1, n, False
            yield m0, m1, m0 + m1, True
            if deep:
                yield m0, m1, m0 + m1 + 2, True
                for n in range(1, m0 + m1):
                    yield m0, m1, n, True


def some(deep):
    """The layouts whose signals are all tried."""
    if deep:
        yield from layouts(True)
        return
    for m0, m1, ns in ((1, 1, (1, 2, 3)), (2, 1, (2, 4)), (1, 3, (3, 5)), (3, 3, (5, 7))):
        for n in ns:
            yield m0, m1, n, False
    yield 2, 2, 4, True


def fns(P, *names):
    for nm in names:
        f = [f for f in P.fns(ROOM + "::" + nm) if f.get("body")]
        if f:
            return f[0]
    return None


def d_enter(m0, m1, n, many):
    """One more client enters."""
    P = program("room.cpp")
    f = fns(P, "enter")
    o = Out("enters: " + name(m0, m1, n, many), at(P, f or entry(P, "ygv::room_enter")))

    def go():
        R = layout(m0, m1, n, many=many)
        for i in sorted(R.seats.values(), key=str):      # someone ready may have handed in another deck since
            R.offer(i, "other of %s" % i)
        R.mark()
        R.enter("new")
        R.judge(o)
        o.functions |= set(R.I.functions)
        # where everyone sits shows in what they may do: readiness of a seated client is announced with its seat
        R.mark()
        R.offer("new", "later")
        R.signal("new", "Configuring", ready_status=TRUE)
        R.judge(o, prefix="then it readies: ")
        probe(R, o)
    return guarded(o, go)


OPS = {"offers a deck": lambda R, i: R.offer(i, "new"),
       "changes readiness": lambda R, i: R.signal(i, "Configuring", ready_status=t.batom("new readiness")),
       "starts": lambda R, i: R.signal(i, "Configuring", start_dueling=t.batom("start value")),
       "names a team": lambda R, i: R.signal(i, "DecidingFirstTurn", team_going_first=t.atom("team", 0, 2 ** 32 - 1)),
       "empty signal": lambda R, i: R.signal(i, None),
       "empty configuring signal": lambda R, i: R.signal(i, "Configuring"),
       "empty deciding signal": lambda R, i: R.signal(i, "DecidingFirstTurn")}


LATER = ("left", "toggled", "decided", "seat", "deck")


def probe(R, o, log=None):
    """Everything a client can do next, to show what the room remembers."""
    def step(prefix, i, state, **kv):
        R.mark()
        R.signal(i, state, **kv)
        if o is not None:
            R.judge(o, prefix=prefix, only=LATER)
        if log is not None:
            log.append(({k: v for k, v in R.said().items()}, R.I.st.m.get(("asked",), Lst())))
    for k, i in sorted(R.seats.items()):
        step("then readiness of %s: " % R.who(i), i, "Configuring", ready_status=t.batom("then ready %s" % i))
    step("then the host starts: ", R.host, "Configuring", start_dueling=TRUE)
    step("then the host names a team: ", R.host, "DecidingFirstTurn", team_going_first=t.atom("then team", 0, 2 ** 32 - 1))


def unchanged(R, o, base, log):
    """The room answers everything after the signal as it would have without it."""
    for (a, x), (b, y) in zip(log, base):
        for i in sorted(set(a) | set(b), key=str):
            r = compare(R.I, a.get(i, Lst()), b.get(i, Lst()), R.I.st.pc, 160)
            keep(o, "no effect", r if r.status == "equal" else Result(r.status, "a later signal is answered otherwise: " + r.detail, r.path))
        keep(o, "no effect", compare(R.I, x, y, R.I.st.pc, 160))


def silent(R, o):
    for i, l in sorted(R.said().items(), key=lambda x: str(x[0])):
        r = compare(R.I, l, Lst(), R.I.st.pc, 160)
        keep(o, "silent", r if r.status == "equal" else Result(r.status, "%s is told something: %s" % (R.who(i), r.detail)))
    keep(o, "silent", compare(R.I, R.I.st.m.get(("asked",), Lst()), Lst(), R.I.st.pc, 160))


NONE = ("names a team", "empty signal", "empty configuring signal", "empty deciding signal")


def clients(R, few):
    """The clients whose signals are tried: all, or those at the ends of each team."""
    ks = sorted(R.seats)
    if few:
        ks = [k for k in ks if R.seats[k] == R.host or k[1] == max(p for c, p in ks if c == k[0])]
    return [R.seats[k] for k in ks] + R.spect[:1] + ["outsider"]


def d_ops(m0, m1, n, many, ops=tuple(OPS), few=False):
    """Each signal from each kind of client in the configuring state."""
    P = program("room.cpp")
    f = fns(P, "visit")
    res = []
    lay = name(m0, m1, n, many)
    try:
        with limit(60):
            base = layout(m0, m1, n, many=many)
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:
        o = Out("signals: " + lay, at(P, f or entry(P, "ygv::room_visit")))
        o.error = "not analysable: %s" % (str(e) or type(e).__name__)[:200]
        return [o]
    snap = base.fork()
    before = []
    R = snap.fork()
    R.base = snap.base
    R.resume()
    guarded(Out("", ""), lambda: probe(R, None, before))
    who = clients(base, few)
    for op in ops:
        for i in who:
            R = snap.fork()
            R.base = snap.base
            R.resume()
            o = Out("%s: %s, %s" % (op, lay, R.who(i)), at(P, f or entry(P, "ygv::room_visit")))
            o.op, o.peer = op, i

            def go():
                OPS[op](R, i)
                R.judge(o)
                none = op in NONE or R.seat(i) is None or op == "starts" and i != R.host
                log = []
                if none:
                    silent(R, o)
                probe(R, o, log)
                if none and before:
                    unchanged(R, o, before, log)
                o.functions |= set(R.I.functions)
            res.append(guarded(o, go))
    return res


def decided(m0, m1, n, many, ftdm):
    """A room whose first turn is being decided."""
    R = Room()
    R.create([m0, m1], ftdm)
    for j in range(n):
        i = R.host if j == 0 else "p%d" % j
        if j:
            R.enter(i)
    if many and not R.many():
        raise Exception("spectators are kept in an unknown way")
    for i in list(R.seats.values()):
        R.offer(i, str(i))
        R.signal(i, "Configuring", ready_status=TRUE)
    R.mark()
    return R


def d_decide(m0, m1, n, many, ftdm, few=False):
    """The start of the decision, and every signal afterwards."""
    P = program("room.cpp")
    f = fns(P, "visit")
    w = at(P, f or entry(P, "ygv::room_visit"))
    res = []
    lay = "%s, %s" % (METHODS[ftdm], name(m0, m1, n, many))
    o = Out("decision starts: " + lay, w)
    o.op = "decision"
    box = {}

    def go():
        R = decided(m0, m1, n, many, ftdm)
        R.signal(R.host, "Configuring", start_dueling=TRUE)
        R.judge(o)
        o.functions |= set(R.I.functions)
        R.deciding = t.constrain(R.deciding, R.I.st.pc)
        box["R"] = R
    res.append(guarded(o, go))
    if "R" not in box:
        return res
    # afterwards: take the path on which every deck was accepted
    R0 = box["R"]
    I = R0.I
    R0.mark()
    pc = t.and_(I.st.pc, R0.deciding)
    if pc is FALSE:
        return res
    I.st.pc = pc
    R0.deciding = TRUE
    snap = R0.fork()
    before = []
    B = snap.fork()
    B.base = snap.base
    B.resume()
    B.signal(B.host, "DecidingFirstTurn", team_going_first=t.atom("then team", 0, 2 ** 32 - 1))
    before.append((B.said(), Lst()))
    for op in OPS:
        if op == "names a team" and ftdm != HOST_CHOOSES:
            continue                            # the answer to the prompt after dice or a coin is not implemented yet
        for i in clients(R0, few):
            R = snap.fork()
            R.base = snap.base
            R.resume()
            o2 = Out("%s while deciding: %s, %s" % (op, lay, R.who(i)), w)
            o2.op, o2.peer = op + " while deciding", i

            def go2():
                OPS[op](R, i)
                R.judge(o2)
                if op != "names a team" or i != R.host:
                    silent(R, o2)
                log = []
                R.mark()
                R.signal(R.host, "DecidingFirstTurn", team_going_first=t.atom("then team", 0, 2 ** 32 - 1))
                log.append((R.said(), Lst()))
                if op != "names a team" or i != R.host:
                    unchanged(R, o2, before, log)
                if ftdm == HOST_CHOOSES:
                    R.judge(o2, prefix="then the host names a team: ", only=LATER)
                o2.functions |= set(R.I.functions)
            res.append(guarded(o2, go2))
    return res


def d_options():
    """Creation from any options: what the host is shown of them."""
    P = program("room.cpp")
    f = fns(P, "BasicRoom")
    res = []
    val = lambda k: t.atom("limit %s" % k, 0, 2 ** 32 - 1)                                  # noqa: E731
    tail = t.atom("further limits", 0, 2 ** 32 - 1)
    for n in (0, 1, 2, 3, "any number beyond two"):
        o = Out("options: %s limits" % n, at(P, f or entry(P, "ygv::room_make")))

        def go():
            R = Room()
            R.host, R.m = "h", None
            k = n if isinstance(n, int) else 2
            parts = [("e", TRUE, val(j)) for j in range(k)]
            if k != n:
                a = t.atom("further limits", None, None)
                parts.append(("sl", a, ZERO, t.mk("size", a)))
            m = t.atom("method", -2 ** 31, 2 ** 31 - 1)
            opt = R.msg("Room.Options", max_duelists=Lst(parts), ftdm=m, banlist_id=t.atom("banlist", None, None),
                        deck_limits=Msg(R.q("DeckLimits"), {}, t.atom("deck limits", None, None)))
            R.construct(opt)
            o.functions |= set(R.I.functions)
            cl = lambda x: t.ite(t.lt(x, ONE), ONE, t.ite(t.lt(C(LIMIT), x), C(LIMIT), x))  # noqa: E731
            want = [cl(val(j)) if j < k else ONE for j in (0, 1)]
            e = R.P.schema.enums[PB + "Room.FirstTurnDecideMethod"]
            known = FALSE
            for _, num in e.values:
                known = t.or_(known, t.eq(m, C(num)))
            want = Msg(opt.q, {**opt.f, "max_duelists": Lst([("e", TRUE, x) for x in want]), "ftdm": t.ite(known, m, ZERO)})
            if R.I.st is None:
                keep(o, "options", Result("differ", "no path creates the room"))
                return
            got = R.I.st.m.get(("told", "h"), Lst())
            es = [p for p in got.p if p[0] == "e"]
            if not es:
                keep(o, "options", Result("differ", "the host is told nothing"))
                return
            ev = R.cfg(entering_state=R.msg("Room.Event.Configuring.EnteringState", options=want))
            have = es[0][2]
            try:
                have = have.f["configuring"].f["entering_state"].f["options"]
            except (KeyError, AttributeError):
                keep(o, "options", Result("differ", "the host is not shown the options"))
                return
            del ev
            keep(o, "options", compare(R.I, have, want, R.I.st.pc, 240))
        res.append(guarded(o, go))
    return res
