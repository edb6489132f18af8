"""Application of queries to cards, agreement of the attribute tables, and comparison of places."""
from itertools import product
from . import build as ygbuild, evalt, terms as t
from .budget import limit
from .compare import Result, compare
from .decspec import keep
from .eventspec import Out
from .frame import program
from .interp import Interp
from .specs import queries as qs
from .terms import C, FALSE, TRUE, ZERO
from .values import Loc, Lst, Msg, Rec, VOID, freeze

QUERY = ".YGOpen.Proto.Duel.Msg.Query"
DATA = QUERY + ".Data"
CARD = "YGOpen::Client::BasicCard"
LISTS = ("counters", "targets")
# attribute -> bit reported when it was already known (the core's query flag; links are reported as two attributes)
BITS = {"code": 0x1, "position": 0x2, "alias": 0x4, "type": 0x8, "level": 0x10, "xyz_rank": 0x20, "attribute": 0x40, "race": 0x80,
        "atk": 0x100, "def": 0x200, "base_atk": 0x400, "base_def": 0x800, "equipped_to": 0x4000, "owner": 0x40000,
        "status": 0x80000, "is_public": 0x100000, "pend_l_scale": 0x200000, "pend_r_scale": 0x400000, "is_hidden": 0x1000000,
        "cover": 0x2000000, "link_rate": 0x100000000, "link_arrow": 0x200000000}


def entry(P, name):
    f = P.fns(name)
    if len(f) != 1 or not f[0].get("body"):
        raise ygbuild.AnalysisBroken("%s not found" % name)
    return f[0]


def at(P, f):
    return "%s:%d" % (P.files[f["file"]] if isinstance(f["file"], int) else f["file"], f["line"])


class CardEnv:
    def __init__(self):
        self.P = P = program("query.cpp")
        self.I = I = Interp(P)
        I.external = self.ext
        self.asked = []
        I.over["YGOpen::Proto::Duel::operator=="] = self.equal       # decided by C23
        self.card = Loc(("card",))
        rec = [r for r in P.d["records"] if r["q"] == CARD]
        if len(rec) != 1:
            raise ygbuild.AnalysisBroken("card class not found")
        self.rec = rec[0]
        self.schema = {f.name: f for f in P.schema.messages[DATA].fields.values()}
        ct = [f for f in P.d["functions"] if f["q"] == CARD + "::BasicCard" and not f["params"] and f.get("body")]
        if len(ct) != 1:
            raise ygbuild.AnalysisBroken("constructor of the card not found")
        I.st.m[self.card.root] = Rec(CARD, {})
        I.run_ctor(ct[0], self.card, [], self.rec)

    def ext(self, n, f, this, args):
        v = freeze(self.I.load(args[0]) if isinstance(args[0], Loc) else args[0], self.I.st)
        if f["n"] == "has_card":
            return TRUE
        if f["n"] == "card":
            self.asked.append(v)
            return self.card
        raise Exception("external " + f["q"])

    def equal(self, I, n, f, this, args):
        a, b = (I.load(x) if isinstance(x, Loc) else x for x in args)
        return t.and_(*[t.eq(*(I.pb_get(m, I.fdesc(m.q, k)) for m in (a, b))) for k in ("con", "loc", "seq", "oseq")])

    def cell(self, name, const=False):
        c = [f for f in self.P.d["functions"] if f["q"] == CARD + "::" + name and f.get("body") and bool(f.get("const")) == const]
        if len(c) != 1:
            return None
        return self.I.invoke(c[0], self.card, [])

    def old(self, name):
        """An unknown value of the card's attribute."""
        fd = self.schema[name]
        vd = self.P.schema.messages[fd.type_name].fields.get("value") or self.P.schema.messages[fd.type_name].fields["values"]
        return self.unknown("old:" + name, vd)

    def unknown(self, nm, vd):
        I = self.I
        a = t.atom(nm, *((None, None) if vd.type == "message" else I.frng(vd)))
        if vd.repeated:
            I.elem_kind[a] = ("msg", I.fmsg(vd))
            return Lst([("sl", a, ZERO, t.mk("size", a))])
        if vd.type == "message":
            fs = I.p.schema.messages[vd.type_name].fields
            return Msg(I.fmsg(vd), {k: t.atom("%s.%s" % (nm, k), *I.frng(f)) for k, f in fs.items()})
        return a

    def value_field(self, name):
        m = self.P.schema.messages[self.schema[name].type_name]
        return m.fields.get("value") or m.fields.get("values")

    def query(self, present):
        """A query carrying exactly the attributes `present`, with unknown values."""
        I = self.I
        d, new = {}, {}
        for nm in present:
            fd, vd = self.schema[nm], self.value_field(nm)
            v = self.unknown("new:" + nm, vd)
            new[nm] = v
            m = {vd.name: v}
            if vd.type == "message" and not vd.repeated:
                m["?" + vd.name] = TRUE
            d[nm] = Msg(I.fmsg(fd), m)
            d["?" + nm] = TRUE
        q = I.p.schema.cxx_name(QUERY)
        pl = self.unknown("place", I.p.schema.messages[QUERY].fields["place"])
        return Msg(q, {"place": pl, "?place": TRUE, "data": Msg(I.p.schema.cxx_name(DATA), d), "?data": TRUE}), new, pl

    def fill(self):
        self.cells, self.was = {}, {}
        for nm in self.schema:
            l = self.cell(nm)
            if l is None:
                continue
            self.cells[nm] = l
            self.was[nm] = self.old(nm)
            self.I.store(l, self.was[nm])


def same(a, b):
    """Equality of two attribute values as the specification sees it."""
    if isinstance(a, Msg):
        return t.and_(*[t.eq(a.f[k], b.f[k]) for k in a.f])
    return t.eq(a, b)


def d_apply(present, cached):
    env = CardEnv()
    f = entry(env.P, "ygv::query_cached" if cached else "ygv::query_plain")
    pq = [g for g in env.P.fns("YGOpen::Client::parse_query") if g.get("body")]
    o = Out("parse_query%s[%s]" % ("<cached>" if cached else "", ",".join(present) if len(present) < 4 else "%d attributes" % len(present)),
            at(env.P, pq[0] if pq else f))
    I = env.I
    try:
        with limit(10):
            env.fill()
            q, new, pl = env.query(present)
            I.st.m[("q",)] = q
            I.st.m[("frame",)] = Rec("ygv::QFrame", {})
            r = I.invoke(f, None, [Loc(("frame",)), Loc(("q",))])
            o.functions |= set(I.functions)
            if I.st is None:
                keep(o, "returns", Result("differ", "no path returns"))
                return o
            keep(o, "returns", Result("equal"))
            hits = ZERO
            for nm, l in env.cells.items():
                want = new.get(nm, env.was[nm])
                res = compare(I, I.load(l), want, I.st.pc, 60)
                if res.status != "equal" and cached and nm in new and nm not in LISTS:
                    # keeping an equal value is storing it
                    alt = merge_msg(same(env.was[nm], new[nm]), env.was[nm], new[nm])
                    r2 = compare(I, I.load(l), alt, I.st.pc, 60)
                    res = r2 if r2.status == "equal" else res
                if res.status != "equal":
                    res = Result(res.status, res.detail, "%s%s %s" % ("" if nm in new else "the uncarried ", nm, res.path))
                keep(o, "stored" if nm in new else "others", res)
            if cached:
                for nm in present:
                    if nm not in LISTS:
                        hits = t.add(hits, t.ite(same(env.was[nm], new[nm]), C(BITS[nm]), ZERO))
            keep(o, "reported", compare(I, r, hits, I.st.pc, 200))
            for x in env.asked[-1:]:
                keep(o, "place", compare(I, x, pl, I.st.pc, 60))
            if not env.asked:
                keep(o, "place", Result("undecided", "the card is not looked up through the frame"))
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % str(e)[:200]
    return o


def merge_msg(g, a, b):
    from .values import merge
    return merge(g, a, b)


def applications(deep):
    names = list(CardEnv().schema)
    sets = [(), tuple(names)] + [(a,) for a in names]
    if deep:
        sets += [(a, b) for i, a in enumerate(names) for b in names[i + 1:]] + [tuple(n for n in names if n != a) for a in names]
    else:
        sets += [(a, b) for a, b in zip(names, names[1:])]
    for s in sets:
        for c in (False, True):
            yield s, c


def d_tables():
    """Schema, card and reported bits name the same attributes, each with storage of its own."""
    env = CardEnv()
    I = env.I
    rec = env.rec
    o = Out("attribute tables", "%s:%s" % (env.P.files[rec["file"]] if isinstance(rec.get("file"), int) else rec.get("file"), rec.get("line")))
    try:
        cells = {}
        for nm in env.schema:
            l = env.cell(nm)
            keep(o, "storage", Result("differ", "the card has no storage for the attribute", nm) if l is None else Result("equal"))
            if l is None:
                continue
            keep(o, "storage", Result("equal" if l not in cells.values() else "differ", "the storage is another attribute's", nm))
            cells[nm] = l
            c = env.cell(nm, True)
            keep(o, "storage", Result("equal" if c == l else "differ", "reading and writing use different storage", nm))
            vd = env.value_field(nm)
            v = I.load(l)
            fresh = Lst() if vd.repeated else Msg(I.fmsg(vd)) if vd.type == "message" else ZERO
            keep(o, "fresh card", compare(I, v, fresh, I.st.pc, 10))
        known = set(BITS) | set(LISTS)
        for nm in env.schema:
            keep(o, "schema", Result("equal" if nm in known else "undecided", "attribute unknown to the specification", nm))
        for nm in known:
            keep(o, "schema", Result("equal" if nm in env.schema else "differ", "attribute no longer in the schema", nm))
        o.functions |= set(I.functions)
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % str(e)[:200]
    return o


# ------------------------------------------------------------------ places

COORDS = ("con", "loc", "seq", "oseq")
RANGES = {"con": (-2 ** 31, 2 ** 31 - 1), "loc": (0, 2 ** 32 - 1), "seq": (0, 2 ** 32 - 1), "oseq": (-2 ** 31, 2 ** 31 - 1)}


def place_atoms(nm):
    return {c: t.atom("%s.%s" % (nm, c), *RANGES[c]) for c in COORDS}


def order_only(x, pairs):
    """True when the term depends on its atoms only through the order of the paired ones."""
    signs = set()
    for a, b in pairs:
        for d in (t.sub(a, b), t.sub(b, a)):
            signs |= {t.lt(d, ZERO), t.lt(d, t.ONE), t.lt(ZERO, d), t.le(d, ZERO), t.eq(d, ZERO), t.eqz(d)}
    seen = set()

    def go(y):
        if isinstance(y, tuple):
            return all(go(z) for z in y)
        if not isinstance(y, t.T):
            return True
        if y.id in seen or t.is_c(y) or y in signs:
            return True
        seen.add(y.id)
        return y.op != "a" and go(y.a)
    return go(x)


def d_order():
    env = CardEnv()
    P, I = env.P, env.I
    I.over.clear()
    less, eq = entry(P, "ygv::place_less"), entry(P, "ygv::place_equal")
    fs = [f for f in P.d["functions"] if f["q"] == "YGOpen::Proto::Duel::PlaceLess::operator()" and f.get("body")]
    o = Out("place comparison", at(P, fs[0] if fs else less))
    A, B = place_atoms("a"), place_atoms("b")
    q = I.p.schema.cxx_name(".YGOpen.Proto.Duel.Place")
    try:
        I.st.m[("pa",)], I.st.m[("pb",)] = Msg(q, dict(A)), Msg(q, dict(B))
        L = I.truth(I.invoke(less, None, [Loc(("pa",)), Loc(("pb",))]))
        E = I.truth(I.invoke(eq, None, [Loc(("pa",)), Loc(("pb",))]))
        o.functions |= set(I.functions)
        pairs = [(A[c], B[c]) for c in COORDS]
        exact = order_only(L, pairs) and order_only(E, pairs)
        vals = {}

        def ev(term, xs, ys):
            m = {}
            for c, x, y in zip(COORDS, xs, ys):
                m[A[c]], m[B[c]] = x, y
            return bool(evalt.Val(1, m, prog=I).ev(term))
        tab = {}
        for s in product((-1, 0, 1), repeat=4):
            xs, ys = (1, 1, 1, 1), tuple(1 + d for d in s)
            tab[s] = ev(L, xs, ys)
            e = ev(E, xs, ys)
            keep(o, "equality", Result("equal" if e == (s == (0, 0, 0, 0)) else "differ",
                                       "places whose (con, loc, seq, oseq) compare as %r are %sequal" % (s, "" if e else "not ")))
        for s in tab:
            n = tuple(-d for d in s)
            if any(s):
                keep(o, "order", Result("equal" if tab[s] != tab[n] else "differ",
                                        "places comparing as %r are ordered %s" % (s, "both ways" if tab[s] else "neither way")))
            else:
                keep(o, "order", Result("differ" if tab[s] else "equal", "a place precedes itself"))
        sg = lambda a, b: (b > a) - (b < a)                                            # noqa: E731
        pts = list(product((0, 1, 2), repeat=4))
        for a in pts:
            below = [b for b in pts if tab[tuple(map(sg, a, b))]]
            for b in below:
                for c in pts:
                    if tab[tuple(map(sg, b, c))] and not tab[tuple(map(sg, a, c))]:
                        keep(o, "order", Result("differ", "not transitive: %r < %r < %r" % (a, b, c)))
                        raise StopIteration
    except StopIteration:
        exact = True
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % str(e)[:200]
        return o
    if not exact:
        # the small domain does not represent all values: also try extreme ones
        import random
        rnd = random.Random(7)
        ext = {c: (RANGES[c][0], RANGES[c][0] + 1, -1 if RANGES[c][0] < 0 else 2 ** 31, 0, 1, RANGES[c][1] - 1, RANGES[c][1]) for c in COORDS}
        try:
            for _ in range(6000):
                x, y, z = (tuple(rnd.choice(ext[c]) if rnd.random() < .5 else 1 for c in COORDS) for _ in range(3))
                if ev(E, x, y) != (x == y):
                    keep(o, "equality", Result("differ", "%r and %r are %sequal" % (x, y, "" if x != y else "not ")))
                if (x == y and ev(L, x, y)) or (x != y and ev(L, x, y) == ev(L, y, x)):
                    keep(o, "order", Result("differ", "%r and %r are not ordered one way" % (x, y)))
                if ev(L, x, y) and ev(L, y, z) and not ev(L, x, z):
                    keep(o, "order", Result("differ", "not transitive: %r < %r < %r" % (x, y, z)))
        except Exception:
            pass
        for k, r in list(o.r.items()):
            if r.status == "equal":
                o.r[k] = Result("undecided", "the comparison does more than compare the coordinates")
    return o
