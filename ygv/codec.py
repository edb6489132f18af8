"""Summaries of the codec: one abstract interpretation of the encoder per core message
kind, of the decoder per request kind."""
from . import build, desc, models, terms as t
from .dsl import DATA, PKG, Cur, Domain, build as mk
from .interp import Interp, Prog, Unsupported
from .terms import T, C, ZERO, TRUE, FALSE
from .values import Loc, Ptr, Rec, Msg, Lst, GV, VOID, freeze

NS = "YGOpen::Codec::Edo9300::OCGCore::"
PLACE = "YGOpen::Proto::Duel::Place"
QDATA = "YGOpen::Proto::Duel::Msg_Query_Data"


def place_term(I, m):
    """Canonical term of a Place value."""
    d = I.p.cxx[PLACE]
    return t.mk("call", "place", tuple(I.pb_get(m, d.fields[k]) for k in ("con", "loc", "seq", "oseq")), ("rng", None, None))


class Codec:
    def __init__(self):
        self.enc = build.dump(build.REPO + "/src/codec/edo9300_ocgcore_encode.cpp")
        self.schema = desc.Schema(build.ensure_pb() + "/all.desc")
        self.P = Prog(self.enc, self.schema)
        self._dec = None

    @property
    def D(self):
        if self._dec is None:
            self._dec = Prog(build.dump(build.REPO + "/src/codec/edo9300_ocgcore_decode.cpp"), self.schema)
        return self._dec

    def entry(self, P, name):
        fs = [f for f in P.fns(NS + name) if f.get("body")]
        if len(fs) != 1:
            raise build.AnalysisBroken("entry point %s not found (%d candidates)" % (name, len(fs)))
        return fs[0]

    def state_values(self):
        e = [v for k, v in self.P.enums.items() if k.endswith("EncodeOneResult::State")]
        if not e:
            raise build.AnalysisBroken("EncodeOneResult::State not found")
        return e[0]

    def case_line(self, n):
        """Source position of the case label handling core message n."""
        f = self.entry(self.P, "encode_one")
        r = []

        def go(x):
            if isinstance(x, dict):
                if x.get("k") == "case" and const_of(x.get("e") or x.get("v")) == n:
                    r.append(x.get("l"))
                for y in x.values():
                    go(y)
            elif isinstance(x, list):
                for y in x:
                    go(y)
        go(f["body"])
        return "%s:%s" % (self.P.files[f["file"]] if isinstance(f["file"], int) else f["file"], r[0] if r else f["line"])

    def ext(self, I, n, f, this, args):
        nm = f["n"]
        vs = [freeze(models.val(I, a), I.st) for a in args]
        if nm in ("pile_size", "get_match_win_reason", "has_xyz_mat", "get_xyz_left"):
            fl = tuple(place_term(I, v) if isinstance(v, Msg) else v for v in vs)
            if any(isinstance(v, GV) for v in fl):
                raise Unsupported("gated place argument")
            if nm == "get_xyz_left":
                return Msg(PLACE, {}, t.mk("call", nm, fl, ("rng", None, None)))
            rt = I.ty(f["rt"])
            return t.mk("call", nm, fl, ("rng",) + t.wrange(rt["w"], rt["sg"]))
        I.emit(nm, *vs)
        if nm == "take_deferred_xyz_mat":
            a = t.atom("deferred", None, None)
            I.elem_kind[a] = ("msg", PLACE)
            return Lst([("sl", a, ZERO, t.mk("size", a))])
        return VOID

    def interp(self, P=None):
        I = Interp(P or self.P)
        I.external = lambda n, f, this, args: self.ext(I, n, f, this, args)
        return I

    def over_query(self, I, handler=None):
        def eq(I, n, f, this, args):
            d = models.val(I, args[0])
            if handler is not None:
                r = handler(I, d, args)
                if r is not None:
                    return r
            I.store(args[1], Msg(QDATA, {}, t.mk("call", "eq_data", (d,), ("rng", None, None))))
            return Rec("YGOpen::Codec::EncodeOneQueryResult", {
                "overlays_count": t.mk("call", "eq_n", (d,), ("rng", 0, 2 ** 32 - 1)),
                "overlays_ptr": t.mk("call", "eq_p", (d,), ("rng", None, None)),
                "bytes_read": t.mk("call", "eq_b", (d,), ("rng", 0, 2 ** 64 - 1))})
        I.over[NS + "encode_one_query"] = eq

    def encode(self, mid, pc=TRUE, query=None, prep=None):
        I = self.interp()
        f = self.entry(self.P, "encode_one")
        I.st.pc = t.and_(t.eq(t.mk("ld", DATA, 1, False), C(mid)), pc)
        I.st.m[("arena",)] = t.atom("arena")
        I.st.m[("ctx",)] = t.atom("ctx")
        I.st.m[("tr",)] = Lst()
        self.over_query(I, query)
        if prep:
            prep(I)
        pc0 = I.st.pc
        r = I.invoke(f, None, [Loc(("arena",)), Loc(("ctx",)), DATA])
        return Enc(I, r, pc0)


def const_of(x):
    while isinstance(x, dict):
        if x.get("k") == "const":
            return int(x.get("v"))
        x = x.get("e")
    return None


class Enc:
    def __init__(self, I, r, pc0):
        self.I = I
        self.pc0 = pc0
        self.pc = I.st.pc if I.st is not None else FALSE
        if I.st is None:
            return
        self.state = r.f["state"]
        self.bytes = r.f["bytes_read"]
        self.ptr = r.f["msg"]
        self.trace = I.st.m.get(("tr",), Lst())
        self.msg = freeze(I.vm(self.ptr, lambda p: p if isinstance(p, T) else I.load(I.deref(p))), I.st)
        self.nonnull = self.nn(self.ptr)

    def nn(self, p):
        if isinstance(p, GV):
            return t.or_(*[t.and_(g, self.nn(q)) for g, q in p.alts])
        return t.not_(t.eqz(p)) if isinstance(p, T) else TRUE
