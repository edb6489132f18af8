"""Summaries of the client frame: storages hold segments of unknown length around designated cards."""
from . import build, desc, models, terms as t
from .interp import Interp, Prog, Unsupported
from .terms import C, ZERO, ONE, TRUE
from .values import Arr, Loc, Lst, Msg, Ptr, Rec, VOID, norm_parts

NS = "YGOpen::Client::BasicFrame::"
LNS = "YGOpen::Client::LimboFrame::"
PLACE = "YGOpen::Proto::Duel::Place"
PILES = {"MAIN_DECK": 1, "HAND": 2, "GRAVEYARD": 0x10, "BANISHED": 0x20, "EXTRA_DECK": 0x40}
ZONES = {"MONSTER_ZONE": (4, 7), "SPELL_ZONE": (8, 5), "FIELD_ZONE": (0x100, 1), "PENDULUM_ZONE": (0x200, 2),
         "SKILL_ZONE": (0x400, 1)}
BIG = 1 << 20
_prog = {}


def program(driver="client.cpp", std=None):
    if (driver, std) not in _prog:
        _prog[driver, std] = Prog(build.dump(build.VERIF + "/drivers/" + driver, build.cxx_flags(std) if std else None),
                                  desc.Schema(build.ensure_pb() + "/all.desc"))
    return _prog[driver, std]


def place(con, loc, seq, oseq=-1):
    c = lambda x: C(x) if isinstance(x, int) else x                                  # noqa: E731
    return Msg(PLACE, {"con": c(con), "loc": c(loc), "seq": c(seq), "oseq": c(oseq)})


def seg(name, n=None):
    """A run of `n` unknown cards."""
    a = t.atom("cards:" + name, None, None)
    n = t.atom("len:" + name, 0, BIG) if n is None else n
    return ("sl", a, ZERO, n), n


def card(name):
    return t.atom("card:" + name, 1 << 12, 1 << 60)


def el(x):
    return ("e", TRUE, x)


def lst(*parts):
    return Lst(norm_parts(parts))


def locs():
    for con in (0, 1):
        for nm, l in PILES.items():
            yield ("pile", con, l)
        for nm, (l, lim) in ZONES.items():
            for s in range(lim):
                yield ("zone", con, l, s)


class FrameEnv:
    """One abstract frame with its contents chosen by the caller."""

    def __init__(self, P=None, limbo=False, hooks=True):
        self.P = P or program()
        self.I = I = Interp(self.P)
        self.limbo = limbo
        I.external = self.ext
        I.st.m[("tr",)] = Lst()
        self.cls = "YGOpen::Client::LimboFrame" if limbo else "YGOpen::Client::BasicFrame"
        self.this = Loc(("frame",))
        self.hooked = hooks
        for nm, h in (("construct_card", self.h_new), ("destruct_card", self.h_del)):
            if not any(f.get("body") for f in self.P.fns(NS + nm)):
                self.hooked = False
        if self.hooked:
            I.over[NS + "construct_card"] = self.h_new
            I.over[NS + "destruct_card"] = self.h_del
        self.construct()

    def ext(self, n_, f, this, args):
        I = self.I
        if f["n"] == "build":
            k = I.count("build")
            rt = I.ty(f["rt"])
            return Rec(rt["q"], {x["n"]: t.mk("call", "built", (k,), ("rng", None, None)) for x in self.P.R[rt["r"]]["fields"]})
        raise Unsupported("external " + f["q"])

    def h_new(self, I, n, f, this, args):
        k = I.count("new")
        a = t.mk("call", "newcard", (k,), ("rng", 1 << 12, 1 << 60))
        I.emit("new", a)
        return Loc(("x", a))

    def h_del(self, I, n, f, this, args):
        I.emit("del", I.addr(args[0]))
        return VOID

    def construct(self):
        I = self.I
        ctor = [f for f in self.P.d["functions"] if f["q"] == self.cls + "::" + self.cls.rsplit("::", 1)[1]
                and f.get("body") and not f.get("copy") and len(f["params"]) == 1]
        if len(ctor) != 1:
            raise build.AnalysisBroken("constructor of %s not found" % self.cls)
        f = ctor[0]
        rec = [r for r in self.P.d["records"] if r["q"] == self.cls][0]
        I.st.m[self.this.root] = Rec(self.cls, {})
        b = I.temp(Rec("ygv::Builder", {"id": t.atom("builder", 0, BIG)}))
        I.run_ctor(f, self.this, [b], rec)
        I.st.m[("tr",)] = Lst()

    def fn(self, name, npar, const=None, pred=None):
        for ns in ((LNS, NS) if self.limbo else (NS,)):
            c = [f for f in self.P.fns(ns + name) if f.get("body") and len(f["params"]) == npar and
                 (const is None or bool(f.get("const")) == const) and (pred is None or pred(f))]
            if c:
                if len(c) > 1:
                    raise build.AnalysisBroken("%s%s is ambiguous" % (ns, name))
                return c[0]
        raise build.AnalysisBroken("%s::%s/%d not found" % (self.cls, name, npar))

    def call(self, name, args, const=None, npar=None):
        f = self.fn(name, npar or len(args), const)
        a = []
        for x, p in zip(args, f["params"]):
            k = self.I.ty(p["t"])["k"]
            a.append(self.I.temp(x) if k in ("ref", "rref") and not isinstance(x, Loc) else x)
        return self.I.invoke(f, self.this, a)

    def where(self, name, npar):
        for ns in ((LNS, NS) if self.limbo else (NS,)):
            for f in self.P.fns(ns + name):
                if f.get("body") and len(f["params"]) == npar:
                    return "%s:%d" % (self.P.files[f["file"]] if isinstance(f["file"], int) else f["file"], f["line"])
        raise build.AnalysisBroken("%s::%s/%d not found" % (self.cls, name, npar))

    # -------------------------------------------------------- contents through the public interface

    def pile(self, con, loc, const=False):
        return self.call("pile", [C(con), C(loc)], const)

    def zone(self, con, loc, seq, const=False):
        return self.call("zone", [C(con), C(loc), C(seq)], const)

    def fill(self, special=None):
        """Gives every storage distinct unknown contents, `special` (key -> Lst or (card, Lst)) excepted."""
        special = special or {}
        self.keys = {}
        for k in locs():
            nm = ".".join(str(x) for x in k)
            if k[0] == "pile":
                l = self.pile(*k[1:])
                v = special.get(k)
                v = lst(seg(nm)[0]) if v is None else v
                self.I.store(l, v)
            else:
                l = self.zone(*k[1:])
                v = special.get(k)
                if v is None:
                    v = (card(nm), lst(seg(nm)[0]))
                self.I.store(l.sub("card"), v[0])
                self.I.store(l.sub("materials"), v[1])
            self.keys[k] = (l, v)
        return self

    def bind(self):
        """Makes the storages observable without giving them contents."""
        self.keys = {k: ((self.pile if k[0] == "pile" else self.zone)(*k[1:]), None) for k in locs()}
        return self

    def observe(self):
        r = {}
        for k, (l, v) in self.keys.items():
            if k[0] == "pile":
                r[k] = self.I.load(l)
            else:
                r[k] = (self.I.load(l.sub("card")), self.I.load(l.sub("materials")))
        return r

    def initial(self):
        return {k: v for k, (l, v) in self.keys.items()}

    def trace(self):
        return self.I.st.m[("tr",)]
