"""Obligations of the encoder: summary of each message kind against its layout."""
from . import build, terms as t
from .codec import Codec, PLACE, QDATA, place_term
from .budget import OutOfTime, limit
from .compare import compare as compare_, Result
from .dsl import DATA, PKG, Cur, Domain, build as mk, parts
from .interp import Unsupported
from .report import HOLDS, VIOLATED, UNDECIDED
from .specs import core_messages as M
from .terms import C, T, ZERO, TRUE, FALSE
from .values import Msg, Lst, Rec, merge, vwalk


class Env:
    """What a specification may refer to."""
    base = t.add(DATA, C(1))

    def __init__(self, K, deep):
        self.K, self.deep = K, deep
        self.I = K.interp()

    def place(self, d):
        return mk(self.I, PKG + "Place", d)

    def elem(self, lst, k):
        self.I.elem_kind[lst] = ("msg", PLACE)
        return Msg(PLACE, {}, t.mk("at", lst, k, (None, None)))

    def get(self, m, f):
        return self.I.pb_get(m, self.I.p.cxx[PLACE].fields[f])

    def set(self, m, f, v):
        return m.set(f, v)

    def call_bool(self, name, p):
        return t.not_(t.eqz(t.mk("call", name, (place_term(self.I, self.place(p)),), ("rng", 0, 1))))

    def call_place(self, name, p):
        return Msg(PLACE, {}, t.mk("call", name, (place_term(self.I, self.place(p)),), ("rng", None, None)))


class Case:
    """One obligation source: a message kind (or one path class of it)."""

    def __init__(self, name, label, pc, spec, kind, facts=()):
        self.name, self.label, self.pc, self.spec, self.kind, self.facts = name, label, pc, spec, kind, facts
        self.key = name + ("[%s]" % label if label else "")


def cases(S, names=None):
    def sel(n):
        return names is None or n in names
    for n, fn in M.EVENT.items():
        if sel(n):
            yield Case(n, "", TRUE, lambda c, n=n, fn=fn: (fn(c, n), []), "event")
    for n, fn in M.REQUEST.items():
        if sel(n):
            def spec(c, n=n, fn=fn):
                rep = c.con()
                b = fn(c, n, rep) if n in ("SELECT_PLACE", "SELECT_DISFIELD") else fn(c, n)
                return {"request": dict(b, replier=rep)}, []
            yield Case(n, "", TRUE, spec, "request")
    for n, l in M.LENGTH.items():
        if sel(n):
            yield Case(n, "", TRUE, lambda c, l=l: (c.skip(l), (None, []))[1], "swallowed")
    for n, fn in M.SPECIAL.items():
        if sel(n):
            for label, pc, spec, *facts in fn(S):
                yield Case(n, label, pc, spec, "request" if n == "SELECT_CARD" else "special", facts[0] if facts else ())
    for n in M.UNSUPPORTED:
        if sel(n):
            yield Case(n, "", TRUE, None, "unknown")


def eff(I, S, tr):
    out = []
    for e in tr:
        g = TRUE
        if isinstance(e[0], T):
            g, e = e[0], e[1:]
        out.append(("e", g, Rec("#eff:" + e[0], {str(i): v for i, v in enumerate(e[1:])})))
    return Lst(tuple(out))


class Outcome:
    """Result of comparing one case, aspect by aspect."""

    def __init__(self, case, where):
        self.case, self.where = case, where
        self.r = {}
        self.error = None


def decide_id(K, S, name, mid, n=160):
    """A message kind the encoder does not know."""
    return decide(K, S, Case(name, "", TRUE, None, "unknown"), n, mid)


def judge(K, S, case, n, mid, facts, secs):
    """Compare the summary of one case with its specification."""
    out = Outcome(case, K.case_line(mid))
    sv = K.state_values()
    t.set_facts({x: C(v) for x, v in facts})
    fixm = [(x.a[0], x.a[1], v) for x, v in facts if x.op == "ld"] + [(DATA, 1, mid)]
    fixed = {x: v for x, v in facts if x.op != "ld"}

    def compare(I, a, b, pc, n, pre):
        return compare_(I, a, b, pc, n, fixed=fixed, pre=pre)
    try:
      with limit(secs):
        E = K.encode(mid, case.pc)
        I = S.I = E.I
        c = Cur()
        c.skip(1)
        if case.spec is None:
            dom = Domain([], fixm)
            if E.pc is FALSE:
                out.r["state"] = Result("differ", "does not return")
                return out
            out.r["state"] = compare(I, E.state, C(sv["UNKNOWN"]), E.pc, n, pre=dom)
            out.r["null"] = compare(I, E.nonnull, FALSE, E.pc, n, pre=dom)
            return out
        msg, tr = case.spec(c)
        dom = Domain(c.doms, fixm)
        out.r["returns"] = returns(I, E, dom, n)
        if E.pc is FALSE:
            return out
        out.r["bytes"] = compare(I, E.bytes, t.sub(c.p, DATA), E.pc, n, pre=dom)
        out.r["state"] = compare(I, E.state, C(sv["OK" if msg is not None else "SWALLOWED"]), E.pc, n, pre=dom)
        out.r["null"] = compare(I, E.nonnull, TRUE if msg is not None else FALSE, E.pc, n, pre=dom)
        out.r["context"] = compare(I, E.trace, eff(I, S, tr), E.pc, n, pre=dom)
        if msg is not None:
            m = mk(I, PKG + "Msg", msg)
            out.r["msg"] = compare(I, E.msg, m, E.pc, n, pre=dom)
        out.functions = I.functions
    except build.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        out.error = "not analysable: %s" % (str(e)[:200],)
    finally:
        t.set_facts({})
    return out


def decide(K, S, case, n=160, mid=None):
    """Compare the summary of one case with its specification. Aspects left undecided for lists of any length are
    looked at again for lists of a few fixed lengths, which can still show a difference."""
    mid = M.MSG[case.name] if mid is None else mid
    out = judge(K, S, case, n, mid, tuple(case.facts), 8)
    if case.spec is not None and (out.error or any(r.status not in ("equal", "differ") for r in out.r.values())):
        for k in (2, 3):
            facts = counted(case, k)
            if len(facts) == len(case.facts):
                break
            o2 = judge(K, S, case, 40, mid, facts, 4)
            for a, r in o2.r.items():
                if r.status == "differ" and (a not in out.r or out.r[a].status not in ("equal", "differ")):
                    out.r[a] = Result("differ", "%s (lists of %d)" % (r.detail, k), r.path)
            if any(r.status == "differ" for r in out.r.values()):
                out.error = None
                break
    return out


def counted(case, k):
    """The facts of the case, and that each list told or kept has k elements."""
    facts = dict(case.facts)
    facts[t.mk("size", t.atom("deferred", None, None))] = k
    try:
        for rnd in range(24):
            t.set_facts({x: C(v) for x, v in facts.items()})
            c = Cur()
            c.skip(1)
            case.spec(c)
            new = None
            t.set_facts({})
            for d in c.doms:
                if d[0] in ("count", "ncount") and not d[3]:
                    x = t.mk("ld", d[1], d[2], False)
                    if x not in facts:
                        new = x
                        break
            if new is None:
                break
            facts[new] = k
    except build.AnalysisBroken:
        raise
    except Exception:                           # noqa: BLE001
        return tuple(case.facts)
    finally:
        t.set_facts({})
    return tuple(facts.items())


def returns(I, E, dom, n):
    """Every well-formed buffer of this kind reaches the function's return."""
    if E.pc is E.pc0:
        return Result("equal")
    from .evalt import Val, Undef, TooBig
    und = 0
    for seed in range(n):
        v = Val(seed, None, set(), I)
        try:
            dom(v)
            if not v.ev(E.pc0):
                continue
            if not v.ev(E.pc):
                return Result("differ", "a well-formed buffer does not reach the return (failed assertion or abort)")
        except (Undef, TooBig) as e:
            und += 1
    return Result("equal")
