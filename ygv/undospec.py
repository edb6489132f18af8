"""Histories of undoable values: every sequence of assignments and undos up to a length."""
from itertools import product
from . import build as ygbuild, terms as t
from .budget import limit
from .compare import Result, compare
from .decspec import keep
from .eventspec import Out
from .frame import program
from .interp import Interp
from .terms import C, TRUE, ZERO
from .values import Loc, Lst, Rec

CLS = "YGOpen::Client::BasicUndoable"


def entry(P, name):
    f = P.fns("ygv::" + name)
    if len(f) != 1:
        raise ygbuild.AnalysisBroken("%s not found" % name)
    return f[0]


def value(k, lists):
    if not lists:
        return t.atom("v%d" % k, -2 ** 31, 2 ** 31 - 1)
    a = t.atom("list%d" % k, None, None)
    return Lst([("sl", a, ZERO, t.atom("n:%d" % k, 0, 1 << 20))])


def sequences(n):
    """Strings of 's' (assign) and 'u' (undo) that never undo the initial value."""
    for k in range(1, n + 1):
        for w in product("su", repeat=k):
            d = 0
            for c in w:
                d += 1 if c == "s" else -1
                if d < 0:
                    break
            else:
                if k == n or w[-1] == "u":
                    yield "".join(w)


def d_sequence(word, lists):
    P = program("client.cpp")
    I = Interp(P)
    f = entry(P, "list_assign" if lists else "undoable_assign")
    un, rd = entry(P, "list_undo" if lists else "undoable_undo"), entry(P, "list_read" if lists else "undoable_read")
    eq = None if lists else entry(P, "undoable_equals")
    rec = P.d["types"][P.nonref(f["params"][0]["t"])]["r"]
    ctor = [g for g in P.d["functions"] if g.get("rec") == rec and g.get("ctor") and g.get("body") and not g["params"]]
    u = [g for g in P.d["functions"] if g.get("rec") == rec and g["n"] == "undo" and g.get("body")]
    at = ctor[0] if ctor else f
    o = Out("undoable%s.%s" % (" list" if lists else "", word), "%s:%d" % (
        P.files[(u or [f])[0]["file"]] if isinstance((u or [f])[0]["file"], int) else (u or [f])[0]["file"], (u or [f])[0]["line"]))
    this = Loc(("undoable",))
    try:
        with limit(10):
            if not ctor:
                raise Exception("no default constructor body")
            I.st.m[this.root] = Rec(CLS, {})
            I.run_ctor(ctor[0], this, [], P.R[rec])
            hist, cur, k = [Lst() if lists else ZERO], 0, 0
            for c in " " + word:
                if c == "s":
                    v = value(k, lists)
                    k += 1
                    I.st.m[("arg", k)] = v
                    I.invoke(f, None, [this, Loc(("arg", k))])
                    if cur + 1 == len(hist):
                        hist.append(v)
                    cur += 1
                elif c == "u":
                    I.invoke(un, None, [this])
                    cur -= 1
                if I.st is None:
                    keep(o, "returns", Result("differ", "no path returns"))
                    return o
                got = I.invoke(rd, None, [this])
                keep(o, "reads", compare(I, got, hist[cur], I.st.pc, 40, small=set()))
                if eq is not None:
                    I.st.m[("x",)] = t.atom("x", -2 ** 31, 2 ** 31 - 1)
                    r = I.truth(I.invoke(eq, None, [this, Loc(("x",))]))
                    keep(o, "equality", compare(I, r, t.eq(hist[cur], t.atom("x", -2 ** 31, 2 ** 31 - 1)), I.st.pc, 40))
            keep(o, "returns", Result("equal"))
            if I.oob:
                keep(o, "reads", Result("differ", "a position outside of the history is read"))
            o.functions |= set(I.functions)
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % str(e)[:200]
    return o
