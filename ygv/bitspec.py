"""Bit selection over values whose bits are independent unknowns."""
from . import build as ygbuild, terms as t
from .budget import limit
from .cardspec import at, entry
from .compare import Result, compare
from .decspec import keep
from .eventspec import Out
from .frame import program
from .interp import Interp
from .terms import C, ZERO

NS = "YGOpen::Bit::"


def required(kind, n, bs):
    """Value of the selection, by scanning from the chosen end."""
    W = len(bs)
    if kind == "popcnt":
        return t.add(*bs)
    order = list(range(W)) if kind == "chooser" else list(reversed(range(W)))
    states, chosen, count = [(ZERO, ZERO)], ZERO, ZERO
    for j in order:
        chosen, count = t.add(chosen, t.scale(bs[j], 1 << j)), t.add(count, bs[j])
        states.append((chosen, count))
    r = chosen
    for c, k in reversed(states[:-1]):
        r = t.ite(t.lt(k, n), r, c)
    return r


def d_bits(kind, W, std=None):
    """`std`: the language version, which selects the primitives the library builds on."""
    P = program("bits.cpp", std)
    f = entry(P, "ygv::%s%d" % (kind, W))
    fs = [g for g in P.fns(NS + kind) if g.get("body")]
    o = Out("%s.%d bits%s" % (kind, W, ", " + std if std else ""), at(P, fs[0] if fs else f))
    I = Interp(P)
    I.force_unroll = True
    I.UNROLL = 70

    def ext(n, g, this, args):
        raise Exception("external " + g["q"])
    I.external = ext
    bs = [t.batom("bit%d" % i) for i in range(W)]
    x = t.add(*[t.scale(b, 1 << i) for i, b in enumerate(bs)])
    n = t.atom("count", 0, 2 ** 32 - 1)
    try:
        with limit(60):
            r = I.invoke(f, None, [x] if kind == "popcnt" else [n, x])
            o.functions |= set(I.functions)
            if I.st is None:
                keep(o, "returns", Result("differ", "no path returns"))
                return o
            keep(o, "returns", Result("equal"))
            want = required(kind, n, bs)
            res = compare(I, r, want, I.st.pc, 30)
            if res.status == "undecided":
                for v in [0, 1, 2, 3, W // 2, W - 1, W, W + 1, 2 ** 32 - 1]:
                    r2 = compare(I, r, want, I.st.pc, 40, fixed={n: v})
                    if r2.status == "differ":
                        res = Result("differ", r2.detail, "choosing %d" % v)
                        break
            keep(o, "selected", res)
    except ygbuild.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % str(e)[:200]
    return o
