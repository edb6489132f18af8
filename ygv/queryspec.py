"""Obligations of the query decoder and of the messages that carry queries."""
from . import build, terms as t
from .codec import Codec, PLACE, QDATA, NS
from .budget import OutOfTime, limit
from .compare import compare, Result
from .dsl import DATA, PKG, Cur, Domain, Rep, When, build as mk, fix2
from .interp import Unsupported
from .specs import queries as Q
from .specs.core_messages import MSG, place
from .terms import C, T, TRUE, FALSE
from .values import Loc, Msg, Rec


class QOut:
    def __init__(self, key, where):
        self.key, self.where, self.r, self.error, self.functions = key, where, {}, None, set()


def fact_domain(facts):
    fix, doms = [], []
    for x, v in facts:
        if isinstance(v, T):
            doms.append(("term", x.a[0], x.a[1], (), v))
        else:
            fix.append((x.a[0], x.a[1], v))
    return fix, doms


def decide_query(K, seq, n=120):
    f = K.entry(K.P, "encode_one_query")
    out = QOut("query[%s]" % ",".join(x if isinstance(x, str) else "%#x" % x[0] for x in seq),
               "%s:%s" % (K.P.files[f["file"]] if isinstance(f["file"], int) else f["file"], f["line"]))
    s = Q.Qspec(seq)
    t.set_facts({x: v if isinstance(v, T) else C(v) for x, v in s.facts})
    try:
      with limit(6):
        # the first reading fixed the addresses; read again under the assumptions
        s2 = Q.Qspec(seq)
        I = K.interp()
        I.st.m[("qd",)] = Msg(QDATA, {})
        pc0 = I.st.pc
        t.set_layout([(x.a[0], x.a[1]) for x, v in s.facts], s2.end)
        try:
            r = I.invoke(f, None, [DATA, Loc(("qd",))])
        except t.Misread as e:
            out.r["reads"] = Result("differ", str(e))
            return out
        finally:
            t.set_layout()
        out.r["reads"] = Result("equal")
        fix, doms = fact_domain(s.facts)
        dom = Domain(s2.c.doms + doms, fix)
        if I.st is None or I.st.pc is not pc0:
            out.r["returns"] = Result("differ", "a well-formed query list is not decoded to its end")
            if I.st is None:
                return out
        got = I.load(Loc(("qd",)))
        out.r["bytes"] = compare(I, r.f["bytes_read"], t.sub(s2.end, DATA), pc0, n, pre=dom)
        out.r["overlays_count"] = compare(I, r.f["overlays_count"], s2.n, pc0, n, pre=dom)
        if s2.ptr is not None:
            p = r.f["overlays_ptr"]
            out.r["overlays_ptr"] = compare(I, t.sub(p, DATA), t.sub(s2.ptr, DATA), pc0, n, pre=dom)
        out.r["data"] = compare(I, got, mk(I, PKG + "Msg.Query.Data", s2.data), pc0, n, pre=dom)
        out.functions = I.functions
    except build.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        out.error = "not analysable: %s" % str(e)[:200]
    finally:
        t.set_facts({})
    return out


def eqx(name, d):
    rng = {"eq_n": ("rng", 0, 2 ** 32 - 1), "eq_p": ("rng", None, None), "eq_b": ("rng", 0, 2 ** 64 - 1),
           "eq_data": ("rng", None, None)}[name]
    return t.mk("call", name, (d,), rng)


def one(con, loc, seq, d):
    """Queries of one card whose records start at d."""
    q = [{"place": place(con, loc, seq), "data": Msg(QDATA, {}, eqx("eq_data", d))}]
    k = t.mk("k", 0)
    code = t.mk("ld", t.add(eqx("eq_p", d), t.mul(k, C(4))), 4, False)
    q.append(Rep(eqx("eq_n", d), k, [{"place": place(con, loc, seq, t.cast(32, True, k)),
                                      "data": {"code": {"value": code}}}]))
    return q


def qfix(d, i):
    """Finite stand-ins for the opaque query results in separating valuations."""
    return {eqx("eq_n", d): (2, 0, 1, 3)[i % 4], eqx("eq_p", d): 500000 + 1000 * i}


def decide_container(K, name, label, spec, facts, n=120):
    mid = MSG[name]
    out = QOut("%s[%s]" % (name, label), K.case_line(mid))
    t.set_facts({x: C(v) for x, v in facts})
    try:
      with limit(6):
        c = Cur()
        c.skip(1)
        qs, fixed = spec(c)
        t.set_layout([(x.a[0], x.a[1]) for x, v in facts if x.op == "ld"], c.p)
        try:
            E = K.encode(mid)
        except t.Misread as e:
            out.r["reads"] = Result("differ", str(e))
            return out
        finally:
            t.set_layout()
        out.r["reads"] = Result("equal")
        I = E.I
        fixed = {**{x: v for x, v in facts if x.op != "ld"}, **fixed}
        dom = Domain(c.doms, [(x.a[0], x.a[1], v) for x, v in facts if x.op == "ld"] + [(DATA, 1, mid)])

        def cmp(a, b):
            return compare(I, a, b, E.pc, n, fixed=fixed, pre=dom)
        if E.pc is FALSE:
            out.r["returns"] = Result("differ", "the message does not reach the return")
            return out
        out.r["bytes"] = cmp(E.bytes, t.sub(c.p, DATA))
        out.r["state"] = cmp(E.state, C(K.state_values()["OK"]))
        out.r["null"] = cmp(E.nonnull, TRUE)
        out.r["msg"] = cmp(E.msg, mk(I, PKG + "Msg", {"queries": qs}))
        out.functions = I.functions
    except build.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        out.error = "not analysable: %s" % str(e)[:200]
    finally:
        t.set_facts({})
    return out


def fixed_place(loc, i):
    if loc == 8 and i == 5:
        return 0x100, 0
    if loc == 8 and i > 5:
        return 0x200, i - 6
    return loc, i


def containers(deep):
    """(name, label, spec, facts) of every container path class."""
    base = t.add(DATA, C(1))
    # one card: zones whose index needs translation are enumerated
    for loc in (1, 2, 4, 8, 0x10, 0x20, 0x40):
        for seq in range({4: 7, 8: 8}.get(loc, 2)):
            facts = [(t.mk("ld", t.add(base, C(1)), 1, False), loc), (t.mk("ld", t.add(base, C(2)), 1, False), seq)]

            def spec(c, loc=loc, seq=seq):
                con = c.con()
                c.skip(2)
                d = c.p
                c.skip(eqx("eq_b", d))
                fl, fs = fixed_place(loc, seq)
                return one(con, fl, fs, d), qfix(d, 0)
            yield "UPDATE_CARD", "location=%d,sequence=%d" % (loc, seq), spec, facts
    # whole locations: occupancy patterns of the slots
    pats = [(4, p) for p in ("", "0", "1", "01", "10", "11", "0101011", "1000001")]
    pats += [(8, p) for p in ("11111111", "00000111", "10100101", "0000100")]
    pats += [(l, p) for l in (1, 2, 0x10, 0x20, 0x40) for p in ("", "1", "11", "011")]
    if deep:
        pats += [(4, format(m, "07b")) for m in range(128)] + [(8, format(m, "08b")) for m in range(256)]
        pats += [(2, "1" * k) for k in range(3, 12)]
    seen = set()
    for loc, pat in pats:
        if (loc, pat) in seen:
            continue
        seen.add((loc, pat))
        p = t.add(base, C(6))
        facts = [(t.mk("ld", t.add(base, C(1)), 1, False), loc)]
        total = 0
        for i, b in enumerate(pat):
            size = t.mk("ld", p, 2, False)
            if b == "0":
                facts.append((size, 0))
                total += 2
                p = t.add(p, C(2))
            else:
                facts.append((size, 8))
                nb = 14 + 8 * i
                facts.append((eqx("eq_b", p), nb))
                total += nb
                p = t.add(p, C(nb))
        facts.append((t.mk("ld", t.add(base, C(2)), 4, False), total))

        def spec(c, loc=loc, pat=pat):
            con = c.con()
            c.skip(5)
            qs, fixed = [], {}
            for i, b in enumerate(pat):
                if b == "0":
                    c.skip(2)
                    continue
                fl, fs = fixed_place(loc, i)
                qs += one(con, fl, fs, c.p)
                fixed.update(qfix(c.p, i))
                c.skip(14 + 8 * i)
            return qs, fixed
        yield "UPDATE_DATA", "location=%d,slots=%s" % (loc, pat or "-"), spec, facts
