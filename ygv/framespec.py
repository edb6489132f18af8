"""Required effect of every frame operation, per kind of place, on contents of any length."""
from . import build, terms as t
from .budget import OutOfTime, limit
from .compare import Result, compare
from .decspec import keep
from .frame import BIG, PILES, ZONES, FrameEnv, card, el, locs, lst, place, seg
from .interp import Unsupported
from .terms import C, T, ZERO
from .values import GV, Loc, Lst, Ptr, Rec, freeze

PL = list(PILES.values())


class Out:
    def __init__(self, key, where="?"):
        self.key, self.where, self.r, self.error, self.functions = key, where, {}, None, set()


def zone_seqs(deep):
    for loc, lim in ZONES.values():
        for s in (range(lim) if deep else sorted({0, lim - 1})):
            yield loc, s


def slots(deep, mats=True):
    """('pile', con, loc) | ('zone', con, loc, seq) | ('mat', con, loc, seq)"""
    for con in (0, 1):
        for l in PL:
            yield ("pile", con, l)
        for l, s in zone_seqs(deep):
            yield ("zone", con, l, s)
            if mats:
                yield ("mat", con, l, s)


def store_key(s):
    return ("pile",) + s[1:] if s[0] == "pile" else ("zone",) + s[1:]


def nm(s):
    return "%s%d.%#x" % (s[0], s[1], s[2]) + ("/%d" % s[3] if len(s) > 3 else "")


def run(o, env, body):
    """Runs body(); an Unsupported construct makes the outcome undecided."""
    try:
        with limit(10):
            body()
    except build.AnalysisBroken:
        raise
    except Exception as e:                      # a construct outside the modelled subset
        o.error = "not analysable: %s" % str(e)[:200]
    o.functions |= set(env.I.functions)
    return o


SMALL = {}


def cmp(env, a, b, n=60):
    I = env.I
    if (a is ZERO or b is ZERO) and a is not b and not isinstance(a if b is ZERO else b, (GV, T)):
        return Result("differ", "got %r, required %r" % (a, b))
    if isinstance(a, (Loc, Ptr, Rec)) or isinstance(b, (Loc, Ptr, Rec)):
        return Result("equal" if a == b else "undecided", "" if a == b else "got %r, required %r" % (a, b))
    sm = {x for v in (a, b) for x in lens(v)}
    return compare(I, a, b, I.st.pc, n, small=sm)


def lens(v):
    from .values import vwalk
    return [x for x in vwalk(v) if x.op == "a" and str(x.a[0]).startswith(("len:", "n:"))]


def contents(o, env, want, aspect="contents", n=60):
    got = env.observe()
    for k in got:
        w = want[k]
        if k[0] == "pile":
            r = cmp(env, got[k], w, n)
            where = "pile %d/%#x" % k[1:]
        else:
            r = cmp(env, got[k][0], w[0], n)
            where = "card of zone %d/%#x/%d" % k[1:]
            if r.status == "equal":
                r = cmp(env, got[k][1], w[1], n)
                where = "materials of zone %d/%#x/%d" % k[1:]
        if r.status != "equal":
            r = Result(r.status, r.detail, where + (" " + r.path if r.path else ""))
        keep(o, aspect, r)


def effects(o, env, want, aspect="cards"):
    """The created / disposed cards, in order."""
    w = Lst([el(Rec("#eff:" + k, {"0": v})) for k, v in want])
    tr = env.trace()
    if tr == w:
        keep(o, aspect, Result("equal"))
        return
    keep(o, aspect, compare(env.I, tr, w, env.I.st.pc, 60))


def multiset(o, env, new, dels, aspect="cards"):
    """Every listed card disposed of exactly once, in any order."""
    got = []
    for p in env.trace().p:
        if p[0] != "e" or p[1] is not t.TRUE:
            keep(o, aspect, Result("undecided", "creation/disposal trace has no closed form"))
            return
        got.append((p[2].q[5:], p[2].f["0"]))
    want = [("new", x) for x in new] + [("del", x) for x in dels]
    a = sorted((k, getattr(v, "id", 0)) for k, v in got)
    b = sorted((k, getattr(v, "id", 0)) for k, v in want)
    if a == b:
        keep(o, aspect, Result("equal"))
    elif any(not isinstance(v, T) or v.op not in ("a", "call") for k, v in got):
        keep(o, aspect, Result("undecided", "trace %r" % (got,)))
    else:
        miss = [w for w in want if w not in got]
        extra = [g for g in got if g not in want or got.count(g) > 1]
        keep(o, aspect, Result("differ", "not done: %r; done wrongly or twice: %r" % (miss[:4], extra[:4])))


def dead(o, env):
    if env.I.st is None:
        keep(o, "returns", Result("differ", "every path ends in a failed assertion or in unreachable code"))
        return True
    if env.I.oob:
        x = env.I.oob[0]
        keep(o, "contents", Result("differ", "%s outside of a sequence: position %s of %s" % x[:3]))
    keep(o, "returns", Result("equal"))
    return False


NEW0 = t.mk("call", "newcard", (ZERO,), ("rng", 1 << 12, 1 << 60))


def have(s, tag="a", mats=None):
    """Contents with a designated card at slot s: (store content, place, card, content without it)."""
    x = card("x" + tag)
    a, i = seg("A" + tag)
    b, j = seg("B" + tag)
    if s[0] == "pile":
        return lst(a, el(x), b), place(s[1], s[2], i), x, lst(a, b)
    if s[0] == "zone":
        m = lst(a) if mats is None else mats
        return (x, m), place(s[1], s[2], s[3]), x, (ZERO, m)
    y = card("y" + tag)
    return (y, lst(a, el(x), b)), place(s[1], s[2], s[3], i), x, (y, lst(a, b))


def room_(s, tag="b", mats=None):
    """Contents with a gap at slot s: (store content, place, fn card -> content with it there)."""
    a, i = seg("A" + tag)
    b, j = seg("B" + tag)
    if s[0] == "pile":
        return lst(a, b), place(s[1], s[2], i), lambda x: lst(a, el(x), b)
    if s[0] == "zone":
        m = lst(a) if mats is None else mats
        return (ZERO, m), place(s[1], s[2], s[3]), lambda x: (x, m)
    y = card("y" + tag)
    return (y, lst(a, b)), place(s[1], s[2], s[3], i), lambda x: (y, lst(a, el(x), b))


def d_add(s, limbo):
    o = Out("card_add.%s%s" % (nm(s), "[limbo]" if limbo else ""))
    env = FrameEnv(limbo=limbo)
    o.where = env.where("card_add", 1)

    def body():
        c, pl, w = room_(s)
        env.fill({store_key(s): c})
        r = env.call("card_add", [pl])
        if dead(o, env):
            return
        want = env.initial()
        want[store_key(s)] = w(NEW0)
        contents(o, env, want)
        effects(o, env, [("new", NEW0)])
        keep(o, "result", cmp(env, env.I.addr(r), NEW0))
    return run(o, env, body)


def d_remove(s, limbo):
    o = Out("card_remove.%s%s" % (nm(s), "[limbo]" if limbo else ""))
    env = FrameEnv(limbo=limbo)
    o.where = env.where("card_remove", 1)

    def body():
        c, pl, x, w = have(s)
        env.fill({store_key(s): c})
        env.call("card_remove", [pl])
        if dead(o, env):
            return
        want = env.initial()
        want[store_key(s)] = w
        contents(o, env, want)
        effects(o, env, [] if limbo else [("del", x)])
    return run(o, env, body)


def d_lookup(s):
    o = Out("lookup.%s" % nm(s))
    env = FrameEnv()
    o.where = env.where("card", 1)

    def body():
        c, pl, x, w = have(s)
        env.fill({store_key(s): c})
        for const in (True, False):
            r = env.call("card", [pl], const)
            if dead(o, env):
                return
            keep(o, "result", cmp(env, env.I.addr(r), x))
        keep(o, "result", cmp(env, env.I.truth(env.call("has_card", [pl])), t.TRUE))
        contents(o, env, env.initial())
        # places without a card
        if s[0] == "pile":
            n = env.I.lst_size(c)
            for d in (0, 1, 5):
                keep(o, "result", cmp(env, env.I.truth(env.call("has_card", [place(s[1], s[2], t.add(n, C(d)))])), t.FALSE))
        elif s[0] == "mat":
            n = env.I.lst_size(c[1])
            for d in (0, 1, 5):
                keep(o, "result", cmp(env, env.I.truth(env.call("has_card", [place(s[1], s[2], s[3], t.add(n, C(d)))])), t.FALSE))
        else:
            env.fill({store_key(s): (ZERO, c[1])})
            keep(o, "result", cmp(env, env.I.truth(env.call("has_card", [pl])), t.FALSE))
    return run(o, env, body)


def moves(deep):
    """(label, from place, to place, initial special contents, required contents, moved card)"""
    for s in slots(deep):
        for d in slots(deep):
            if store_key(s) != store_key(d):
                fm = s[0] == "zone" and d[0] == "zone"
                c, pf, x, w = have(s)
                c2, pt, w2 = room_(d, mats=lst() if fm else None)
                want = {store_key(s): w, store_key(d): w2(x)}
                if fm:
                    want = {store_key(s): (ZERO, lst()), store_key(d): (x, c[1])}
                yield "%s->%s" % (nm(s), nm(d)), pf, pt, {store_key(s): c, store_key(d): c2}, want, x
                continue
            k = store_key(s)
            x, y = card("x"), card("y")
            (a, i), (b, j), (e, m) = seg("A"), seg("B"), seg("E")
            if s[0] == d[0] and s[0] in ("pile", "mat"):
                wrap = (lambda l: l) if s[0] == "pile" else (lambda l: (y, l))
                pl = (lambda q: place(s[1], s[2], q)) if s[0] == "pile" else (lambda q: place(s[1], s[2], s[3], q))
                yield nm(s) + " to an earlier position", pl(t.add(i, j)), pl(i), {k: wrap(lst(a, b, el(x), e))}, \
                    {k: wrap(lst(a, el(x), b, e))}, x
                yield nm(s) + " to a later position", pl(i), pl(t.add(i, j)), {k: wrap(lst(a, el(x), b, e))}, \
                    {k: wrap(lst(a, b, el(x), e))}, x
            elif s[0] == "zone" and d[0] == "mat":
                yield nm(s) + " into its own materials", place(*s[1:]), place(*s[1:], i), {k: (x, lst(a, b))}, \
                    {k: (ZERO, lst(a, el(x), b))}, x
            elif s[0] == "mat" and d[0] == "zone":
                yield nm(s) + " onto its own zone", place(*s[1:], i), place(*s[1:]), {k: (ZERO, lst(a, el(x), b))}, \
                    {k: (x, lst(a, b))}, x


def d_move(label, pf, pt, init, want1, x):
    o = Out("card_move.%s" % label)
    env = FrameEnv()
    o.where = env.where("card_move", 2)

    def body():
        env.fill(init)
        r = env.call("card_move", [pf, pt])
        if dead(o, env):
            return
        want = env.initial()
        want.update(want1)
        contents(o, env, want)
        effects(o, env, [])
        keep(o, "result", cmp(env, env.I.addr(r), x))
    return run(o, env, body)


def swaps(deep):
    for s in slots(deep):
        for d in slots(deep):
            ks, kd = store_key(s), store_key(d)
            if ks != kd:
                nomat = {s[0], d[0]} == {"pile", "zone"}
                both = s[0] == d[0] == "zone"
                c1, p1, x1, _ = have(s, "1", lst() if nomat else None)
                c2, p2, x2, _ = have(d, "2", lst() if nomat else None)
                yield "%s<->%s" % (nm(s), nm(d)), p1, p2, {ks: c1, kd: c2}, \
                    {ks: c2, kd: c1} if both else {ks: put(c1, x1, x2), kd: put(c2, x2, x1)}
                continue
            x, y, z = card("x"), card("y"), card("z")
            (a, i), (b, j), (e, m) = seg("A"), seg("B"), seg("E")
            if s[0] == d[0] and s[0] in ("pile", "mat"):
                wrap = (lambda l: l) if s[0] == "pile" else (lambda l: (z, l))
                pl = (lambda q: place(s[1], s[2], q)) if s[0] == "pile" else (lambda q: place(s[1], s[2], s[3], q))
                q1, q2 = i, t.add(i, j, t.ONE)
                ini, w = {ks: wrap(lst(a, el(x), b, el(y), e))}, {ks: wrap(lst(a, el(y), b, el(x), e))}
                yield nm(s) + " forwards", pl(q1), pl(q2), ini, w
                yield nm(s) + " backwards", pl(q2), pl(q1), ini, w
                yield nm(s) + " with itself", pl(q1), pl(q1), ini, ini
            elif s[0] == "zone" and d[0] == "mat":
                yield nm(s) + " with its own material", place(*s[1:]), place(*s[1:], i), {ks: (x, lst(a, el(y), b))}, \
                    {ks: (y, lst(a, el(x), b))}
            elif s[0] == "mat" and d[0] == "zone":
                yield nm(s) + " with its own holder", place(*s[1:], i), place(*s[1:]), {ks: (x, lst(a, el(y), b))}, \
                    {ks: (y, lst(a, el(x), b))}
            elif s[0] == "zone":
                c = {ks: (x, lst(a))}
                yield nm(s) + " with itself", place(*s[1:]), place(*s[1:]), c, c


def put(c, old, new):
    if isinstance(c, Lst):
        return Lst([el(new) if p[0] == "e" and p[2] is old else p for p in c.p])
    if c[0] is old:
        return new, c[1]
    return c[0], put(c[1], old, new)


def d_swap(label, p1, p2, init, want1):
    o = Out("card_swap.%s" % label)
    env = FrameEnv()
    o.where = env.where("card_swap", 2)

    def body():
        env.fill(init)
        env.call("card_swap", [p1, p2])
        if dead(o, env):
            return
        want = env.initial()
        want.update(want1)
        contents(o, env, want)
        effects(o, env, [])
    return run(o, env, body)


# ------------------------------------------------------------------ piles


def d_inverse(kind, label, init, calls):
    """Performing the operations and then their inverses in reverse order leaves everything as it was."""
    o = Out("%s and back.%s" % (kind, label))
    env = FrameEnv()
    o.where = env.where(kind, 4 if kind == "pile_splice" else 2)

    def body():
        env.fill(init)
        back = []
        for c in calls:
            env.call(kind, list(c))
            if dead(o, env):
                return
            if kind == "card_move":
                back.append((c[1], c[0]))
            elif kind == "pile_splice":
                back.append((c[2], c[1], c[0], c[3]))
            else:
                back.append(c)
        for c in reversed(back):
            env.call(kind, list(c))
            if dead(o, env):
                return
        contents(o, env, env.initial())
        effects(o, env, [])
    return run(o, env, body)


def inverses(deep):
    for label, pf, pt, init, want1, x in moves(deep):
        yield "card_move", label, init, [(pf, pt)]
    for label, p1, p2, init, want1 in swaps(deep):
        yield "card_swap", label, init, [(p1, p2)]
    for label, init, calls, want1 in splices(deep):
        yield "pile_splice", label, init, [(f, c, to, t.TRUE if r else t.FALSE) for f, c, to, r in calls]
    for p in piles(deep):
        for q in piles(deep):
            yield "pile_swap", "%d.%#x<->%d.%#x" % (p + q), {}, [(place(*p, 0), place(*q, 0))]


def piles(deep):
    return [(c, l) for c in (0, 1) for l in PL]


def d_pile_swap(p, q):
    o = Out("pile_swap.%d.%#x<->%d.%#x" % (p + q))
    env = FrameEnv()
    o.where = env.where("pile_swap", 2)

    def body():
        env.fill()
        env.call("pile_swap", [place(*p, 0), place(*q, 0)])
        if dead(o, env):
            return
        want = env.initial()
        kp, kq = ("pile",) + p, ("pile",) + q
        want[kp], want[kq] = want[kq], want[kp]
        contents(o, env, want)
        effects(o, env, [])
    return run(o, env, body)


def rev(part, n):
    """The reversed run."""
    if isinstance(part, list):
        return list(reversed(part))
    return [("rev", Lst([part]))]


def splices(deep):
    """(label, env contents, calls [(from, count, to, reverse)], required)"""
    (a, i), (m, c), (b, j), (d, k), (e, l) = (seg(x) for x in "AMBDE")
    ps = piles(deep)
    for n, p in enumerate(ps):
        for q in (ps if deep else [ps[(n + 3) % 10], ps[(n + 5) % 10], p]):
            for r in (False, True):
                mm = rev(m, c) if r else [m]
                kp, kq = ("pile",) + p, ("pile",) + q
                lab = "%d.%#x->%d.%#x%s" % (p + q + (" reversed" if r else "",))
                if p != q:
                    yield lab, {kp: lst(a, m, b), kq: lst(d, e)}, [(place(*p, i), c, place(*q, k), r)], \
                        {kp: lst(a, b), kq: lst(d, *mm, e)}
                else:
                    yield lab + " to an earlier position", {kp: lst(a, d, m, b)}, \
                        [(place(*p, t.add(i, k)), c, place(*p, i), r)], {kp: lst(a, *mm, d, b)}
                    yield lab + " to a later position", {kp: lst(a, m, d, b)}, \
                        [(place(*p, i), c, place(*p, t.add(i, k)), r)], {kp: lst(a, d, *mm, b)}
    # a run of known length, and a second splice after a longer and after a shorter one
    p, q = ps[0], ps[7]
    kp, kq = ("pile",) + p, ("pile",) + q
    for n in range(0, 4):
        for n2 in range(0, 4):
            for r in (False, True):
                x1 = [el(card("x%d" % z)) for z in range(n)]
                x2 = [el(card("w%d" % z)) for z in range(n2)]
                w1, w2 = (x1[::-1], x2[::-1]) if r else (x1, x2)
                yield "%d then %d cards%s" % (n, n2, " reversed" if r else ""), {kp: lst(a, *x1, *x2, b), kq: lst(d, e)}, \
                    [(place(*p, i), C(n), place(*q, k), r), (place(*p, i), C(n2), place(*q, t.add(k, C(n))), r)], \
                    {kp: lst(a, b), kq: lst(d, *w1, *w2, e)}


def d_splice(label, init, calls, want1):
    o = Out("pile_splice.%s" % label)
    env = FrameEnv()
    o.where = env.where("pile_splice", 4)

    def body():
        env.fill(init)
        for f, c, to, r in calls:
            env.call("pile_splice", [f, c, to, t.TRUE if r else t.FALSE])
            if dead(o, env):
                return
        want = env.initial()
        want.update(want1)
        contents(o, env, want)
        effects(o, env, [])
    return run(o, env, body)


def newcard(k):
    return t.mk("call", "newcard", (C(k),), ("rng", 1 << 12, 1 << 60))


def d_resize(p, n, m, limbo=False):
    o = Out("pile_resize.%d.%#x from %d to %d%s" % (p + (n, m, "[limbo]" if limbo else "")))
    env = FrameEnv(limbo=limbo)
    o.where = env.where("pile_resize", 2)

    def body():
        k = ("pile",) + p
        xs = [card("x%d" % z) for z in range(n)]
        env.fill({k: lst(*[el(x) for x in xs])})
        env.call("pile_resize", [place(*p, 0), C(m)])
        if dead(o, env):
            return
        want = env.initial()
        new = [newcard(z) for z in range(m - n)]
        want[k] = lst(*[el(x) for x in xs[:m] + new])
        contents(o, env, want)
        multiset(o, env, new, [] if limbo else xs[m:])
    return run(o, env, body)


def d_clear(npile, nmat, holes, limbo=False):
    o = Out("clear[%d per pile, %d materials%s]%s" % (npile, nmat, ", some zones empty" if holes else "", "[limbo]" if limbo else ""))
    env = FrameEnv(limbo=limbo)
    o.where = env.where("clear", 0)

    def body():
        all_, sp, empty = [], {}, {}
        for n, k in enumerate(locs()):
            lab = ".".join(str(x) for x in k)
            if k[0] == "pile":
                xs = [card("%s.%d" % (lab, z)) for z in range((npile + n) % 3 if holes else npile)]
                sp[k], empty[k] = lst(*[el(x) for x in xs]), lst()
                all_ += xs
            else:
                xs = [card("%s.%d" % (lab, z)) for z in range((nmat + n) % 3 if holes else nmat)]
                y = ZERO if holes and n % 2 else card(lab)
                sp[k], empty[k] = (y, lst(*[el(x) for x in xs])), (ZERO, lst())
                all_ += xs + ([] if y is ZERO else [y])
        env.fill(sp)
        env.call("clear", [])
        if dead(o, env):
            return
        contents(o, env, empty)
        multiset(o, env, [], [] if limbo else all_)
    return run(o, env, body)


# ------------------------------------------------------------------ card storage


def find_lists(v, out):
    from .values import Obj
    if isinstance(v, Lst):
        if v.p and all(p[0] == "e" and isinstance(p[2], Obj) for p in v.p):
            out.append([p[2] for p in v.p])
    elif isinstance(v, Rec):
        for x in v.f.values():
            find_lists(x, out)
    return out


def d_storage(k, j):
    """k cards created, the j-th removed: storage holds exactly the others (j None: cleared)."""
    o = Out("storage[%d cards, %s]" % (k, "cleared" if j is None else "removed card %d" % j))
    env = FrameEnv(hooks=False)
    o.where = env.where("card_remove", 1)

    def body():
        env.bind()
        I = env.I
        cs = []
        for z in range(k):
            r = env.call("card_add", [place(0, 2, z)])
            if dead(o, env):
                return
            cs.append(r)
        ptrs = [I.addr(c) for c in cs]
        keep(o, "cards", Result("equal" if len({repr(p) for p in ptrs}) == k else "differ", "two additions yield one card"))
        want = {key: (Lst() if key[0] == "pile" else (ZERO, Lst())) for key in env.keys}
        if j is None:
            env.call("clear", [])
            rest = []
        else:
            env.call("card_remove", [place(0, 2, j)])
            rest = ptrs[:j] + ptrs[j + 1:]
        if dead(o, env):
            return
        want[("pile", 0, 2)] = lst(*[el(x) for x in rest])
        contents(o, env, want)
        live = [Loc(x.root) for l in find_lists(I.st.m[env.this.root], []) for x in l]
        lost = [p for p in rest if p.lv not in live]
        left = [x for x in live if Ptr(x) not in rest]
        keep(o, "cards", Result("differ", "%d live cards destroyed, %d removed cards kept" % (len(lost), len(left)))
             if lost or left else Result("equal"))
    return run(o, env, body)


# ------------------------------------------------------------------ storage map


def d_map():
    o = Out("storages")
    env = FrameEnv()
    o.where = env.where("pile", 2)

    def body():
        env.bind()
        contents(o, env, {k: (Lst() if k[0] == "pile" else (ZERO, Lst())) for k in env.keys}, "fresh frame is empty")
        env.fill()
        locs_ = [l for l, v in env.keys.values()]
        keep(o, "distinct", Result("equal" if len(set(locs_)) == len(locs_) else "differ",
                                   "%d places share %d storages" % (len(locs_), len(set(locs_)))))
        contents(o, env, env.initial(), "distinct")
        for k, (l, v) in env.keys.items():
            for const in (True, False):
                if k[0] == "pile":
                    other = [env.pile(*k[1:], const=const), env.call("pile", [place(*k[1:], 0)], const)]
                else:
                    other = [env.zone(*k[1:], const=const), env.call("zone", [place(*k[1:])], const)]
                if dead(o, env):
                    return
                for x in other:
                    keep(o, "same storage through every getter", Result("equal" if x == l else "differ", "%s %r" % (k[0], k[1:])))
        for f in env.P.fns("YGOpen::Client::zone_seq_lim"):
            for loc, lim in ZONES.values():
                r = env.I.invoke(f, None, [C(loc)])
                keep(o, "zone counts", cmp(env, r, C(lim)))
    return run(o, env, body)


# ------------------------------------------------------------------ shuffling set cards


def shuffles(deep):
    from itertools import permutations, product
    cases = []
    for con, loc, base in ((0, 4, (0, 1, 2, 3, 4)), (1, 8, (4, 2, 0, 1, 3))):
        for n in range(1, 6 if deep else 5):
            zs = base[:n]
            for perm in permutations(zs):
                for keepm in (product((1, 0), repeat=n) if n <= (4 if deep else 2) else [(1,) * n, (0,) + (1,) * (n - 1)]):
                    cases.append((con, loc, zs, perm, keepm))
    return cases


def d_shuffle(con, loc, zs, perm, known):
    o = Out("card_shuffle.%d.%#x %s" % (con, loc, ",".join(
        "%d->%s" % (a, b if k else "?") for a, b, k in zip(zs, perm, known)) or "empty"))
    env = FrameEnv()
    o.where = env.where("card_shuffle", 3)

    def body():
        env.fill()
        I = env.I
        I.st.m[("prev",)] = Lst([el(place(con, loc, s)) for s in zs])
        I.st.m[("cur",)] = Lst([el(place(con, loc, s) if k else place(con, 0, 0)) for s, k in zip(perm, known)])
        from .values import It
        env.call("card_shuffle", [It(Loc(("prev",)), ZERO), It(Loc(("cur",)), ZERO), C(len(zs))])
        if dead(o, env):
            return
        got, ini = env.observe(), env.initial()
        want = dict(ini)
        for s, d, k in zip(zs, perm, known):
            if k:
                want[("zone", con, loc, d)] = ini[("zone", con, loc, s)]
        # cards whose new place is not told stay among the remaining zones
        free = [d for d, k in zip(perm, known) if not k]
        src = [s for s, k in zip(zs, known) if not k]
        fk = [("zone", con, loc, d) for d in free]
        left = [ini[("zone", con, loc, s)] for s in src]
        for k in fk:
            m = [x for x in left if x == got[k]]
            if not m:
                keep(o, "contents", Result("differ", "zone %d/%#x/%d no longer holds one of the shuffled cards with its materials" % k[1:]))
                return
            left.remove(m[0])
            want[k] = got[k]
        contents(o, env, want)
        effects(o, env, [])
    return run(o, env, body)
