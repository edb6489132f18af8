"""Histories of the history-keeping frame: every schedule of operations, undos and redos up to a length."""
from itertools import product
from . import terms as t
from .compare import Result
from .decspec import keep
from .frame import FrameEnv, card, el, lst, place
from .framespec import NEW0, Out, cmp, contents, dead, effects, have, nm, room_, run, slots, store_key
from .terms import C, ZERO

# the contents the histories start from (small: the operations' independence of sizes is C11-C13)
PILES = {(0, 2): 3, (1, 1): 2, (1, 0x10): 0}
ZONES = {(0, 4, 1): 2, (1, 8, 4): 0, (0, 4, 0): None, (1, 0x100, 0): None}

OPS = ("add pile", "add end", "add zone", "add material", "remove pile", "remove last", "remove zone", "remove material",
       "grow", "grow empty", "shrink", "empty", "same size", "clear", "move", "swap", "splice", "swap piles")


class Model:
    """Sizes of the storages the histories touch, to choose valid operands."""

    def __init__(self, p=None, z=None):
        self.p = dict(PILES if p is None else p)
        self.z = dict(ZONES if z is None else z)      # None: no card, no materials; n: card with n materials

    def copy(self):
        return Model(self.p, self.z)

    def apply(self, op):
        """(do(env), undo(env), live cards created, result?) or None when not applicable; updates the sizes."""
        P, Z = self.p, self.z
        a, b = (0, 2), (1, 1)

        def pile(k):
            n = P[k]
            pl = place(k[0], k[1], n)
            return pl
        if op == "add pile":
            pl = place(*a, 1 if P[a] else 0)
            P[a] += 1
            return ("card_add", [pl]), ("undo_card_add", [pl]), 1
        if op == "add end":
            pl = place(*b, P[b])
            P[b] += 1
            return ("card_add", [pl]), ("undo_card_add", [pl]), 1
        if op == "add zone":
            k = next((k for k in Z if Z[k] is None), None)
            if k is None:
                return None
            Z[k] = 0
            pl = place(*k)
            return ("card_add", [pl]), ("undo_card_add", [pl]), 1
        if op == "add material":
            k = next((k for k in Z if Z[k] is not None), None)
            if k is None:
                return None
            pl = place(*k, 1 if Z[k] else 0)
            Z[k] += 1
            return ("card_add", [pl]), ("undo_card_add", [pl]), 1
        if op in ("remove pile", "remove last"):
            k = a if op == "remove pile" else b
            if not P[k]:
                return None
            P[k] -= 1
            pl = place(*k, 0 if op == "remove pile" else P[k])
            return ("card_remove", [pl]), ("undo_card_remove", [pl]), 0
        if op == "remove zone":
            k = next((k for k in Z if Z[k] == 0), None)
            if k is None:
                return None
            Z[k] = None
            return ("card_remove", [place(*k)]), ("undo_card_remove", [place(*k)]), 0
        if op == "remove material":
            k = next((k for k in Z if Z[k]), None)
            if k is None:
                return None
            Z[k] -= 1
            pl = place(*k, 0)
            return ("card_remove", [pl]), ("undo_card_remove", [pl]), 0
        if op in ("grow", "shrink", "empty", "same size", "grow empty"):
            k = (1, 0x10) if op == "grow empty" else a
            old = P[k]
            n = {"grow": old + 2, "grow empty": old + 1, "shrink": max(old - 2, 0), "empty": 0, "same size": old}[op]
            if op in ("shrink", "empty") and not old:
                return None
            P[k] = n
            return ("pile_resize", [place(*k, 0), C(n)]), ("undo_pile_resize", [place(*k, 0), C(n)]), max(0, n - old)
        if op == "clear":
            for k in P:
                P[k] = 0
            for k in Z:
                Z[k] = None
            return ("clear", []), ("undo_clear", []), 0
        if op == "move":
            k = next((k for k in Z if Z[k] == 0), None)
            if k is None or not P[b]:
                k = next((k for k in Z if Z[k] is None), None)
                if k is None or not P[a]:
                    return None
                P[a] -= 1
                Z[k] = 0
                f, g = place(*a, 0), place(*k)
            else:
                Z[k] = None
                P[b] += 1
                f, g = place(*k), place(*b, 0)
            return ("card_move", [f, g]), ("card_move", [g, f]), 0
        if op == "swap":
            k = next((k for k in Z if Z[k] is not None), None)
            if k is None or not P[a]:
                return None
            args = [place(*a, P[a] - 1), place(*k, 0) if Z[k] else place(*k)]
            return ("card_swap", args), ("card_swap", args), 0
        if op == "splice":
            if P[a] < 2:
                return None
            P[a] -= 2
            f, g = place(*a, 0), place(*b, 0)
            P[b] += 2
            return ("pile_splice", [f, C(2), g, t.TRUE]), ("pile_splice", [g, C(2), f, t.TRUE]), 0
        if op == "swap piles":
            P[a], P[b] = P[b], P[a]
            args = [place(*a, 0), place(*b, 0)]
            return ("pile_swap", args), ("pile_swap", args), 0
        raise AssertionError(op)


LOGGED = {"card_add", "card_remove", "pile_resize", "clear"}


def histories(deep):
    for n in (1, 2, 3):
        ops = OPS if n < 3 or deep else ("add pile", "remove pile", "remove zone", "grow", "shrink", "clear", "move")
        for seq in product(ops, repeat=n):
            m = Model()
            if all(m.apply(op) is not None for op in seq):
                yield seq


def initial(env):
    sp = {}
    for k, n in PILES.items():
        sp[("pile",) + k] = lst(*[el(card("p%d%x.%d" % (k + (z,)))) for z in range(n)])
    for k, n in ZONES.items():
        sp[("zone",) + k] = (card("z%d%x%d" % k) if n is not None else ZERO,
                             lst(*[el(card("m%d%x%d.%d" % (k + (z,)))) for z in range(n or 0)]))
    env.fill(sp)


class Walk:
    def __init__(self, o, env):
        self.o, self.env = o, env
        self.snap = [env.initial()]
        self.results = {}
        self.m = [Model()]
        self.done = []           # applied operations

    def step(self, name, args, aspect, want=None, ret=None):
        r = self.env.call(name, args)
        if dead(self.o, self.env):
            return False
        if want is not None:
            contents(self.o, self.env, want, aspect)
        if ret is not None and name in ("card_add", "undo_card_add", "undo_card_remove"):
            keep(self.o, "result", cmp(self.env, self.env.I.addr(r), ret))
        return r

    def live(self, op):
        m = self.m[-1].copy()
        do, un, new = m.apply(op)
        r = self.step(*do, "live")
        if r is False:
            return False
        self.results[len(self.done)] = self.env.I.addr(r) if do[0] == "card_add" else None
        self.done.append((do, un))
        self.m.append(m)
        self.snap.append(self.env.observe())
        return True

    def undo(self, i):
        do, un = self.done[i]
        return self.step(*un, "undone", self.snap[i], self.results[i] if un[0] == "undo_card_add" else None) is not False

    def redo(self, i):
        do, un = self.done[i]
        return self.step(*do, "redone", self.snap[i + 1], self.results[i]) is not False


def d_history(seq, pat):
    """pat: '+' applies or redoes the next operation, '-' undoes the last (default: all applied, undone, redone, undone)."""
    o = Out("history[%s]%s" % ("; ".join(seq), "" if pat is None else " schedule %s" % pat))
    env = FrameEnv(limbo=True)
    o.where = env.where("undo_clear", 0)
    n = len(seq)

    def body():
        initial(env)
        w = Walk(o, env)
        for s in pat or "+" * n + "-" * n + "+" * n + "-" * n:
            at = getattr(w, "at", 0)
            if s == "+":
                ok = w.redo(at) if at < len(w.done) else w.live(seq[at])
                w.at = at + 1
            else:
                ok = w.undo(at - 1)
                w.at = at - 1
            if not ok:
                return
        tr = env.trace()
        bad = [p for p in tr.p if p[0] == "e" and p[2].q == "#eff:del"]
        keep(o, "cards", Result("differ", "a card that undoing can bring back is disposed of") if bad else Result("equal"))
    return run(o, env, body)


def schedules(seq):
    n = len(seq)
    yield None
    if n == 2:
        yield "+-++--"
        yield "+-++-+--"
        yield "++-+-+--++"
    if n == 3:
        yield "++--+++---+++"
        yield "++-++--+-++---"


def d_forget(first, second, third):
    """first, second applied; second undone and forgotten; third applied instead; all undone and redone."""
    o = Out("history[%s; %s forgotten; %s]" % (first, second, third))
    env = FrameEnv(limbo=True)
    o.where = env.where("erase_history", 0)

    def body():
        initial(env)
        w = Walk(o, env)
        if not (w.live(first) and w.live(second) and w.undo(1)):
            return
        env.call("erase_history", [])
        if dead(o, env):
            return
        w.done.pop()
        w.snap.pop()
        w.m.pop()
        w.results.pop(1, None)
        contents(o, env, w.snap[1], "undone")
        if not w.live(third):
            return
        for i in (1, 0):
            if not w.undo(i):
                return
        for i in (0, 1):
            if not w.redo(i):
                return
    return run(o, env, body)


def d_slot(s, kind):
    """One logged operation at slot s, over contents of unknown size: applied, undone, redone, undone."""
    o = Out("history[%s at %s]" % (kind, nm(s)))
    env = FrameEnv(limbo=True)
    o.where = env.where("undo_card_%s" % kind, 1)

    def body():
        if kind == "add":
            c, pl, w = room_(s)
        else:
            c, pl, x, w = have(s)
        env.fill({store_key(s): c})
        before = env.initial()
        after = dict(before)
        after[store_key(s)] = w(NEW0) if kind == "add" else w
        who = NEW0 if kind == "add" else x
        for name, want in (("card_" + kind, after), ("undo_card_" + kind, before)) * 3:
            r = env.call(name, [pl])
            if dead(o, env):
                return
            contents(o, env, want, "redone" if want is after else "undone")
            if name != "card_remove":
                keep(o, "result", cmp(env, env.I.addr(r), who))
        effects(o, env, [("new", NEW0)] if kind == "add" else [])
    return run(o, env, body)


def forgets(deep):
    ops = OPS if deep else ("add pile", "remove zone", "grow", "shrink", "clear", "splice")
    for f, s, th in product(ops, repeat=3):
        # forgetting only applies to logged operations; frame permutations are not logged
        m = Model()
        if m.apply(f) is None:
            continue
        m2 = m.copy()
        r = m2.apply(s)
        if r is None or r[0][0] not in LOGGED or m.copy().apply(th) is None:
            continue
        yield f, s, th
