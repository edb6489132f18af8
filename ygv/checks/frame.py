"""C11-C14, C16: operations of the client frame."""
from .. import eventspec as E, framespec as F, limbospec as L, par, undospec as U
from ..registry import prop
from ..report import Obs
from .encoder import take

VG = "gated value-graph abstract interpretation (symbolic value numbering) of the typed AST over container segments of unknown length"
ASSUME = [
    "places handed to the frame denote existing cards or slots (what the debug assertions state)",
    "pile sizes stay below 2^20",
    "the instantiation with an opaque card type is representative: the frame never looks inside a card",
    "the trusted base is the extractor (clang AST), the library models of ygv/models.py and the specification ygv/framespec.py",
]
_cache = {}


def group(name, deep):
    if (name, deep) not in _cache:
        lim = (False, True)
        jobs = {
            "add": lambda: [(F.d_add, (s, l)) for s in F.slots(deep) for l in lim],
            "remove": lambda: [(F.d_remove, (s, l)) for s in F.slots(deep) for l in lim],
            "lookup": lambda: [(F.d_lookup, (s,)) for s in F.slots(deep)],
            "move": lambda: [(F.d_move, m) for m in F.moves(deep)],
            "swap": lambda: [(F.d_swap, m) for m in F.swaps(deep)],
            "pile_swap": lambda: [(F.d_pile_swap, (p, q)) for p in F.piles(deep) for q in F.piles(deep)],
            "splice": lambda: [(F.d_splice, a) for a in F.splices(deep)],
            "resize": lambda: [(F.d_resize, (p, n, m, l)) for l in lim for p in (F.piles(0) if deep else F.piles(0)[::3])
                               for n in range(7 if deep else 4) for m in range(8 if deep else 5)],
            "clear": lambda: [(F.d_clear, (a, b, h, l)) for a in range(4 if deep else 3) for b in ((0, 1, 2, 3) if deep else (0, 2))
                              for h in (0, 1) for l in (0, 1)],
            "storage": lambda: [(F.d_storage, (k, j)) for k in range(1, 6 if deep else 4) for j in list(range(k)) + [None]],
            "map": lambda: [(F.d_map, ())],
            "history": lambda: [(L.d_history, (s, p)) for s in L.histories(deep) for p in L.schedules(s)],
            "slot history": lambda: [(L.d_slot, (s, k)) for s in F.slots(deep) for k in ("add", "remove")],
            "inverse": lambda: [(F.d_inverse, m) for m in F.inverses(deep)],
            "events": lambda: [(E.d_event, (m,) + v) for m in ("plain", "applied", "undone") for v in E.variants(deep)],
            "undoable": lambda: [(U.d_sequence, (w, l)) for l in lim for w in U.sequences(10 if deep else 7)],
            "board": lambda: [(E.d_board, ())],
            "forget": lambda: [(L.d_forget, m) for m in L.forgets(deep)],
            "shuffle": lambda: [(F.d_shuffle, m) for m in F.shuffles(deep)],
        }[name]
        F.FrameEnv()                          # builds the programs once, before the workers are forked
        _cache[name, deep] = par.run(jobs())
    return _cache[name, deep]


def collect(deep, names, aspects):
    obs = Obs()
    for n in names:
        take(obs, group(n, deep), aspects)
    obs.info["operations"] = list(names)
    return obs


@prop("C11", "for every operation (add, remove, move, swap, lookup), every kind of place for each operand and storages holding "
      "segments of unknown length around the designated cards, the summary of all storages afterwards equals the required one", VG,
      assumptions=ASSUME)
def c11(deep):
    return collect(deep, ("add", "remove", "lookup", "move", "swap"), ("contents", "result", "returns"))


@prop("C12", "for every operation and every kind of place the summary of the cards created and disposed of equals the required "
      "sequence (or multiset, for clearing and resizing), and card storage holds exactly the live cards", VG, assumptions=ASSUME)
def c12(deep):
    obs = collect(deep, ("add", "remove", "move", "swap", "pile_swap", "splice", "resize", "clear", "storage", "shuffle"), ("cards",))
    for n in ("clear", "storage"):
        take(obs, group(n, deep), ("contents", "returns"))
    return obs


@prop("C13", "resize, splice and swap of piles: summaries of all storages over segments of unknown length (resize: per old and new "
      "size up to the bound) equal the required ones, for every pile or pair of piles", VG, assumptions=ASSUME)
def c13(deep):
    return collect(deep, ("pile_swap", "splice", "resize"), ("contents", "returns"))


@prop("C14", "every (controller, location, sequence) is resolved through each getter; the abstract locations must be pairwise "
      "distinct, stable across getters and hold what was stored there; zone counts are evaluated per location", VG, assumptions=ASSUME)
def c14(deep):
    return collect(deep, ("map",), ("distinct", "contents", "same storage through every getter", "zone counts",
                                    "fresh frame is empty", "returns"))


@prop("C16", "every permutation of up to 4 (thorough: 5) set cards, with every subset of unknown targets up to the bound, over zones "
      "with materials of unknown number: the summary of all storages is the told permutation", VG, assumptions=ASSUME)
def c16(deep):
    obs = collect(deep, ("shuffle",), ("contents", "cards", "returns"))
    return take(obs, group("events", deep), ("effects", "returns"), lambda o: ".card.shuffle" in o.key and not o.key.startswith("undone"))


EVENTS = ASSUME[:1] + [
    "the frame operations an event calls are decided by C11-C16, the undoable values by C20",
    "an event carries one life point total per controller, and as many current as previous places in a shuffle",
    "the trusted base is the extractor (clang AST), the library models of ygv/models.py and the specification ygv/eventspec.py",
]


@prop("C17", "for every event kind (lists of unknown length, and of fixed lengths) the summary of the board's values afterwards and the "
      "ordered effects on the frame and on every board part equal the required ones; parts not named by the event receive none", VG,
      assumptions=EVENTS)
def c17(deep):
    obs = take(Obs(), group("board", deep), ("getters", "fresh board", "returns"))
    return take(obs, group("events", deep), ("values", "effects", "returns"), lambda o: not o.key.startswith(("undone", "applied.lp.0", "applied.lp.1")))


@prop("C18", "for every event kind the ordered effects of undoing it equal, per part of the board, the reversed sequence of the "
      "inverses of its effects when applied; frame operations undone by calling themselves are decided to be their own inverse over "
      "storages of unknown size", VG, assumptions=EVENTS)
def c18(deep):
    obs = collect(deep, ("inverse",), ("contents", "cards", "returns"))
    return take(obs, group("events", deep), ("effects", "returns"), lambda o: o.key.startswith(("undone", "applied.lp.0", "applied.lp.1")))


@prop("C19", "every sequence of up to 3 operations over the alphabet of logged operations (add, remove, resize, clear on each kind of "
      "place) and frame permutations, under every schedule pattern of undos and redos: the summary of all storages after each undo or "
      "redo equals the one recorded at that point; each single add/remove is also decided at every slot over contents of unknown size",
      VG, assumptions=ASSUME + ["longer histories behave like their last three operations: the log is only accessed at its cursor"])
def c19(deep):
    return collect(deep, ("slot history", "history", "forget"), ("undone", "redone", "result", "returns", "cards"))


@prop("C20", "every sequence of up to 7 (thorough: 10) assignments and undos, on scalar and list values, with the assigned values left "
      "unknown: the value read and the result of comparing after each step equal those of the history model", VG,
      assumptions=["no undo beyond the initial value (asserted)", "operations declared as not yet implemented (assert(false)) are left out",
                   "the trusted base is the extractor (clang AST), the library models of ygv/models.py and ygv/undospec.py"])
def c20(deep):
    return collect(deep, ("undoable",), ("reads", "equality", "returns"))
