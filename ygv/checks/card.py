"""C21-C23: cards, queries, places."""
from .. import bitspec as B, cardspec as K, par
from ..registry import prop
from ..report import Obs
from .encoder import queries, take

VG = "gated value-graph abstract interpretation (symbolic value numbering) of the typed AST"
TB = ["the trusted base is the extractor (clang AST), the library models of ygv/models.py and the specification ygv/cardspec.py"]
_cache = {}


def applied(deep):
    if deep not in _cache:
        K.CardEnv()
        _cache[deep] = par.run([(K.d_apply, a) for a in K.applications(deep)])
    return _cache[deep]


@prop("C21", "for every attribute alone, for pairs and for all together, with and without caching, over unknown old and new values: the "
      "summary of every card attribute afterwards, of the card asked for, and of the reported set equals the required one", VG,
      assumptions=TB + ["equality of places is decided by C23"])
def c21(deep):
    return take(Obs(), applied(deep), ("stored", "others", "reported", "place", "returns"))


@prop("C22", "every attribute of the wire schema has card storage of its own reached alike for reading and writing, a query carrying "
      "only it changes that storage and no other, and the decoder of core queries fills exactly it for exactly one record kind", VG,
      assumptions=TB)
def c22(deep):
    obs = take(Obs(), [K.d_tables()], ("storage", "fresh card", "schema"))
    take(obs, applied(deep), ("stored", "others", "reported"), lambda o: "," not in o.key)
    return take(obs, queries(deep), ("data",), lambda o: True)


@prop("C24", "population count and both selections are summarised for each width over a value whose bits are independent unknowns and an "
      "unknown count (loops unrolled to the width, exits gated); the summary equals the scan from the chosen end", VG, assumptions=TB)
def c24(deep):
    for std in (None, "c++20"):
        B.program("bits.cpp", std)
    return take(Obs(), par.run([(B.d_bits, (k, w, std)) for std in (None, "c++20") for w in (64, 32, 16, 8) for k in ("choosel", "chooser", "popcnt")], 2),
                ("selected", "returns"))


@prop("C23", "the value graphs of the place comparison and equality depend on the coordinates only through their pairwise order "
      "(checked on the graph), so the 81 sign patterns decide irreflexivity, trichotomy, equality, and all triples over a 3-value domain "
      "decide transitivity, for all values", VG + " with a small-model argument", assumptions=TB)
def c23(deep):
    return take(Obs(), [K.d_order()], ("order", "equality"))
