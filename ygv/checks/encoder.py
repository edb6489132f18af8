"""C01-C04, C06-C08: obligations of the core-message encoder."""
from .. import decspec, queryspec
from ..codec import Codec
from ..encspec import Env, cases, decide, decide_id
from ..registry import prop
from ..report import Obs, VIOLATED, UNDECIDED, HOLDS
from ..specs import core_messages as M, queries as qs

VG = "gated value-graph abstract interpretation (symbolic value numbering) of the typed AST against a layout specification"
ASSUME = [
    "the buffer is one the core can produce: controllers are 0/1, booleans are 0/1, counts match the records that follow",
    "assertions compiled out in release builds are taken to hold (they state the same well-formedness)",
    "sums of unsigned sizes do not wrap",
    "the trusted base is the extractor (clang AST), the library models of ygv/models.py and the specification ygv/specs",
]
_cache = {}


def outcomes(deep, names=None):
    key = (deep, names)
    if key not in _cache:
        K = Codec()
        S = Env(K, deep)
        _cache[key] = [decide(K, S, c, 400 if deep else 160) for c in cases(S, names)]
    return _cache[key]


def collect(deep, want, aspects, names=None):
    obs = Obs()
    for o in outcomes(deep, names):
        asp = [a for a in aspects if want(o.case, a)]
        if not asp:
            continue
        if o.error:
            for a in asp:
                obs.add("%s.%s" % (o.case.key, a), o.where, UNDECIDED, o.error)
            continue
        for a in asp:
            if a in o.r:
                obs.result("%s.%s" % (o.case.key, a), o.where, o.r[a])
        obs.functions |= getattr(o, "functions", set())
    obs.info["messages"] = sorted({o.case.name for o in outcomes(deep, names)})
    return obs


def queries(deep):
    if ("q", deep) not in _cache:
        K = Codec()
        _cache["q", deep] = [queryspec.decide_query(K, s, 200 if deep else 80) for s in qs.sequences(deep)]
    return _cache["q", deep]


def containers(deep):
    if ("c", deep) not in _cache:
        K = Codec()
        _cache["c", deep] = [queryspec.decide_container(K, *c, n=200 if deep else 80) for c in queryspec.containers(deep)]
    return _cache["c", deep]


def answers(deep):
    if ("a", deep) not in _cache:
        K = Codec()
        _cache["a", deep] = [decspec.decide(K, *c, n=200 if deep else 60) for c in decspec.answers(deep)]
    return _cache["a", deep]


def take(obs, outs, aspects, want=lambda o: True):
    """Adds the named aspects of query, container and answer outcomes."""
    for o in outs:
        if not want(o):
            continue
        if o.error:
            obs.add(o.key, o.where, UNDECIDED, o.error)
            continue
        for a in aspects:
            if a in o.r:
                obs.result("%s.%s" % (o.key, a), o.where, o.r[a])
        obs.functions |= set(o.functions)
    return obs


@prop("C01", "for every core message kind (and path class) the summary of the encoder's consumed byte count equals, as a "
      "value-graph normal form over an arbitrary buffer, the end of the specified layout", VG, assumptions=ASSUME)
def c01(deep):
    obs = collect(deep, lambda c, a: c.spec is not None, ("bytes", "returns"))
    take(obs, queries(deep), ("bytes", "returns", "reads"))
    return take(obs, containers(deep), ("bytes", "returns", "reads"))


@prop("C02", "for each of the 256 possible message kinds the summary's state is the specified one and the message pointer is "
      "null exactly when the state is not OK", VG, assumptions=ASSUME)
def c02(deep):
    obs = collect(deep, lambda c, a: True, ("state", "null", "returns"))
    take(obs, containers(deep), ("state", "null"))
    K = Codec()
    S = Env(K, deep)
    ids = set(M.MSG.values())
    for i in range(256):
        if i in ids:
            continue
        o = decide_id(K, S, "message id %d" % i, i)
        if o.error:
            obs.add(o.case.key, o.where, UNDECIDED, o.error)
        for a, r in o.r.items():
            obs.result("%s.%s" % (o.case.key, a), o.where, r)
    return obs


@prop("C05", "the query decoder's summary equals the specified decoding for every record kind alone, in pairs and in full "
      "lists; containers of queries are decided per location, slot pattern and overlay count", VG, assumptions=ASSUME)
def c05(deep):
    obs = take(Obs(), queries(deep), ("data", "overlays_count", "overlays_ptr", "returns", "reads"))
    return take(obs, containers(deep), ("msg", "returns", "reads"))


@prop("C06", "for every zone (location and sequence, with and without the overlay bit) the place a record denotes, the zones a "
      "selection mask denotes, and the coordinates answered for a chosen place are compared with the zone table", VG,
      assumptions=ASSUME)
def c06(deep):
    obs = collect(deep, lambda c, a: True, ("msg",), ("MOVE",))
    o2 = collect(deep, lambda c, a: True, ("msg",), ("FIELD_DISABLED", "SELECT_PLACE", "SELECT_DISFIELD", "RELOAD_FIELD", "SET", "POS_CHANGE"))
    obs.l += o2.l
    obs.functions |= o2.functions
    take(obs, containers(deep), ("msg",))
    return take(obs, answers(deep), ("bytes",), lambda o: o.key.startswith("select_zone"))


@prop("C09", "for every answer kind (and per number of indexes or places) the summary of the written response equals, byte by "
      "byte, the encoding the core expects", VG, assumptions=ASSUME)
def c09(deep):
    return take(Obs(), answers(deep), ("bytes", "returns"))


@prop("C10", "for every answer kind, and whatever the output buffer held before, its final size equals the number of bytes "
      "the response consists of and no write falls outside it", VG, assumptions=ASSUME)
def c10(deep):
    return take(Obs(), answers(deep), ("size", "bounds"))


CONTEXT = {"DECK_TOP", "DRAW", "SWAP_GRAVE_DECK", "REVERSE_DECK", "WIN", "MATCH_KILL"}


@prop("C03", "for every event message kind the summary of the emitted structured message equals, field by field, the "
      "specified meaning of the buffer", VG, assumptions=ASSUME)
def c03(deep):
    return collect(deep, lambda c, a: c.kind == "event" or c.name in ("RELOAD_FIELD", "WIN"), ("msg",))


@prop("C04", "for every request message kind the summary of the emitted request (replier, variant and every field) equals "
      "the specified meaning of the buffer", VG, assumptions=ASSUME)
def c04(deep):
    return collect(deep, lambda c, a: c.kind == "request", ("msg",))


@prop("C07", "for each of the 441 path classes of a card move (limbo, every location, with and without the overlay bit, on "
      "both ends) the emitted operations and the calls on the encode context equal the required ones", VG, assumptions=ASSUME)
def c07(deep):
    return collect(deep, lambda c, a: c.name == "MOVE", ("msg", "context", "state", "null"), ("MOVE",))


@prop("C08", "summaries of the messages that depend on tracked context (pile sizes, match win reason) equal the required "
      "events; graveyard/deck swaps are decided per graveyard size and extra-deck bit pattern", VG, assumptions=ASSUME)
def c08(deep):
    return collect(deep, lambda c, a: True, ("msg", "context", "returns"), tuple(sorted(CONTEXT)))
