"""C25-C32: the server room."""
from .. import par, roomspec as R
from ..registry import prop
from ..report import Obs
from .encoder import take

VG = "gated value-graph abstract interpretation (symbolic value numbering) of the typed AST"
TB = ["the trusted base is the extractor (clang AST), the library models of ygv/models.py and the reference room of ygv/roomspec.py",
      "a client enters a room once, and a client's own callbacks do not call back into the room"]
LAYOUTS = ("rooms are driven through their interface into every layout of seats that arrivals can produce (no operation leaves a seat), "
           "with the verdict on each deck, each readiness and every random draw unknown; ")
_cache = {}


def enters(deep):
    if ("e", deep) not in _cache:
        R.program("room.cpp")
        _cache["e", deep] = par.run([(R.d_enter, a) for a in R.layouts(deep)], 8)
    return _cache["e", deep]


def ops(deep):
    if ("o", deep) not in _cache:
        R.program("room.cpp")
        _cache["o", deep] = [o for l in par.run([(R.d_ops, a + ((k,), not deep)) for a in R.some(deep) for k in R.OPS], 1) for o in l]
    return _cache["o", deep]


def decides(deep):
    if ("d", deep) not in _cache:
        R.program("room.cpp")
        _cache["d", deep] = [o for l in par.run([(R.d_decide, a + (f, not deep)) for a in R.some(deep) for f in R.METHODS], 1) for o in l]
    return _cache["d", deep]


def op(*names):
    return lambda o: getattr(o, "op", None) in names


@prop("C25", LAYOUTS + "for every client's every signal, the condition under which the room leaves configuration (seen in its announcements "
      "and in how it answers everything afterwards) equals the required one, and a start that is not accepted says nothing and changes "
      "no later answer", VG, assumptions=TB)
def c25(deep):
    obs = take(Obs(), ops(deep), ("left",))
    take(obs, ops(deep), ("anything", "silent", "no effect"), op("starts"))
    take(obs, enters(deep), ("left",))
    return take(obs, decides(deep), ("left",))


@prop("C26", LAYOUTS + "the decks put before the validator, the decks kept, the error replied, and the condition under which readiness "
      "changes - at once and when every seated client tries afterwards - equal the required ones", VG, assumptions=TB)
def c26(deep):
    obs = take(Obs(), ops(deep), ("validated", "deck", "toggled", "reply"))
    take(obs, enters(deep), ("validated", "deck", "toggled"))
    return take(obs, decides(deep), ("validated", "deck", "toggled", "reply"))


@prop("C27", LAYOUTS + "for one more client, the seat it is given, or that it spectates, equals the required one, and every client then "
      "readies from the seat it had", VG, assumptions=TB)
def c27(deep):
    obs = take(Obs(), enters(deep), ("seated", "spectates", "seat"))
    return take(obs, ops(deep), ("seated", "seat", "spectates"))


@prop("C28", "the room is created from options with unknown limits (none, one, two, three, or any number) and an unknown method; the "
      "options shown to the host equal the normalised ones", VG, assumptions=TB)
def c28(deep):
    R.program("room.cpp")
    return take(Obs(), R.d_options(), ("options",))


@prop("C29", LAYOUTS + "a signal for another state, or an empty one, says nothing, and everything any client does afterwards is answered as "
      "it would have been without it; the state numbers asserted on entry are the ones entered", VG, assumptions=TB)
def c29(deep):
    obs = take(Obs(), ops(deep), ("silent", "no effect"), op(*R.NONE))
    take(obs, decides(deep), ("silent", "no effect"), op(*[k + " while deciding" for k in R.OPS if k != "names a team"]))
    take(obs, ops(deep), ("assertions",))
    return take(obs, decides(deep), ("assertions",))


@prop("C30", LAYOUTS + "for every arrival, every client's every signal and the start of the decision, the sequence of kinds of messages told "
      "to each seated client, spectator (including any number of further ones) and outsider equals the required one", VG, assumptions=TB)
def c30(deep):
    return take(take(take(Obs(), enters(deep), ("audience",)), ops(deep), ("audience",)), decides(deep), ("audience",))


@prop("C31", LAYOUTS + "wherever the right kinds of messages are told, their contents equal those computed from the reference room", VG,
      assumptions=TB)
def c31(deep):
    return take(take(take(Obs(), enters(deep), ("content",)), ops(deep), ("content",)), decides(deep), ("content",))


@prop("C32", LAYOUTS + "the decision announced equals the one required for the method (or, for other random draws, agrees with itself and "
      "stays within the dice), who is prompted follows from it, and only the host's valid choice decides", VG, assumptions=TB)
def c32(deep):
    return take(take(Obs(), decides(deep), ("result", "prompt", "decided")), ops(deep), ("prompt", "decided", "result"))
