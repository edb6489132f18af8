"""C33, C40: the encode context and the place helpers."""
from .. import miscspec as M, par
from ..registry import prop
from ..report import Obs
from .encoder import take

VG = "gated value-graph abstract interpretation (symbolic value numbering) of the typed AST"
TB = ["the trusted base is the extractor (clang AST), the library models of ygv/models.py and the specification ygv/miscspec.py"]


@prop("C33", "the context is driven through its interface: after each of several events that leave unknown contents on its board, every pile "
      "size and material query; recordings of unknown places followed by a lookup of any of them; deferrals and their taking; any message", VG,
      assumptions=TB + ["a departed holder is asked for only after it was recorded", "applying events and queries is decided by C17 and C21"])
def c33(deep):
    M.program("context.cpp")
    jobs = [(M.d_board, (2,)), (M.d_parse, ()), (M.d_deferred, ()), (M.d_independent, ())]
    jobs += [(M.d_left, (p,)) for n in range(1, 6 if deep else 4) for p in M.patterns(n)]
    return take(Obs(), par.run(jobs, 2), ("pile size", "has material", "applied", "left", "deferred", "reason"))


@prop("C40", "the classification helpers are summarised over a location whose 32 bits are independent unknowns and over every declared "
      "location, alone and inside an otherwise unknown place; zone limits and the list of controllers are evaluated", VG, assumptions=TB)
def c40(deep):
    return take(Obs(), [M.d_classify()], ("classified", "place", "limit", "controllers"))
