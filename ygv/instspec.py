"""C45: uses of the library's templates that have to type-check."""
import os, subprocess
from . import build

F = "void use(%s)\n{\n\t%s\n}\n"


def shapes():
    """(name, file, code)."""
    FR, LI, PA, UP, QU, UN, RO, BI = ("include/ygopen/client/" + x for x in (
        "frame.hpp", "frame_limbo.hpp", "parse_event.hpp", "undo_parse_event.hpp", "parse_query.hpp", "undoable.hpp", "../server/room.hpp",
        "../bit.hpp"))
    r = []
    cards = {"a default card": ("DefaultCard", ""), "a card of history-keeping values": ("KeptCard", ""),
             "a card that can only be moved": ("PlainCard", ""),
             "a card only its builder can make": ("ygv::Card, Builder", "{Builder{nullptr}}")}
    for nm, (c, init) in cards.items():
        r.append(("frame with " + nm, FR, F % ("Place const& p", "BasicFrame<%s> f%s; frame(f, p);" % (c, init))))
        r.append(("history-keeping frame with " + nm, LI, F % ("Place const& p", "LimboFrame<%s> f%s; limbo(f, p);" % (c, init))))
    r.append(("shuffling by the iterators of any container", FR, F % ("Place const* p", "BasicFrame<DefaultCard> f; shuffle(f, p, 3U);")))
    boards = {"plain values": ("BasicFrame<DefaultCard>", "Plain"), "plain values and history-keeping frame": ("LimboFrame<DefaultCard>", "Plain"),
              "history-keeping values": ("LimboFrame<KeptCard>", "Kept"), "history-keeping values and plain cards": ("LimboFrame<DefaultCard>", "Kept")}
    for nm, (f, v) in boards.items():
        b = "BasicBoard<BoardOf<%s, %s>> b; " % (f, v)
        r.append(("events on a board of " + nm, PA, F % ("Msg const& m", b + "parse_event(b, m.event());")))
        r.append(("queries on a board of " + nm, QU, F % ("Msg const& m", b + "queries(b, m);")))
        if v == "Kept":
            r.append(("undoing on a board of " + nm, UP, F % ("Msg const& m", b + "undo_parse_event(b, m.event());")))
    r.append(("history of text", UN, F % ("std::string const& t", 'BasicUndoable<std::string> s; s = t; s = "t"; s = std::string{t}; s.undo(); '
                                          'static_cast<void>(s == t); std::string const& v = s; static_cast<void>(v);')))
    r.append(("history of numbers", UN, F % ("uint16_t n", 'BasicUndoable<uint32_t> s; s = n; s = 3U; s = uint32_t{n}; s.undo(); static_cast<void>(s == 3U); '
                                             'uint64_t v = s; static_cast<void>(v);')))
    r.append(("history of lists", UN, F % ("std::list<Place> const& l, Place const* p", "BasicUndoable<std::vector<Place>> s; s.assign(l.begin(), l.end()); "
                                           "s.assign(p, p + 1); s.assign(3U, *p); s.undo(); BasicUndoable<std::list<Place>> t; t = l;")))
    for nm, g in (("std::mt19937", "std::mt19937"), ("std::mt19937_64", "std::mt19937_64"), ("std::minstd_rand", "std::minstd_rand"),
                  ("std::ranlux48", "std::ranlux48"), ("a generator of bytes that can only be moved", "Bytes")):
        r.append(("room drawing from " + nm, RO, "template void room(Validator const&, Cores const&, %s, Peer&, YGOpen::Server::RoomSignal const&);\n" % g))
    for w in ("unsigned char", "unsigned short", "unsigned", "unsigned long", "unsigned long long"):
        r.append(("bit helpers on %s at compile time" % w, BI, "using T = %s; constexpr auto n = YGOpen::Bit::popcnt(T{5}); constexpr T l = YGOpen::Bit::choosel(1U, T{5}); "
                  "constexpr T h = YGOpen::Bit::chooser(1U, T{5}); static_assert(noexcept(YGOpen::Bit::popcnt(T{5})));\n" % w))
    r.append(("places as keys", "include/ygopen/proto/duel/data.hpp", F % ("Place const& p", "std::set<Place, YGOpen::Proto::Duel::PlaceLess> s{p}; "
              "std::map<Place, int, YGOpen::Proto::Duel::PlaceLess> const m{{p, 1}}; static_cast<void>(m.find(p)); static_cast<void>(s.count(p)); "
              "static_cast<void>(p == p);")))
    return [(a, os.path.normpath(b), c) for a, b, c in r]


def check(name, code, std, debug, cxx="clang++-18"):
    inc = os.path.join(build.REPO, "include")
    text = '#include "%s/drivers/witness/inst.hpp"\nnamespace ygv\n{\n%s}\n' % (build.VERIF, code)
    r = subprocess.run([cxx, "-std=" + std, "-w", "-fsyntax-only", "-I" + inc, "-I" + build.ensure_pb(), "-x", "c++", "-"] +
                       ([] if debug else ["-DNDEBUG"]), input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    err = [l for l in r.stdout.splitlines() if "error: " in l]
    note = [l for l in r.stdout.splitlines() if "note: " in l and inc in l]
    return name, std, debug, cxx, r.returncode, (err[0] if err else r.stdout[:200]) + ("; " + note[0] if note and err and inc not in err[0] else "")
