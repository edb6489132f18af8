E = "src/codec/edo9300_ocgcore_encode.cpp"
D = "src/codec/edo9300_ocgcore_decode.cpp"
FR = "include/ygopen/client/frame.hpp"
LI = "include/ygopen/client/frame_limbo.hpp"
TR = "include/ygopen/client/default_card_traits.hpp"
RO = "include/ygopen/server/room.hpp"
BI = "include/ygopen/bit.hpp"
LO = "include/ygopen/duel/constants/location.hpp"
CX = "include/ygopen/server/basic_encode_context.hpp"
DA = "include/ygopen/proto/duel/data.hpp"
DP = "include/ygopen/proto/duel_data.proto"
_ns = {}
exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__import__("sys").argv[1])), "codec.py")).read(), _ns)
PRE = _ns["PRE"]
_nb = {}
exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__import__("sys").argv[1])), "board.py")).read(), _nb)
BPRE = _nb["PRE"]
HEAD = """#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
"""
SEEDS = [
 ("c34-undo-cursor", "C34", [(LI, "\t\tassert(op_ > 0);\n\t\top_--;", "\t\tassert(op_-- > 0);")],
  "a build without debug assertions, and two operations undone", "the history cursor does not move, so the second undo takes the first's record",
  {"sh": HEAD + """
for d in "" -DNDEBUG; do
	clang++-18 -std=c++17 -O1 $d -include array -I"$PWD/include" -I"$PWD/_build/libygopen.a.p" \\
		"$here/demo.cpp" "$PWD/_build/libygopen.a" -lprotobuf-lite -lpthread -o "$out/demo" || exit 1
	"$out/demo" || exit 1
done
""", "cpp": BPRE + r'''
int main()
{
	Limbo f;
	f.card_add(P(0, LOCATION_HAND, 0)) = 10;
	f.card_add(P(0, LOCATION_HAND, 1)) = 11;
	f.card_add(P(0, LOCATION_HAND, 2)) = 12;
	f.card_remove(P(0, LOCATION_HAND, 0));
	f.card_remove(P(0, LOCATION_HAND, 0));
	f.undo_card_remove(P(0, LOCATION_HAND, 0));
	auto const& h = f.pile(CONTROLLER_0, LOCATION_HAND);
	CHECK(h.size() == 2 && *h[0] == 11 && *h[1] == 12);
	f.undo_card_remove(P(0, LOCATION_HAND, 0));
	CHECK(h.size() == 3 && *h[0] == 10 && *h[1] == 11 && *h[2] == 12);
}
'''}),
 ("c36-query-result", "C36", [(E, "EncodeOneQueryResult result{};", "EncodeOneQueryResult result;")],
  "a query without overlay materials encoded when the stack holds old values", "the number of overlay materials is whatever the stack held",
  {"sh": HEAD + """
cp src/codec/*.inl "$out/" 2>/dev/null
clang++-18 -std=c++17 -O0 -ftrivial-auto-var-init=pattern -include array -I"$PWD/include" -I"$PWD/_build/libygopen.a.p" \\
	"$here/demo.cpp" src/codec/edo9300_ocgcore_encode.cpp "$PWD/_build/libygopen.a" -lprotobuf-lite -lpthread -o "$out/demo" || exit 1
"$out/demo"
""", "cpp": PRE + r'''
int main()
{
	Buf b;
	b.u16(8).u32(1).u32(99).u16(4).u32(0x80000000);
	Proto::Duel::Msg::Query::Data q;
	auto r = OC::encode_one_query(b.data(), q);
	CHECK(r.overlays_count == 0U);
	CHECK(q.code().value() == 99U);
}
'''}),
 ("c37-overlay-wire", "C37", [(DP, "sint32 oseq = 4;", "int32 oseq = 4;")],
  "a place written by the schema as published, read after the change (or the other way round)", "stored replays and older peers read other overlay indexes",
  PRE + r'''
int main()
{
	uint8_t const stored[] = {0x08, 1, 0x10, 4, 0x18, 2, 0x20, 6}; // overlay index 3, zigzag
	Place p;
	CHECK(p.ParseFromArray(stored, sizeof stored));
	CHECK(p.con() == 1 && p.loc() == 4U && p.seq() == 2U);
	CHECK(p.oseq() == 3);
}
'''),
 ("c45-default-made", "C45", [(FR, "		return cards_.m.emplace_front(cards_.build());", """		auto& c = cards_.m.emplace_front();
		c = cards_.build();
		return c;""")],
  "a card that only its builder can make", "the frame cannot be used with it any more: it makes a card of its own before asking the builder",
  {"sh": HEAD + """
clang++-18 -std=c++17 -O1 -include array -I"$PWD/include" -I"$PWD/_build/libygopen.a.p" \\
	"$here/demo.cpp" "$PWD/_build/libygopen.a" -lprotobuf-lite -lpthread -o "$out/demo" || exit 1
"$out/demo"
""", "cpp": r"""
#include <cassert>
#include <ygopen/client/frame.hpp>

struct Card
{
	explicit Card(int made) : value(made) {}
	int value;
};

struct Builder
{
	int const* source;
	auto build() const noexcept -> Card { return Card{*source}; }
};

int main()
{
	int const made = 7;
	YGOpen::Client::BasicFrame<Card, Builder> frame{Builder{&made}};
	YGOpen::Proto::Duel::Place place;
	place.set_loc(YGOpen::Duel::LOCATION_HAND);
	return frame.card_add(place).value == 7 ? 0 : 1;
}
"""}),
 ("c45-narrow-dice", "C45", [(RO, "				return (rng_() % 6) + 1; // NOLINT: Six-sided die.", "				return uint32_t{(rng_() % 6) + 1}; // NOLINT: Six-sided die.")],
  "a generator whose numbers are wider than 32 bits, such as std::mt19937", "the room does not compile with it",
  {"sh": HEAD + """
clang++-18 -std=c++17 -fsyntax-only -include array -I"$PWD/include" -I"$PWD/_build/libygopen.a.p" "$here/demo.cpp"
""", "cpp": r"""
#include <cassert>
#include <random>
#include <string_view>
#include <ygopen/server/room.hpp>

struct Peer
{
	void send(YGOpen::Server::RoomEvent const&) noexcept;
	void fill_user(YGOpen::Proto::User&) const noexcept;
};

struct Validator
{
	bool check(std::string_view, YGOpen::Proto::Deck const&, YGOpen::Proto::DeckError&) const noexcept;
};

struct Cores
{
	int make_duel() const noexcept;
};

struct Traits
{
	using ClientType = Peer;
	using CoreDuelFactoryType = Cores;
	using DeckValidatorType = Validator;
	using RNGType = std::mt19937_64;
};

void use(YGOpen::Server::BasicRoom<Traits>& room, Peer& peer, YGOpen::Server::RoomSignal const& signal)
{
	room.visit(peer, signal);
}
"""}),
 ("c45-indexed-shuffle", "C45", [(FR, "			auto const& p = *previous++;", "			auto const& p = previous[i];")],
  "the places of a shuffle in a container whose iterators cannot jump, such as a list", "it does not compile any more",
  {"sh": HEAD + """
clang++-18 -std=c++17 -O1 -include array -I"$PWD/include" -I"$PWD/_build/libygopen.a.p" \\
	"$here/demo.cpp" "$PWD/_build/libygopen.a" -lprotobuf-lite -lpthread -o "$out/demo" || exit 1
"$out/demo"
""", "cpp": r"""
#include <cassert>
#include <list>
#include <ygopen/client/frame.hpp>

struct Card
{
	int value{};
};

int main()
{
	YGOpen::Client::BasicFrame<Card> frame;
	std::list<YGOpen::Proto::Duel::Place> before(2), after;
	for(auto& place : before)
		place.set_loc(YGOpen::Duel::LOCATION_MONSTER_ZONE);
	before.back().set_seq(1);
	for(auto const& place : before)
		frame.card_add(place).value = static_cast<int>(place.seq()) + 1;
	after.assign(before.rbegin(), before.rend());
	frame.card_shuffle(before.cbegin(), after.cbegin(), 2U);
	return frame.card(before.front()).value == 2 && frame.card(before.back()).value == 1 ? 0 : 1;
}
"""}),
 ("c38-location-alone", "C38", [(LO, "#include <cstdint>\n", "")],
  "a translation unit that includes only the location constants", "the header does not compile on its own",
  {"sh": HEAD + """
for h in include/ygopen/duel/constants/*.hpp include/ygopen/bit.hpp; do
	printf '#include <%s>\\n' "${h#include/}" > "$out/one.cpp"
	clang++-18 -std=c++17 -fsyntax-only -Iinclude "$out/one.cpp" || exit 1
done
"""}),

 ("c14-extra-zone", "C14", [(FR, "FIELD_ZONE_LIMIT_SPELL = 5U", "FIELD_ZONE_LIMIT_SPELL = 6U")],
  "the sixth spell zone of the core, which is the field zone", "a spell zone exists that the game does not define",
  BPRE + r"""
int main()
{
	CHECK(YC::zone_seq_lim(LOCATION_SPELL_ZONE) == 5U);
	CHECK(YC::zone_seq_lim(LOCATION_MONSTER_ZONE) == 7U);
}
"""),
 ("c24-wide-count", "C24", [(BI, "static_cast<unsigned>(std::popcount(x))", "static_cast<unsigned>(std::popcount(static_cast<unsigned>(x)))")],
  "C++20, and a 64-bit value with bits set above the 32nd", "those bits are not counted, so that too many are chosen",
  {"sh": HEAD + """
for s in c++17 c++20; do
	clang++-18 -std=$s -O1 -include array -I"$PWD/include" "$here/demo.cpp" -o "$out/demo" || exit 1
	"$out/demo" || exit 1
done
""", "cpp": r"""
#include <cstdint>
#include <cstdio>
#include <ygopen/bit.hpp>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
int main()
{
	CHECK(YGOpen::Bit::popcnt(uint64_t{0x300000001}) == 3U);
	CHECK(YGOpen::Bit::choosel(1U, uint64_t{0x300000001}) == uint64_t{0x200000000});
	CHECK(YGOpen::Bit::chooser(2U, uint64_t{0x300000001}) == uint64_t{0x100000001});
}
"""}),
 ("c40-first-zone", "C40", [(DA, "\treturn is_zone(get_loc(place));", "\treturn is_zone(get_loc(place)) && place.seq() < 7U;")],
  "a place in a zone whose sequence is out of range", "it is neither empty nor a pile nor a zone",
  BPRE + r"""
int main()
{
	using namespace YGOpen::Proto::Duel;
	CHECK(is_zone(P(0, LOCATION_MONSTER_ZONE, 6)));
	CHECK(is_zone(P(0, LOCATION_SPELL_ZONE, 7)));
}
"""),
 ("c22-right-scale", "C22", [(E, "\t\t\tq.mutable_pend_r_scale()->set_value(\n\t\t\t\tread<uint32_t>(data, \"pend_r_scale\"));", "\t\t\tauto const scale = read<uint32_t>(data, \"pend_r_scale\");\n\t\t\tif(q.has_pend_l_scale())\n\t\t\t\tq.mutable_pend_r_scale()->set_value(scale);\n\t\t\telse\n\t\t\t\tq.mutable_pend_l_scale()->set_value(scale);")],
  "a query asking for the right scale without the left one", "the right scale is stored as the left one",
  PRE + r"""
int main()
{
	Buf b;
	b.u16(8).u32(0x400000).u32(5).u16(4).u32(0x80000000);
	Proto::Duel::Msg::Query::Data q;
	OC::encode_one_query(b.data(), q);
	CHECK(q.has_pend_r_scale() && q.pend_r_scale().value() == 5U && !q.has_pend_l_scale());
}
"""),
 ("c02-no-target", "C02", [(E, "\t\t\tread_loc_info(data, *selection->add_selected_places());\n\t};", "\t\t\tread_loc_info(data, *selection->add_selected_places());\n\t\tif(count == 0U)\n\t\t\tset_state_swallowed();\n\t};")],
  "a selection message that names no card", "the outcome is swallowed although there is a structured message",
  PRE + r"""
int main()
{
	Buf b;
	b.u8(83).u32(0);
	b.insert(b.end(), 64, 0);
	google::protobuf::Arena a; Ctx c;
	auto r = OC::encode_one(a, c, b.data());
	CHECK((r.state == Codec::EncodeOneResult::State::OK) == (r.msg != nullptr));
	CHECK(r.bytes_read == 5U);
}
"""),
 ("c03-direct-attack", "C03", [(E, "\t\tif(attack_target->loc() == 0U)\n", "\t\tif(attack_target->con() == 0 && attack_target->seq() == 0U)\n")],
  "an attack on the first monster zone of the first player, or a direct attack stated for the second player", "the target of the attack is lost, or invented",
  PRE + r"""
int main()
{
	Buf b;
	b.u8(110).loc(1, 4, 3, 1).loc(0, 4, 0, 1);
	b.insert(b.end(), 64, 0);
	google::protobuf::Arena a; Ctx c;
	auto r = OC::encode_one(a, c, b.data());
	CHECK(r.msg != nullptr);
	CHECK(r.msg->event().meta().attack().has_attack_target());
	CHECK(r.msg->event().meta().attack().attack_target().loc() == 4U);
}
"""),
 ("c04-effect-index", "C04", [(E, "effect.set_index(ed & 0xFFFFFU);", "effect.set_index(ed & 0xFFFFU);")],
  "an effect description whose index is 0x10000 or larger", "another description is offered",
  PRE + r"""
int main()
{
	Buf b;
	b.u8(13).u8(1).u64((uint64_t{123456} << 20) | 0x12345);
	b.insert(b.end(), 64, 0);
	google::protobuf::Arena a; Ctx c;
	auto r = OC::encode_one(a, c, b.data());
	CHECK(r.msg != nullptr);
	auto const& y = r.msg->request().select_yes_no();
	CHECK(y.effect().code() == 123456U && y.effect().index() == 0x12345U);
}
"""),
 ("c35-last-holder", "C35", [(CX, "\t\treturn left_.find(left)->second;", "\t\tstatic thread_local std::pair<Place, Place> last;\n\t\tif(!(last.first == left))\n\t\t\tlast = *left_.find(left);\n\t\treturn last.second;")],
  "two duels encoded on one thread in which holders left from the same place", "the second duel is told where the first duel's holder went",
  PRE + r'''
#include <ygopen/server/basic_encode_context.hpp>
int main()
{
	Server::BasicEncodeContext a, b;
	Place at, x, y;
	at.set_loc(4U); at.set_seq(2U); at.set_oseq(-1);
	x.set_loc(0x10U); x.set_oseq(-1);
	y.set_con(1); y.set_loc(0x20U); y.set_oseq(-1);
	a.xyz_left(at, x);
	b.xyz_left(at, y);
	CHECK(a.get_xyz_left(at) == x);
	CHECK(b.get_xyz_left(at) == y);
}
'''),
 ("c10-stale-tail", "C10", [(D, "\t\tout.resize(sizeof(int32_t));\n", "\t\tif(out.size() < sizeof(int32_t))\n\t\t\tout.resize(sizeof(int32_t));\n")],
  "an output buffer that still holds a longer answer", "the short answer is followed by the old one's tail",
  PRE + r'''
int main()
{
	Proto::Duel::Msg::Request r;
	Proto::Duel::Answer a;
	a.set_select_yes_no(true);
	std::vector<uint8_t> out(11, 0xEE);
	OC::decode_one_answer(r, a, out);
	CHECK(out.size() == 4U && out[0] == 1U && out[3] == 0U);
}
'''),
 ("c06-second-pendulum", "C06", [(E, "\t\t\tloc = LOCATION_PENDULUM_ZONE;\n\t\t\tseq--;", "\t\t\tloc = LOCATION_PENDULUM_ZONE;\n\t\t\tif(seq > FIELD_ZONE_SEQUENCE + 1U)\n\t\t\t\tseq = FIELD_ZONE_SEQUENCE;\n\t\t\telse\n\t\t\t\tseq--;")],
  "a card in the second pendulum zone", "it is placed in the first",
  PRE + r'''
int main()
{
	Buf b;
	b.u8(83).u32(2).loc(0, 8, 6, 1).loc(0, 8, 7, 1);
	b.insert(b.end(), 64, 0);
	google::protobuf::Arena a; Ctx c;
	auto r = OC::encode_one(a, c, b.data());
	CHECK(r.msg != nullptr);
	auto const& s = r.msg->event().meta().selection();
	CHECK(s.selected_places(0).loc() == 0x200U && s.selected_places(0).seq() == 0U);
	CHECK(s.selected_places(1).loc() == 0x200U && s.selected_places(1).seq() == 1U);
}
'''),
]
