FR = "include/ygopen/client/frame.hpp"
LI = "include/ygopen/client/frame_limbo.hpp"
PE = "include/ygopen/client/parse_event.hpp"
UP = "include/ygopen/client/undo_parse_event.hpp"
UN = "include/ygopen/client/undoable.hpp"
PQ = "include/ygopen/client/parse_query.hpp"
CX = "include/ygopen/server/basic_encode_context.hpp"
DA = "include/ygopen/proto/duel/data.hpp"
BO = "include/ygopen/client/board.hpp"
PRE = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <ygopen/client/board.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/proto/duel/msg.hpp>
using namespace YGOpen::Duel;
using Place = YGOpen::Proto::Duel::Place;
using Chain = YGOpen::Proto::Duel::Chain;
using Event = YGOpen::Proto::Duel::Msg::Event;
namespace YC = YGOpen::Client;
using Frame = YC::BasicFrame<int>;
using Limbo = YC::LimboFrame<int>;
struct UndoTraits
{
	using BlockedZonesType = YC::BasicUndoable<std::vector<Place>>;
	using ChainStackType = YC::BasicUndoable<std::vector<Chain>>;
	using FrameType = Limbo;
	using LPType = YC::BasicUndoable<uint32_t>;
	using PhaseType = YC::BasicUndoable<Phase>;
	using TurnControllerType = YC::BasicUndoable<Controller>;
	using TurnType = YC::BasicUndoable<uint32_t>;
};
struct PlainTraits
{
	using BlockedZonesType = std::vector<Place>;
	using ChainStackType = std::vector<Chain>;
	using FrameType = Frame;
	using LPType = uint32_t;
	using PhaseType = Phase;
	using TurnControllerType = Controller;
	using TurnType = uint32_t;
};
using UndoBoard = YC::BasicBoard<UndoTraits>;
using PlainBoard = YC::BasicBoard<PlainTraits>;
inline Place P(int con, uint32_t loc, uint32_t seq, int oseq = -1)
{
	Place p;
	p.set_con(static_cast<decltype(p.con())>(con));
	p.set_loc(static_cast<decltype(p.loc())>(loc));
	p.set_seq(seq);
	p.set_oseq(oseq);
	return p;
}
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
'''
SEEDS = [
 ("c11-material-index", "C11", [(FR, """				c = take_at_(z1.materials, from.oseq());
				insert_at_(z2.materials, to.oseq(), c);""", """				auto index = to.oseq();
				if(&z1 == &z2 && from.oseq() < index)
					index--; // The gap left behind shifts what follows.
				c = take_at_(z1.materials, from.oseq());
				insert_at_(z2.materials, index, c);""")],
  "a material moved to a later position of the same zone's materials", "the material ends up one position before the one named",
  PRE + r'''
int main()
{
	Frame f;
	f.card_add(P(0, LOCATION_MONSTER_ZONE, 0)) = 9;
	for(int i = 0; i < 3; i++)
		f.card_add(P(0, LOCATION_MONSTER_ZONE, 0, i)) = i;
	f.card_move(P(0, LOCATION_MONSTER_ZONE, 0, 0), P(0, LOCATION_MONSTER_ZONE, 0, 2));
	CHECK(f.card(P(0, LOCATION_MONSTER_ZONE, 0, 0)) == 1);
	CHECK(f.card(P(0, LOCATION_MONSTER_ZONE, 0, 1)) == 2);
	CHECK(f.card(P(0, LOCATION_MONSTER_ZONE, 0, 2)) == 0);
}
'''),
 ("c12-orphan-materials", "C12", [(FR, """				if(zone.card != nullptr)
					destruct_card(*zone.card);
				zone.card = nullptr;
				destruct_pile(zone.materials);""", """				if(zone.card == nullptr)
					continue;
				destruct_card(*zone.card);
				zone.card = nullptr;
				destruct_pile(zone.materials);""")],
  "a zone whose card left while its materials stayed, then the field is cleared", "the orphaned materials survive the clearing",
  PRE + r'''
int main()
{
	Frame f;
	f.card_add(P(0, LOCATION_MONSTER_ZONE, 3));
	f.card_add(P(0, LOCATION_MONSTER_ZONE, 3, 0));
	f.card_move(P(0, LOCATION_MONSTER_ZONE, 3), P(0, LOCATION_GRAVEYARD, 0));
	f.clear();
	CHECK(!f.has_card(P(0, LOCATION_MONSTER_ZONE, 3, 0)));
}
'''),
 ("c16-hidden-place", "C16", [(FR, "			if(is_empty(p))\n				continue;\n", "			if(is_empty(p))\n				break;\n")],
  "set cards shuffled while one of their new places is not told and a later one is", "the cards after the untold one stay where they were",
  PRE + r'''
int main()
{
	Frame f;
	for(uint32_t i = 0; i < 3; i++)
		f.card_add(P(0, LOCATION_SPELL_ZONE, i)) = static_cast<int>(i);
	std::vector<Place> prev{P(0, LOCATION_SPELL_ZONE, 0), P(0, LOCATION_SPELL_ZONE, 1), P(0, LOCATION_SPELL_ZONE, 2)};
	std::vector<Place> curr{P(0, 0, 0), P(0, LOCATION_SPELL_ZONE, 2), P(0, LOCATION_SPELL_ZONE, 1)};
	f.card_shuffle(prev.cbegin(), curr.cbegin(), prev.size());
	CHECK(f.card(P(0, LOCATION_SPELL_ZONE, 2)) == 1);
	CHECK(f.card(P(0, LOCATION_SPELL_ZONE, 1)) == 2);
}
'''),
 ("c16-second-swap", "C16", [(FR, """				seqs[j] = seqs[i];
				break;""", """				seqs[j] = p.seq();
				break;""")],
  "three or more set cards shuffled in a cycle", "cards swapped away earlier are looked for where they no longer are",
  PRE + r'''
int main()
{
	Frame f;
	for(uint32_t i = 0; i < 3; i++)
		f.card_add(P(0, LOCATION_MONSTER_ZONE, i)) = static_cast<int>(i);
	std::vector<Place> prev{P(0, LOCATION_MONSTER_ZONE, 0), P(0, LOCATION_MONSTER_ZONE, 1), P(0, LOCATION_MONSTER_ZONE, 2)};
	std::vector<Place> curr{P(0, LOCATION_MONSTER_ZONE, 1), P(0, LOCATION_MONSTER_ZONE, 2), P(0, LOCATION_MONSTER_ZONE, 0)};
	f.card_shuffle(prev.cbegin(), curr.cbegin(), prev.size());
	CHECK(f.card(P(0, LOCATION_MONSTER_ZONE, 1)) == 0);
	CHECK(f.card(P(0, LOCATION_MONSTER_ZONE, 2)) == 1);
	CHECK(f.card(P(0, LOCATION_MONSTER_ZONE, 0)) == 2);
}
'''),
 ("c17-zero-lp", "C17", [(PE, """			for(auto con : {CONTROLLER_0, CONTROLLER_1})
				board.lp(con) = state.lps(static_cast<int>(con));""", """			for(auto con : {CONTROLLER_0, CONTROLLER_1})
				if(auto const lp = state.lps(static_cast<int>(con)); lp != 0U)
					board.lp(con) = lp;""")],
  "a board state in which a duelist has no life points, over a board where they had some", "the old life points stay",
  PRE + r'''
int main()
{
	PlainBoard b;
	b.lp(CONTROLLER_1) = 4000;
	Event e;
	auto* s = e.mutable_board()->mutable_state();
	s->set_turn_counter(-1);
	s->add_lps(100);
	s->add_lps(0);
	YC::parse_event(b, e);
	CHECK(b.lp(CONTROLLER_0) == 100);
	CHECK(b.lp(CONTROLLER_1) == 0);
}
'''),
 ("c18-replaced-card", "C18", [(UP, """			for(auto const& place : reverse(exchange.add().places()))
				frame.undo_card_add(place); // Conceptify
			for(auto const& place : reverse(exchange.remove().places()))
				frame.undo_card_remove(place);
			for(auto const& op : reverse(exchange.resize().ops()))
				frame.undo_pile_resize(op.place(), op.count());
			break;""", """			for(auto const& op : reverse(exchange.resize().ops()))
				frame.undo_pile_resize(op.place(), op.count());
			for(auto const& place : reverse(exchange.add().places()))
				frame.undo_card_add(place); // Conceptify
			for(auto const& place : reverse(exchange.remove().places()))
				frame.undo_card_remove(place);
			break;""")],
  "undoing an exchange that resizes piles and also adds or removes cards", "the history is walked in the wrong order",
  PRE + r'''
int main()
{
	UndoBoard b;
	Event e;
	auto* x = e.mutable_board()->mutable_exchange();
	auto* op = x->mutable_resize()->add_ops();
	*op->mutable_place() = P(0, LOCATION_HAND, 0);
	op->set_count(2);
	*x->mutable_add()->add_places() = P(0, LOCATION_HAND, 0);
	YC::parse_event(b, e);
	CHECK(b.frame().pile(CONTROLLER_0, LOCATION_HAND).size() == 3);
	YC::undo_parse_event(b, e);
	CHECK(b.frame().pile(CONTROLLER_0, LOCATION_HAND).empty());
}
'''),
 ("c18-move-order", "C18", [(UP, "for(auto const& op : reverse(card.move().ops()))", "for(auto const& op : card.move().ops())")],
  "undoing a move event with two operations where the second depends on the first", "cards return to the wrong places",
  PRE + r'''
int main()
{
	UndoBoard b;
	b.frame().card_add(P(0, LOCATION_HAND, 0)) = 1;
	b.frame().card_add(P(0, LOCATION_HAND, 1)) = 2;
	Event e;
	auto* m = e.mutable_card()->mutable_move();
	for(int i = 0; i < 2; i++)
	{
		auto* op = m->add_ops();
		*op->mutable_old_place() = P(0, LOCATION_HAND, 0);
		*op->mutable_new_place() = P(0, LOCATION_GRAVEYARD, i);
	}
	YC::parse_event(b, e);
	YC::undo_parse_event(b, e);
	CHECK(b.frame().card(P(0, LOCATION_HAND, 0)) == 1);
	CHECK(b.frame().card(P(0, LOCATION_HAND, 1)) == 2);
}
'''),
 ("c19-regrow", "C19", [(LI, """			std::copy(p.cbegin() + p.size() - diff, p.cend(),
			          rsz_op.slice.begin());""", """			std::copy(p.cbegin(), p.cbegin() + diff,
			          rsz_op.slice.begin());""")],
  "a pile that already had cards grows, the growth is undone and then redone", "the redone pile holds the old cards twice and not the new ones",
  PRE + r'''
int main()
{
	Limbo f;
	auto p = P(0, LOCATION_HAND, 0);
	f.pile_resize(p, 2);
	f.card(P(0, LOCATION_HAND, 0)) = 10;
	f.card(P(0, LOCATION_HAND, 1)) = 11;
	f.pile_resize(p, 3);
	f.card(P(0, LOCATION_HAND, 2)) = 12;
	f.undo_pile_resize(p, 3);
	f.pile_resize(p, 3);
	CHECK(f.card(P(0, LOCATION_HAND, 0)) == 10);
	CHECK(f.card(P(0, LOCATION_HAND, 2)) == 12);
}
'''),
 ("c20-same-value", "C20", [(UN, "		if(current_ == --values_.cend())\n			values_.emplace_back(std::forward<U>(v));", "		if(*current_ == v)\n			return *this; // Nothing to remember.\n		if(current_ == --values_.cend())\n			values_.emplace_back(std::forward<U>(v));")],
  "a value assigned what it already holds, then undone", "undoing goes back one assignment too many",
  PRE + r'''
int main()
{
	YC::BasicUndoable<uint32_t> v;
	v = 3U;
	v = 5U;
	v = 5U;
	v.undo();
	CHECK(static_cast<uint32_t const&>(v) == 5U);
	v.undo();
	CHECK(static_cast<uint32_t const&>(v) == 3U);
}
'''),
 ("c21-no-counters", "C21", [(PQ, "	if(data.has_counters())", "	if(data.counters().values_size() != 0)")],
  "a query that tells a card lost its last counter", "the card keeps its counters",
  r'''
#include <cstdio>
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/proto/duel/msg.hpp>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
using namespace YGOpen;
int main()
{
	Client::BasicFrame<Client::BasicCard<Client::DefaultCardTraits>> f;
	Proto::Duel::Msg::Query q;
	q.mutable_place()->set_loc(Duel::LOCATION_HAND);
	q.mutable_place()->set_oseq(-1);
	f.card_add(q.place());
	q.mutable_data()->mutable_counters()->add_values()->set_count(2);
	(void)Client::parse_query(f, q);
	CHECK(f.card(q.place()).counters().size() == 1);
	q.mutable_data()->mutable_counters()->clear_values();
	(void)Client::parse_query(f, q);
	CHECK(f.card(q.place()).counters().empty());
}
'''),
 ("c23-order", "C23", [(DA, """		if(lhs.seq() < rhs.seq())
			return true;
		if(rhs.seq() < lhs.seq())
			return false;

		if(lhs.oseq() < rhs.oseq())
			return true;
		return false;""", """		if(lhs.seq() < rhs.seq())
			return true;

		return lhs.oseq() < rhs.oseq();""")],
  "two materials of different zones whose positions are ordered the other way around than their zones", "each place is before the other",
  r'''
#include <cstdio>
#include <ygopen/proto/duel/data.hpp>
using YGOpen::Proto::Duel::Place;
int main()
{
	Place a, b;
	a.set_seq(1); a.set_oseq(2);
	b.set_seq(2); b.set_oseq(1);
	YGOpen::Proto::Duel::PlaceLess less;
	if(less(a, b) && less(b, a)) { std::puts("failed: ordered both ways"); return 1; }
	if(!less(a, b)) { std::puts("failed: order"); return 1; }
}
'''),
 ("c33-first-holder", "C33", [(CX, "left_[left] = from;", "left_.try_emplace(left, from);")],
  "two cards with materials that leave to the same place one after the other", "materials of the second are looked for under the first",
  r'''
#include <cstdio>
#include <ygopen/server/basic_encode_context.hpp>
#include <ygopen/proto/duel/msg.hpp>
using namespace YGOpen;
using Place = Proto::Duel::Place;
int main()
{
	Server::BasicEncodeContext ctx;
	Codec::IEncodeContext& c = ctx;
	Place gy, m0, m1;
	gy.set_loc(Duel::LOCATION_GRAVEYARD); gy.set_oseq(-1);
	m0.set_loc(Duel::LOCATION_MONSTER_ZONE); m0.set_seq(0); m0.set_oseq(-1);
	m1.set_loc(Duel::LOCATION_MONSTER_ZONE); m1.set_seq(1); m1.set_oseq(-1);
	c.xyz_left(gy, m0);
	c.xyz_left(gy, m1);
	if(c.get_xyz_left(gy).seq() != 1) { std::puts("failed: stale holder"); return 1; }
}
'''),
 ("c13-empty-swap", "C13", [(FR, "		std::swap(pile(a), pile(b));\n", "		if(pile(a).empty() || pile(b).empty())\n			return;\n		std::swap(pile(a), pile(b));\n")],
  "two piles exchanged while one of them is empty", "the piles are not exchanged",
  PRE + r'''
int main()
{
	Frame f;
	f.pile_resize(P(0, LOCATION_GRAVEYARD, 0), 2);
	f.pile_swap(P(0, LOCATION_MAIN_DECK, 0), P(0, LOCATION_GRAVEYARD, 0));
	CHECK(f.pile(CONTROLLER_0, LOCATION_MAIN_DECK).size() == 2);
	CHECK(f.pile(CONTROLLER_0, LOCATION_GRAVEYARD).empty());
}
'''),
 ("c19-forgotten-future", "C19", [(LI, "		operations_.resize(op_);\n", "")],
  "operations undone, then forgotten, then a new one performed and undone", "the new operation is undone with the record of a forgotten one",
  PRE + r'''
int main()
{
	Limbo f;
	auto p = P(0, LOCATION_HAND, 0);
	f.card_add(p) = 1;
	f.undo_card_add(p);
	f.erase_history();
	f.card_add(p) = 2;
	f.undo_card_add(p);
	auto& c = f.card_add(p);
	CHECK(c == 2);
}
'''),
 ("c18-no-change", "C18", [(PE, "		blp = lpv;", "		if(lp.t_case() != Msg::Event::LP::T_NOT_SET)\n			blp = lpv;")],
  "undoing a life point event that tells no change, after one that does", "the life points of the earlier event are undone instead",
  PRE + r'''
int main()
{
	UndoBoard b;
	b.lp(CONTROLLER_1) = 8000;
	Event d;
	d.mutable_lp()->set_controller(static_cast<decltype(d.lp().controller())>(1));
	d.mutable_lp()->set_damage(1000);
	YC::parse_event(b, d);
	Event e;
	e.mutable_lp()->set_controller(static_cast<decltype(d.lp().controller())>(1));
	YC::parse_event(b, e);
	CHECK(uint32_t(b.lp(CONTROLLER_1)) == 7000);
	YC::undo_parse_event(b, e);
	CHECK(uint32_t(b.lp(CONTROLLER_1)) == 7000);
	YC::undo_parse_event(b, d);
	CHECK(uint32_t(b.lp(CONTROLLER_1)) == 8000);
}
'''),
]
