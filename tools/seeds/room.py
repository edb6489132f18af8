RO = "include/ygopen/server/room.hpp"
PRE = r'''
#include <cstdio>
#include <functional>
#include <string_view>
#include <vector>
#include <ygopen/server/room.hpp>
using Ev = YGOpen::Server::RoomEvent;
using Sig = YGOpen::Server::RoomSignal;
namespace PR = YGOpen::Proto::Room;
struct Client
{
	std::vector<Ev> got;
	std::string name;
	explicit Client(char const* n) : name(n) {}
	auto send(Ev const& e) noexcept -> void { got.push_back(e); }
	auto fill_user(YGOpen::Proto::User& u) const noexcept -> void { u.set_name(name); }
};
struct Validator
{
	bool* ok;
	auto check(std::string_view, YGOpen::Proto::Deck const&, YGOpen::Proto::DeckError&) const noexcept -> bool { return *ok; }
};
struct Factory
{
	auto make_duel() const noexcept -> void {}
};
struct Rng
{
	using result_type = unsigned;
	std::vector<unsigned> v;
	size_t i = 0;
	static constexpr auto min() -> unsigned { return 0; }
	static constexpr auto max() -> unsigned { return ~0U; }
	auto operator()() -> unsigned { return v[i++ % v.size()]; }
};
struct Traits
{
	using ClientType = Client;
	using DeckValidatorType = Validator;
	using CoreDuelFactoryType = Factory;
	using RNGType = Rng;
};
using Room = YGOpen::Server::BasicRoom<Traits>;
inline bool deck_ok = true;
inline Validator const validator{&deck_ok};
inline Factory const factory{};
inline PR::Options options(unsigned a, unsigned b, PR::FirstTurnDecideMethod m = PR::FTDM_HOST_CHOOSES)
{
	PR::Options o;
	o.add_max_duelists(a);
	o.add_max_duelists(b);
	o.set_ftdm(m);
	return o;
}
inline void deck(Room& r, Client& c, bool ok)
{
	deck_ok = ok;
	Sig s;
	s.mutable_configuring()->mutable_update_deck();
	r.visit(c, s);
}
inline void ready(Room& r, Client& c, bool v)
{
	Sig s;
	s.mutable_configuring()->set_ready_status(v);
	r.visit(c, s);
}
inline void start(Room& r, Client& c)
{
	Sig s;
	s.mutable_configuring()->set_start_dueling(true);
	r.visit(c, s);
}
inline void team(Room& r, Client& c, unsigned t)
{
	Sig s;
	s.mutable_deciding_first_turn()->set_team_going_first(t);
	r.visit(c, s);
}
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
'''
SEEDS = [
 ("c25-late-deck", "C25", [(RO, "if(!s.deck_valid || !s.ready)", "if(!s.ready)")],
  "a duelist becomes ready with a valid deck, then hands in an invalid one, and the host starts", "the duel starts with an illegal deck",
  PRE + r'''
int main()
{
	Client a("a"), b("b");
	Room r(validator, factory, Rng{{0}}, a, options(1, 1));
	r.enter(b);
	deck(r, a, true); deck(r, b, true); ready(r, a, true); ready(r, b, true);
	deck(r, b, false);
	start(r, a);
	for(auto& e : b.got)
		CHECK(!e.has_deciding_first_turn());
}
'''),
 ("c25-one-team", "C25", [(RO, """				for(auto const& t : teams_)
				{
					bool has_atleast_one_duelist = false;
					for(auto& s : t)
					{
						if(s.client != nullptr)
						{
							has_atleast_one_duelist = true;
							if(!s.deck_valid || !s.ready)
								return false;
						}
					}
					if(!has_atleast_one_duelist)
						return false;
				}
				return true;""", """				bool has_atleast_one_duelist = false;
				for(auto const& t : teams_)
				{
					for(auto& s : t)
					{
						if(s.client == nullptr)
							continue;
						has_atleast_one_duelist = true;
						if(!s.deck_valid || !s.ready)
							return false;
					}
				}
				return has_atleast_one_duelist;""")],
  "the host is ready and alone", "the duel starts without an opponent",
  PRE + r'''
int main()
{
	Client a("a");
	Room r(validator, factory, Rng{{0}}, a, options(1, 1));
	deck(r, a, true); ready(r, a, true);
	start(r, a);
	for(auto& e : a.got)
		CHECK(!e.has_deciding_first_turn());
}
'''),
 ("c26-kept-approval", "C26", [(RO, """				search.slot->deck = {};
				search.slot->deck_valid = false;""", """				search.slot->deck_valid = !search.slot->ready && search.slot->deck_valid;
				search.slot->deck = {};""")],
  "a duelist hands in a valid deck and then an invalid one before becoming ready", "the duelist becomes ready without a valid deck",
  PRE + r'''
int main()
{
	Client a("a"), b("b");
	Room r(validator, factory, Rng{{0}}, a, options(1, 1));
	r.enter(b);
	deck(r, b, true); deck(r, b, false);
	ready(r, b, true);
	for(auto& e : a.got)
		CHECK(!(e.has_configuring() && e.configuring().has_update_duelist()));
}
'''),
 ("c27-uneven", "C27", [(RO, """						first_empty_pos[search.team] = search.pos;
					if(++search.pos == max_duelists[search.team])
						break;""", """						first_empty_pos[search.team] = search.pos;
					if(++search.pos == max_duelists[0])
						break;""")],
  "a room whose first team has more seats than its second", "the second team gets more duelists than it has seats",
  PRE + r'''
int main()
{
	Client a("a"), b("b"), c("c"), d("d");
	Room r(validator, factory, Rng{{0}}, a, options(2, 1));
	r.enter(b); r.enter(c); r.enter(d);
	auto& e = d.got.back();
	CHECK(e.t_case() == Ev::kSpectatorCount);
}
'''),
 ("c28-third-team", "C28", [(RO, "		max_duelists.Resize(teams_.size(), 1);\n", "		while(max_duelists.size() < static_cast<int>(teams_.size()))\n			max_duelists.Add(1);\n")],
  "options that give seat numbers for three teams", "the announced options name a third team",
  PRE + r'''
int main()
{
	Client a("a");
	auto o = options(1, 1);
	o.add_max_duelists(2);
	Room r(validator, factory, Rng{{0}}, a, o);
	CHECK(a.got[0].configuring().entering_state().options().max_duelists_size() == 2);
}
'''),
 ("c32-tied-dice", "C32", [(RO, "auto const winner = uint32_t{r.team0() < r.team1()};", "auto const& last = *d->results().rbegin();\n					auto const winner = uint32_t{last.team0() + d->results(0).team0() <\n					                             last.team1() + d->results(0).team1() + (d->results_size() > 2 ? 2U : 0U)};")],
  "two ties in a row and then the first team winning by one", "the announced winner rolled less",
  PRE + r'''
int main()
{
	Client a("a"), b("b");
	Room r(validator, factory, Rng{{2, 2, 3, 3, 4, 3}}, a, options(1, 1, PR::FTDM_DICE));
	r.enter(b);
	deck(r, a, true); deck(r, b, true); ready(r, a, true); ready(r, b, true);
	start(r, a);
	for(auto& e : a.got)
		if(e.has_deciding_first_turn() && e.deciding_first_turn().has_result())
		{
			auto& res = e.deciding_first_turn().result();
			auto& last = *res.dice().results().rbegin();
			CHECK(res.team_going_first() == (last.team0() < last.team1() ? 1U : 0U));
		}
}
'''),
 ("c32-third-team", "C32", [(RO, "if(chosen_team > 1)", "if(chosen_team > options_.max_duelists(0))")],
  "the host of a room with two or more seats in the first team chooses a team that does not exist", "the nonexistent team is announced to go first",
  PRE + r'''
int main()
{
	Client a("a"), b("b");
	Room r(validator, factory, Rng{{0}}, a, options(3, 1));
	r.enter(b);
	deck(r, a, true); deck(r, b, true); ready(r, a, true); ready(r, b, true);
	start(r, a);
	auto n = a.got.size();
	team(r, a, 2);
	CHECK(a.got.size() == n);
}
'''),
 ("c29-says-nothing", "C29", [(RO, """			auto const chosen_team = signal.team_going_first();
			if(chosen_team > 1)
				break;
			auto* e = event_();
			auto* r = e->mutable_deciding_first_turn()->mutable_result();
			r->set_team_going_first(chosen_team);
			send_all_(*e);
			// TODO: Save who is going first to the dueling state.
			// TODO: enter_state_(RoomState::STATE_DUELING);
			break;
		}
		case SignalCases::T_NOT_SET:
			break;
		}""", """			[[fallthrough]];
		}
		case SignalCases::T_NOT_SET:
		{
			if(&peer != host_)
				break;
			auto const chosen_team = signal.team_going_first();
			if(chosen_team > 1)
				break;
			auto* e = event_();
			auto* r = e->mutable_deciding_first_turn()->mutable_result();
			r->set_team_going_first(chosen_team);
			send_all_(*e);
			// TODO: Save who is going first to the dueling state.
			// TODO: enter_state_(RoomState::STATE_DUELING);
			break;
		}
		}""")],
  "the host sends a signal that carries no choice while the first turn is being decided", "the first team is announced to go first",
  PRE + r'''
int main()
{
	Client a("a"), b("b");
	Room r(validator, factory, Rng{{0}}, a, options(1, 1));
	r.enter(b);
	deck(r, a, true); deck(r, b, true); ready(r, a, true); ready(r, b, true);
	start(r, a);
	auto n = a.got.size();
	Sig s;
	s.mutable_deciding_first_turn();
	r.visit(a, s);
	CHECK(a.got.size() == n);
}
'''),
 ("c30-told-the-team", "C30", [(RO, """				search.slot->deck_valid = false;
			}
			peer.send(*e);""", """				search.slot->deck_valid = false;
				send_team_(search.team, *e);
				break;
			}
			peer.send(*e);""")],
  "a duelist with a partner in the team hands in an invalid deck", "the partner is told what is wrong with the deck",
  PRE + r'''
int main()
{
	Client a("a"), b("b"), c("c");
	Room r(validator, factory, Rng{{0}}, a, options(2, 2));
	r.enter(b); r.enter(c); // a and c form the first team.
	auto n = a.got.size();
	deck(r, c, false);
	CHECK(c.got.back().configuring().has_deck_status());
	CHECK(a.got.size() == n);
}
'''),
 ("c31-second-team", "C31", [(RO, """			msg->set_team(search.team);
			msg->set_pos(search.pos);
			peer.fill_user(*msg->mutable_user());
			msg->set_is_host(host_ == &peer);
			msg->set_is_ready(new_status);""", """			msg->set_team(search.team);
			msg->set_pos(search.pos % max_duelists[0]);
			peer.fill_user(*msg->mutable_user());
			msg->set_is_host(host_ == &peer);
			msg->set_is_ready(new_status);""")],
  "a duelist of a second team that is larger than the first becomes ready", "the announced position is another duelist's",
  PRE + r'''
int main()
{
	Client a("a"), b("b"), c("c");
	Room r(validator, factory, Rng{{0}}, a, options(1, 3));
	r.enter(b); r.enter(c);
	deck(r, c, true);
	ready(r, c, true);
	auto& m = a.got.back().configuring().update_duelist();
	CHECK(m.team() == 1 && m.pos() == 1);
}
'''),
 ("c31-shown-unready", "C31", [(RO, "duelist.set_is_ready(s.ready);", "duelist.set_is_ready(s.ready && s.deck_valid);")],
  "a ready duelist hands in an invalid deck, and somebody enters afterwards", "the newcomer is shown a duelist as not ready that everybody else sees as ready",
  PRE + r'''
int main()
{
	Client a("a"), b("b"), c("c");
	Room r(validator, factory, Rng{{0}}, a, options(1, 2));
	r.enter(b);
	deck(r, b, true);
	ready(r, b, true);
	CHECK(a.got.back().configuring().update_duelist().is_ready());
	auto n = a.got.size();
	deck(r, b, false);
	CHECK(a.got.size() == n); // Nobody was told that b stopped being ready.
	r.enter(c);
	int seen = 0;
	for(auto const& d : c.got.front().configuring().entering_state().duelists())
		if(d.team() == 1 && d.pos() == 0)
		{
			seen++;
			CHECK(d.is_ready());
		}
	CHECK(seen == 1);
}
'''),
]
