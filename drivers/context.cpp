// Instantiates the encode context and the place helpers for analysis. Never built into a program.
#include <cassert>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/duel/constants/attribute.hpp>
#include <ygopen/duel/constants/link_arrow.hpp>
#include <ygopen/duel/constants/phase.hpp>
#include <ygopen/duel/constants/position.hpp>
#include <ygopen/duel/constants/race.hpp>
#include <ygopen/duel/constants/reason.hpp>
#include <ygopen/duel/constants/rock_paper_scissors.hpp>
#include <ygopen/duel/constants/status.hpp>
#include <ygopen/duel/constants/type.hpp>
#include <ygopen/proto/duel/data.hpp>
#include <ygopen/server/basic_encode_context.hpp>

namespace ygv
{

using Context = YGOpen::Server::BasicEncodeContext;
using Place = YGOpen::Proto::Duel::Place;
using Places = std::vector<Place>;
using Con = YGOpen::Duel::Controller;
using Loc = YGOpen::Duel::Location;

void make(int& n) noexcept
{
	Context c;
	static_cast<void>(n);
	static_cast<void>(c);
}
void parse(Context& c, YGOpen::Proto::Duel::Msg const& m) noexcept { c.parse(m); }
auto pile_size(Context const& c, Con con, Loc loc) noexcept -> size_t { return c.pile_size(con, loc); }
auto has_mat(Context const& c, Place const& p) noexcept -> bool { return c.has_xyz_mat(p); }
auto left(Context const& c, Place const& p) noexcept -> Place { return c.get_xyz_left(p); }
void set_left(Context& c, Place const& p, Place const& q) noexcept { c.xyz_left(p, q); }
auto reason(Context const& c) noexcept -> uint32_t { return c.get_match_win_reason(); }
void set_reason(Context& c, uint32_t r) noexcept { c.match_win_reason(r); }
void defer(Context& c, Place const& p) noexcept { c.xyz_mat_defer(p); }
auto take(Context& c) noexcept -> Places { return c.take_deferred_xyz_mat(); }

auto empty(Loc l) noexcept -> bool { return is_empty(l); }
auto pile(Loc l) noexcept -> bool { return is_pile(l); }
auto zone(Loc l) noexcept -> bool { return is_zone(l); }
auto place_empty(Place const& p) noexcept -> bool { return is_empty(p); }
auto place_pile(Place const& p) noexcept -> bool { return is_pile(p); }
auto place_zone(Place const& p) noexcept -> bool { return is_zone(p); }
auto place_con(Place const& p) noexcept -> Con { return get_con(p); }
auto place_loc(Place const& p) noexcept -> Loc { return get_loc(p); }
auto limit(Loc l) noexcept -> size_t { return YGOpen::Client::zone_seq_lim(l); }
auto controllers(std::vector<int>& out) noexcept -> void
{
	for(auto c : YGOpen::Duel::all_controllers())
		out.push_back(static_cast<int>(c));
}

} // namespace ygv
