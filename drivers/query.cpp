// Instantiates query application for analysis. Never built into a program.
#include <cassert>
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/duel/constants/attribute.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/link_arrow.hpp>
#include <ygopen/duel/constants/position.hpp>
#include <ygopen/duel/constants/race.hpp>
#include <ygopen/duel/constants/status.hpp>
#include <ygopen/duel/constants/type.hpp>
#include <ygopen/proto/duel/data.hpp>
#include <ygopen/proto/duel/msg.hpp>

namespace ygv
{

using Card = YGOpen::Client::BasicCard<YGOpen::Client::DefaultCardTraits>;
using Place = YGOpen::Proto::Duel::Place;

// Left undefined: the card a query applies to is recorded.
struct QFrame
{
	using CardType = Card;
	bool has_card(Place const& place) const noexcept;
	CardType& card(Place const& place) noexcept;
};

using Query = YGOpen::Proto::Duel::Msg::Query;

auto query_plain(QFrame& f, Query const& q) noexcept -> uint64_t
{
	return static_cast<uint64_t>(YGOpen::Client::parse_query<false>(f, q));
}

auto query_cached(QFrame& f, Query const& q) noexcept -> uint64_t
{
	return static_cast<uint64_t>(YGOpen::Client::parse_query<true>(f, q));
}

void query_card() noexcept
{
	Card c;
	static_cast<void>(c);
}

auto place_equal(Place const& a, Place const& b) noexcept -> bool
{
	return a == b;
}

auto place_less(Place const& a, Place const& b) noexcept -> bool
{
	return YGOpen::Proto::Duel::PlaceLess{}(a, b);
}

} // namespace ygv

template class YGOpen::Client::BasicCard<YGOpen::Client::DefaultCardTraits>;
