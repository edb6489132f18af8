// Never built into a program: what the cases of C45 are made of, types that the requirements of the library's
// templates admit and nothing more.
#include <array>
#include <cassert>
#include <cstdint>
#include <list>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include <ygopen/bit.hpp>
#include <ygopen/client/board.hpp>
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/server/room.hpp>

namespace ygv
{

using namespace YGOpen::Client;
using YGOpen::Proto::Duel::Msg;
using Place = YGOpen::Proto::Duel::Place;

// A card that can only be moved, and can only be made by its builder.
struct Card
{
	explicit Card(int made) : value(made) {}
	Card(Card&&) noexcept = default;
	auto operator=(Card&&) noexcept -> Card& = default;
	int value;
};

struct Builder
{
	int const* source;
	explicit constexpr Builder(int const* from) noexcept : source(from) {}
	[[nodiscard]] auto build() const noexcept -> ygv::Card { return ygv::Card{*source}; }
};

// A card with no comparison and no copying.
struct PlainCard
{
	explicit PlainCard() noexcept = default;
	PlainCard(PlainCard&&) noexcept = default;
	auto operator=(PlainCard&&) noexcept -> PlainCard& = default;
	std::unique_ptr<int> owned;
};

template<typename Frame, template<typename> class Value>
struct BoardOf
{
	using BlockedZonesType = Value<std::vector<Place>>;
	using ChainStackType = Value<std::vector<YGOpen::Proto::Duel::Chain>>;
	using FrameType = Frame;
	using LPType = Value<uint32_t>;
	using PhaseType = Value<YGOpen::Duel::Phase>;
	using TurnControllerType = Value<YGOpen::Duel::Controller>;
	using TurnType = Value<uint32_t>;
};

template<typename T>
using Plain = T;
template<typename T>
using Kept = BasicUndoable<T>;

template<template<typename> class Value>
struct CardOf
{
#define X(NAME, Name, name, value) using Name##Type = Value<typename DefaultCardTrait<(value)>::Type>;
#define EXPAND_ARRAY_LIKE_QUERIES
#define EXPAND_SEPARATE_LINK_DATA_QUERIES
#include <ygopen/client/queries.inl>
#undef EXPAND_SEPARATE_LINK_DATA_QUERIES
#undef EXPAND_ARRAY_LIKE_QUERIES
#undef X
};

using DefaultCard = BasicCard<DefaultCardTraits>;
using KeptCard = BasicCard<CardOf<Kept>>;

template<typename Frame>
void frame(Frame& f, Place const& p)
{
	auto const& k = f;
	auto& c = f.card_add(p);
	static_assert(std::is_same_v<decltype(c), typename Frame::CardType&>);
	f.card_move(p, p);
	f.card_remove(p);
	f.card_swap(p, p);
	f.clear();
	f.pile_resize(p, 2U);
	f.pile_splice(p, 1U, p, true);
	f.pile_swap(p, p);
	static_cast<void>(k.has_card(p));
	static_cast<void>(f.card(p));
	static_cast<void>(k.card(p));
	static_cast<void>(f.pile(p));
	static_cast<void>(k.pile(p));
	static_cast<void>(f.zone(p));
	static_cast<void>(k.zone(p));
}

template<typename Frame>
void shuffle(Frame& f, Place const* p, size_t n)
{
	std::vector<Place> v(p, p + n);
	std::list<Place> l(v.begin(), v.end());
	f.card_shuffle(v.begin(), v.begin(), n);
	f.card_shuffle(l.cbegin(), l.cbegin(), n);
	google::protobuf::RepeatedPtrField<Place> const r(p, p + n);
	f.card_shuffle(r.cbegin(), r.cbegin(), n);
}

template<typename Frame>
void limbo(Frame& f, Place const& p)
{
	frame(f, p);
	static_cast<void>(f.undo_card_add(p));
	static_cast<void>(f.undo_card_remove(p));
	f.undo_pile_resize(p, 1U);
	f.undo_clear();
	f.erase_history();
}

template<typename Board>
void queries(Board& board, Msg const& m)
{
	for(auto const& query : m.queries())
	{
		static_cast<void>(parse_query(board.frame(), query));
		static_cast<void>(parse_query<true>(board.frame(), query));
	}
}

struct Peer
{
	void send(YGOpen::Server::RoomEvent const& event) noexcept;
	void fill_user(YGOpen::Proto::User& user) const noexcept;
	Peer(Peer const&) = delete;
	auto operator=(Peer const&) -> Peer& = delete;
};

struct Validator
{
	bool check(std::string_view banlist_id, YGOpen::Proto::Deck const& deck, YGOpen::Proto::DeckError& error) const noexcept;
	Validator(Validator const&) = delete;
};

struct Cores
{
	int make_duel() const noexcept;
	Cores(Cores const&) = delete;
};

// Bits that can only be moved, one byte at a time.
struct Bytes
{
	using result_type = uint8_t;
	Bytes(Bytes&&) noexcept = default;
	auto operator=(Bytes&&) noexcept -> Bytes& = default;
	static constexpr auto min() -> result_type { return 0; }
	static constexpr auto max() -> result_type { return UINT8_MAX; }
	auto operator()() noexcept -> result_type;
};

template<typename Rng>
struct RoomOf
{
	using ClientType = Peer;
	using CoreDuelFactoryType = Cores;
	using DeckValidatorType = Validator;
	using RNGType = Rng;
};

template<typename Rng>
void room(Validator const& v, Cores const& c, Rng rng, Peer& p, YGOpen::Server::RoomSignal const& s)
{
	YGOpen::Server::BasicRoom<RoomOf<Rng>> room{v, c, std::move(rng), p, {}};
	room.enter(p);
	room.visit(p, s);
}

} // namespace ygv
