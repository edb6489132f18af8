// Instantiates the room for analysis. Never built into a program.
#include <cassert>
#include <cstdint>
#include <string_view>
#include <ygopen/server/room.hpp>

namespace ygv
{

// Left undefined: what a room asks of its surroundings is recorded.
struct Peer
{
	void send(YGOpen::Server::RoomEvent const& event) noexcept;
	void fill_user(YGOpen::Proto::User& user) const noexcept;
};

struct Validator
{
	bool check(std::string_view banlist_id, YGOpen::Proto::Deck const& deck,
	           YGOpen::Proto::DeckError& error) const noexcept;
};

struct Cores
{
	int make_duel() const noexcept;
};

struct Rng
{
	using result_type = uint32_t;
	static constexpr auto min() -> result_type { return 0; }
	static constexpr auto max() -> result_type { return UINT32_MAX; }
	auto operator()() noexcept -> result_type;
};

struct RoomTraits
{
	using ClientType = Peer;
	using CoreDuelFactoryType = Cores;
	using DeckValidatorType = Validator;
	using RNGType = Rng;
};

using Room = YGOpen::Server::BasicRoom<RoomTraits>;

void room_enter(Room& room, Peer& peer) noexcept
{
	room.enter(peer);
}

void room_visit(Room& room, Peer& peer,
                YGOpen::Server::RoomSignal const& signal) noexcept
{
	room.visit(peer, signal);
}

void room_make(Validator const& v, Cores const& c, Rng rng, Peer& host,
               YGOpen::Proto::Room::Options const& options) noexcept
{
	Room room{v, c, rng, host, options};
	static_cast<void>(room);
}

} // namespace ygv
