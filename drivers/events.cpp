// Instantiates event application and its undo over opaque boards for analysis. Never built into a program.
#include <cassert>
#include <vector>
#include <ygopen/client/board.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/phase.hpp>
#include <ygopen/proto/duel/data.hpp>
#include <ygopen/proto/duel/msg.hpp>

namespace ygv
{

using Place = YGOpen::Proto::Duel::Place;
using Chain = YGOpen::Proto::Duel::Chain;

// Every member is left undefined: calls become recorded effects.
struct Frame
{
	void clear() noexcept;
	void card_add(Place const& place) noexcept;
	void card_remove(Place const& place) noexcept;
	void card_move(Place const& a, Place const& b) noexcept;
	void card_swap(Place const& a, Place const& b) noexcept;
	void pile_resize(Place const& place, size_t count) noexcept;
	void pile_splice(Place const& from, size_t count, Place const& to,
	                 bool reverse) noexcept;
	void pile_swap(Place const& a, Place const& b) noexcept;
	template<typename It>
	void card_shuffle(It previous, It current, size_t count) noexcept;
	void undo_clear() noexcept;
	void undo_card_add(Place const& place) noexcept;
	void undo_card_remove(Place const& place) noexcept;
	void undo_pile_resize(Place const& place, size_t count) noexcept;
	template<typename It>
	void undo_card_shuffle(It previous, It current, size_t count) noexcept;
};

// The live board: plain values.
struct PlainTraits
{
	using BlockedZonesType = std::vector<Place>;
	using ChainStackType = std::vector<Chain>;
	using FrameType = Frame;
	using LPType = uint32_t;
	using PhaseType = YGOpen::Duel::Phase;
	using TurnControllerType = YGOpen::Duel::Controller;
	using TurnType = uint32_t;
};

// The board that can be undone: every value records what is done to it.
template<typename T>
struct Value
{
	T now;
	operator T const&() const noexcept { return now; }
	template<typename U>
	Value& operator=(U&& v) noexcept
	{
		assigned(static_cast<T>(v));
		return *this;
	}
	void assigned(T v) noexcept;
	void undo() noexcept;
};

template<typename T>
struct Values
{
	template<typename It>
	void assign(It first, It last) noexcept;
	template<typename U>
	void push_back(U&& v) noexcept;
	void pop_back() noexcept;
	template<typename U>
	void undo_push_back(U&& v) noexcept;
	void undo_pop_back() noexcept;
	void undo() noexcept;
};

struct UndoTraits
{
	using BlockedZonesType = Values<Place>;
	using ChainStackType = Values<Chain>;
	using FrameType = Frame;
	using LPType = Value<uint32_t>;
	using PhaseType = Value<YGOpen::Duel::Phase>;
	using TurnControllerType = Value<YGOpen::Duel::Controller>;
	using TurnType = Value<uint32_t>;
};

using PlainBoard = YGOpen::Client::BasicBoard<PlainTraits>;
using UndoBoard = YGOpen::Client::BasicBoard<UndoTraits>;
using Event = YGOpen::Proto::Duel::Msg::Event;

void plain_apply(PlainBoard& b, Event const& e) noexcept
{
	YGOpen::Client::parse_event(b, e);
}

void recorded_apply(UndoBoard& b, Event const& e) noexcept
{
	YGOpen::Client::parse_event(b, e);
}

void recorded_undo(UndoBoard& b, Event const& e) noexcept
{
	YGOpen::Client::undo_parse_event(b, e);
}

} // namespace ygv

template class YGOpen::Client::BasicBoard<ygv::PlainTraits>;
template class YGOpen::Client::BasicBoard<ygv::UndoTraits>;
