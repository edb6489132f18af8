// Never built into a program: every line states that an owning type cannot be copied.
#include "../client.cpp"
#include "../room.cpp"
#include <type_traits>
#include <ygopen/client/board.hpp>
#include <ygopen/server/basic_encode_context.hpp>

namespace ygv
{

template<typename F, typename V>
struct BoardOf
{
	using BlockedZonesType = V;
	using ChainStackType = V;
	using FrameType = F;
	using LPType = Undoable;
	using PhaseType = Undoable;
	using TurnControllerType = Undoable;
	using TurnType = Undoable;
};

#ifdef YGV_NO_WITNESS
#define WITNESS(name, ...)
#else
#define WITNESS(name, ...)                                                                                       \
	static_assert(!std::is_copy_constructible_v<__VA_ARGS__>, "[" name "|constructed]");                      \
	static_assert(!std::is_constructible_v<__VA_ARGS__, __VA_ARGS__&>, "[" name "|constructed from a variable]"); \
	static_assert(!std::is_copy_assignable_v<__VA_ARGS__>, "[" name "|assigned]");
#endif

WITNESS("frame", Frame)
WITNESS("history-keeping frame", Limbo)
WITNESS("undoable value", Undoable)
WITNESS("undoable list", UndoableVec)
WITNESS("board", YGOpen::Client::BasicBoard<BoardOf<Frame, std::vector<int>>>)
WITNESS("history-keeping board", YGOpen::Client::BasicBoard<BoardOf<Limbo, UndoableVec>>)
WITNESS("room", Room)
WITNESS("encode context", YGOpen::Server::BasicEncodeContext)

} // namespace ygv
