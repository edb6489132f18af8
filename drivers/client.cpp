// Instantiates the client templates for analysis. Never built into a program.
#include <cassert>
#include <vector>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/undoable.hpp>

namespace ygv
{

struct Card
{
	int tag;
};

struct Builder
{
	int id;
	auto build() noexcept -> Card;
};

using Frame = YGOpen::Client::BasicFrame<Card, Builder>;
using Limbo = YGOpen::Client::LimboFrame<Card, Builder>;
using Places = std::vector<YGOpen::Proto::Duel::Place>;

void use_shuffle(Frame& f, Places const& a, Places const& b, size_t n) noexcept
{
	f.card_shuffle(a.begin(), b.begin(), n);
}

void use_limbo_shuffle(Limbo& f, Places const& a, Places const& b, size_t n) noexcept
{
	f.card_shuffle(a.begin(), b.begin(), n);
}

using Undoable = YGOpen::Client::BasicUndoable<int>;
using UndoableVec = YGOpen::Client::BasicUndoable<std::vector<int>>;

using Ints = std::vector<int>;

void undoable_make(Ints& r) noexcept
{
	Undoable u;
	UndoableVec w;
	static_cast<void>(u);
	static_cast<void>(w);
}
void undoable_assign(Undoable& u, int const& v) noexcept { u = v; }
void undoable_assign_moved(Undoable& u, int v) noexcept { u = std::move(v); }
void undoable_undo(Undoable& u) noexcept { u.undo(); }
auto undoable_read(Undoable const& u) noexcept -> int { return static_cast<int const&>(u); }
auto undoable_equals(Undoable const& u, int const& v) noexcept -> bool { return u == v; }

void list_assign(UndoableVec& w, Ints const& x) noexcept { w.assign(x.begin(), x.end()); }
void list_undo(UndoableVec& w) noexcept { w.undo(); }
auto list_read(UndoableVec const& w) noexcept -> Ints { return static_cast<Ints const&>(w); }

} // namespace ygv

template class YGOpen::Client::BasicFrame<ygv::Card, ygv::Builder>;
template class YGOpen::Client::LimboFrame<ygv::Card, ygv::Builder>;
