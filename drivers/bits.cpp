// Instantiates the bit and location helpers for analysis. Never built into a program.
#include <cassert>
#include <cstdint>
#include <ygopen/bit.hpp>

namespace ygv
{

#define BITS(W)                                                               \
	auto popcnt##W(uint##W##_t x) noexcept -> unsigned                        \
	{                                                                         \
		return YGOpen::Bit::popcnt(x);                                        \
	}                                                                         \
	auto choosel##W(unsigned n, uint##W##_t x) noexcept -> uint##W##_t        \
	{                                                                         \
		return YGOpen::Bit::choosel(n, x);                                    \
	}                                                                         \
	auto chooser##W(unsigned n, uint##W##_t x) noexcept -> uint##W##_t        \
	{                                                                         \
		return YGOpen::Bit::chooser(n, x);                                    \
	}
BITS(8)
BITS(16)
BITS(32)
BITS(64)
#undef BITS

} // namespace ygv
