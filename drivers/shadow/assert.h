// Analysis-only replacement of <assert.h>: keeps the asserted condition visible
// in the syntax tree as the argument of a call the analyses know about.
#undef assert
#ifdef __cplusplus
#ifndef YGV_ASSERT_DEFINED
#define YGV_ASSERT_DEFINED
constexpr void ygv_assert(bool) noexcept {}
#endif
#define assert(...) ::ygv_assert(static_cast<bool>(__VA_ARGS__))
#endif
