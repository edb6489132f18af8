// Ways of writing things that the engine has to read correctly: every function
// is summarised by the engine and run natively, and the two are compared.
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <forward_list>
#include <functional>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
using U = unsigned;
using V = std::vector<unsigned>;
#define T(NAME) U NAME([[maybe_unused]] U a, [[maybe_unused]] U b, [[maybe_unused]] V& v)
namespace idiom {
static std::pair<U, U> flip(U a, U b) { return {b, a}; }
struct P { U x{7}; U y{}; bool operator==(P const& o) const { return x == o.x && y == o.y; } bool operator<(P const& o) const { return std::tie(x, y) < std::tie(o.x, o.y); } };
struct Q : P { U z = 3; U sum() const { return x + y + z; } };
T(tie_pair) { std::tie(a, b) = flip(a, b); return a * 31 + b; }
T(tie_ignore_cast) { uint8_t c; U d; std::tie(c, d) = flip(a, b); return c * 1000u + d; }
T(tie_lt) { U c = b; return std::tie(a, b) < std::tie(c, a); }
T(tie_eq) { U c = a; return std::tie(a, b) == std::tie(c, b); }
T(bindings) { auto [x, y] = flip(a, b); x += 2; return x * 31 + y; }
T(bindings_ref) { auto p = flip(a, b); auto& [x, y] = p; x = 5; return p.first + y; }
T(bindings_struct) { P p{a, b}; auto& [x, y] = p; x++; return p.x * 3 + y; }
T(bindings_arr) { std::array<U, 2> p{a, b}; auto [x, y] = p; return x * 3 + y; }
T(bindings_tuple) { auto t = std::make_tuple(a, b, a + b); auto [x, y, z] = t; return x * 3 + y * 5 + z; }
T(tuple_get) { std::tuple<U, uint8_t> t{a, b}; std::get<0>(t) += 1; return std::get<0>(t) + std::get<1>(t); }
T(tuple_ref) { std::tuple<U&, U&> t{a, b}; std::get<0>(t) = 9; return a + b; }
T(swap_tuple) { U c = a, d = b; std::swap(c, d); return c * 7 + d; }
T(exchange) { U c = std::exchange(a, b); return c * 7 + a; }
T(pair_cmp) { return std::make_pair(a, b) < std::make_pair(b, a); }
T(pair_assign) { std::pair<U, U> p{1, 2}; p = {a, b}; p.second++; return p.first * 3 + p.second; }
T(struct_eq) { P p{a, b}, q{b, a}; return p == q; }
T(struct_lt) { P p{a, b}, q{b, a}; return p < q; }
T(struct_default) { P p; p.y = a; return p.x + p.y; }
T(struct_copy) { P p{a, b}; P q = p; q.x = 1; return p.x * 3 + q.x + q.y; }
T(struct_ref) { P p{a, b}; auto f = [](P& q) { q.x += 4; }; f(p); return p.x; }
T(derived) { Q q; q.x = a; P& p = q; p.y = b; return q.sum(); }
T(opt) { std::optional<U> o; if(a > b) o = a - b; return o ? *o : 77u; }
T(opt_valueor) { std::optional<U> o; if(a > b) o = a - b; return o.value_or(3); }
T(opt_emplace) { std::optional<P> o; o.emplace(); o->y = a; auto c = o; o.reset(); return c->x + c->y + o.has_value(); }
T(var) { std::variant<U, P> w; if(a > b) w = P{a, b}; else w = a; return std::holds_alternative<P>(w) ? std::get<P>(w).y : std::get<U>(w) + 1; }
T(var_visit) { std::variant<U, P> w = a; if(b & 1) w = P{1, b}; return std::visit([](auto const& x) -> U { if constexpr(std::is_same_v<std::decay_t<decltype(x)>, P>) return x.y; else return x + 3; }, w); }
T(var_getif) { std::variant<U, P> w = a; if(b & 1) w = P{1, b}; if(auto* p = std::get_if<P>(&w)) return p->y; return 5; }
T(arr) { std::array<U, 3> r{}; r[1] = a; r[a % 3] += b; return r[0] + 3 * r[1] + 7 * r[2]; }
T(arr_ref) { std::array<U, 3> r{1, 2, 3}; auto& x = r[b % 3]; x = a; return r[0] + 3 * r[1] + 7 * r[2]; }
T(arr_loop) { std::array<U, 4> r{}; for(U i = 0; i < r.size(); i++) r[i] = a + i; U s = 0; for(auto x : r) s = s * 3 + x; return s; }
T(carr) { U r[3] = {a, b, 5}; U s = 0; for(auto& x : r) { x *= 2; s += x; } return s + r[2]; }
T(carr_ptr) { U r[3] = {a, b, 5}; U s = 0; for(U* p = r; p != r + 3; ++p) s = s * 3 + *p; return s; }
T(table) { static constexpr P TAB[] = {{1, 10}, {2, 20}, {3, 30}}; for(auto const& e : TAB) if(e.x == a % 5) return e.y; return 99; }
T(table2) { static const std::array<std::pair<U, U>, 3> TAB = {{{1, 10}, {2, 20}, {3, 30}}}; auto it = std::find_if(TAB.begin(), TAB.end(), [&](auto const& e) { return e.first == a % 5; }); return it == TAB.end() ? 99 : it->second; }
T(inits) { U s = 0; for(U x : {a, b, 3u}) s = s * 3 + x; return s; }
T(inits_ptr) { U s = 0; for(U* x : {&a, &b}) { *x += 1; s += *x; } return s * 3 + a; }
T(bits) { std::bitset<16> w(a >> 4); U s = 0; for(U i = 0; i < 16; i++) if(!w[i]) s += i * i; return s; }
T(bits_count) { std::bitset<8> w(a); return w.count() + 100 * w.test(3) + 1000 * w.none(); }
T(u8) { uint8_t c = a; c += 200; return c; }
T(u8_cmp) { uint8_t c = a; return c + 1 > 255 ? 5 : c; }
T(i8) { int8_t c = static_cast<int8_t>(a); return static_cast<U>(c < 0 ? -c : c); }
T(i16) { int16_t c = static_cast<int16_t>(a); int16_t d = static_cast<int16_t>(c * 2); return static_cast<uint16_t>(d); }
T(i32cmp) { return static_cast<int32_t>(a) < static_cast<int32_t>(b); }
T(u32cmp_minus) { return a - b > 5; }
T(shift) { return (a << 7) | (b >> 25); }
T(mask) { return (a & 0xFF00FFu) ^ (b | 0x0F0Fu); }
T(mask2) { return (a & 0xFFFFu) << 16 | (b & 0xFFFFu); }
T(not_) { return ~a & 0xFFu; }
T(div) { return b ? a / b + a % b : 3; }
T(divc) { return a / 10 + (a % 10) * 7; }
T(sdiv) { int x = static_cast<int>(a); return static_cast<U>(x / 4); }
T(boolmath) { return (a > b) * 3 + (a == b) * 5; }
T(tern) { return a > b ? a > 10 ? 1 : 2 : b > 10 ? 3 : 4; }
T(tern_lv) { U x = 1, y = 2; (a > b ? x : y) = 9; return x * 3 + y; }
T(comma) { U x = (a++, a + b); return x; }
T(incr) { U x = a++ + b; U y = ++b; return x * 3 + y + a; }
T(sw) { switch(a % 6) { case 0: return 5; case 1: b++; [[fallthrough]]; case 2: b++; break; case 3: { b = 7; break; } default: b = 1; } return b; }
T(sw_noret) { U r = 2; switch(a % 4) { case 1: r = 9; break; case 2: if(b > 3) break; r = 7; } return r; }
T(whl) { U s = 0; U n = a % 9; while(n--) s += n * b; return s; }
T(whl2) { U s = 0; U i = 0; while(true) { if(i == a % 9) break; s = s + i; ++i; } return s; }
T(dowhl) { U s = 0, i = 0; do { s += ++i; } while(i < a % 9); return s; }
T(cont) { U s = 0; for(U i = 0; i < a % 9; i++) { if(i % 2) continue; s += i; } return s; }
T(nested) { U s = 0; for(U i = 0; i < a % 5; i++) for(U j = 0; j < i; j++) s += j; return s; }
T(brk2) { U s = 0; for(U i = 0; i < 4; i++) { for(U j = 0; j < 4; j++) { if(j == a % 7) break; s += 1; } if(i == b % 7) break; s += 10; } return s; }
T(down) { U s = 0; for(U i = a % 9; i != 0; i--) s = s + i; return s; }
T(down2) { U s = 0; for(U i = a % 9; i-- > 0;) s = s + i; return s; }
T(sumv) { U s = 0; for(auto x : v) s += x; return s; }
T(sumv_i) { U s = 0; for(size_t i = 0; i < v.size(); ++i) s += v[i]; return s; }
T(sumv_it) { U s = 0; for(auto it = v.cbegin(); it != v.cend(); ++it) s += *it; return s; }
T(accum) { return std::accumulate(v.begin(), v.end(), 0u); }
T(accum2) { return std::accumulate(v.begin(), v.end(), 5u, [](U s, U x) { return s + x + 1; }); }
T(foreach) { U s = 0; std::for_each(v.begin(), v.end(), [&s](U x) { s += x; }); return s; }
T(anyof) { return std::any_of(v.begin(), v.end(), [&](U x) { return x == a; }); }
T(allof) { return std::all_of(v.begin(), v.end(), [&](U x) { return x > 3; }); }
T(noneof) { return std::none_of(v.begin(), v.end(), [&](U x) { return x > 3; }); }
T(anyloop) { for(auto x : v) if(x == a) return 1; return 0; }
T(anyflag) { bool f = false; for(auto x : v) { if(x != a) continue; f = true; break; } return f; }
T(anyflag2) { bool f = false; for(auto x : v) f = f || x == a; return f; }
T(allflag) { bool f = true; for(auto x : v) f &= x > 3; return f; }
T(finda) { auto it = std::find(v.begin(), v.end(), a); return it == v.end() ? 9999 : static_cast<U>(it - v.begin()); }
T(findif) { auto it = std::find_if(v.begin(), v.end(), [&](U x) { return x > 3; }); return it == v.end() ? 9999 : *it; }
T(findloop) { for(size_t i = 0; i != v.size(); i++) if(v[i] == a) return static_cast<U>(i); return 9999; }
T(findwhile) { size_t i = 0; while(i < v.size() && v[i] != a) i++; return static_cast<U>(i); }
T(cnt) { return static_cast<U>(std::count(v.begin(), v.end(), a)); }
T(cntif) { return static_cast<U>(std::count_if(v.begin(), v.end(), [](U x) { return x > 3; })); }
T(cntloop) { U n = 0; for(auto x : v) if(x > 3) n++; return n; }
T(cntloop2) { U n = 0; for(auto x : v) n += x > 3; return n; }
T(addone) { for(auto& x : v) x += a; return 0; }
T(addone_i) { for(size_t i = 0; i < v.size(); i++) v[i] += a; return 0; }
T(addone_t) { std::transform(v.begin(), v.end(), v.begin(), [&](U x) { return x + a; }); return 0; }
T(fill) { std::fill(v.begin(), v.end(), a); return 0; }
T(filln) { v.assign(3, a); return static_cast<U>(v.size()); }
T(push) { v.push_back(a); v.emplace_back(b); return v.back() + static_cast<U>(v.size()); }
T(pop) { if(v.empty()) return 1; auto x = v.back(); v.pop_back(); return x; }
T(insfront) { v.insert(v.begin(), a); return v.front(); }
T(insmid) { if(v.size() < 2) return 0; v.insert(v.begin() + 1, a); return v[1]; }
T(inslist) { v.insert(v.end(), {a, b}); return 0; }
T(insrange) { V w{a, b}; v.insert(v.begin(), w.begin(), w.end()); return 0; }
T(insfill) { v.insert(v.end(), 2, a); return 0; }
T(erasefirst) { if(!v.empty()) v.erase(v.begin()); return 0; }
T(eraselast) { if(!v.empty()) v.erase(std::prev(v.end())); return 0; }
T(erasemid) { if(v.size() > 2) v.erase(v.begin() + 1, v.begin() + 2); return 0; }
T(eraseret) { if(v.size() < 2) return 5; auto it = v.erase(v.begin()); return *it; }
T(eraseif) { v.erase(std::remove_if(v.begin(), v.end(), [&](U x) { return x > 3; }), v.end()); return 0; }
T(eraserem) { v.erase(std::remove(v.begin(), v.end(), a), v.end()); return 0; }
T(filter) { V w; for(auto x : v) if(x > 3) w.push_back(x); v = w; return 0; }
T(filter_mv) { V w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), [](U x) { return x > 3; }); v = std::move(w); return 0; }
T(copyback) { V w; std::copy(v.begin(), v.end(), std::back_inserter(w)); w.push_back(a); v.swap(w); return 0; }
T(copysub) { V w(v.begin() + (v.empty() ? 0 : 1), v.end()); v = w; return static_cast<U>(v.size()); }
T(xform) { V w; std::transform(v.begin(), v.end(), std::back_inserter(w), [&](U x) { return x * 2; }); v = w; return 0; }
T(xform_rs) { V w(v.size()); for(size_t i = 0; i < v.size(); i++) w[i] = v[i] + static_cast<U>(i); v = w; return 0; }
T(rev) { std::reverse(v.begin(), v.end()); return 0; }
T(revloop) { V w; for(auto it = v.rbegin(); it != v.rend(); ++it) w.push_back(*it); v = w; return 0; }
T(revcopy) { V w(v.rbegin(), v.rend()); v = w; return 0; }
T(revidx) { V w; for(size_t i = v.size(); i-- > 0;) w.push_back(v[i]); v = w; return 0; }
T(rotate) { if(v.size() < 2) return 0; std::rotate(v.begin(), v.begin() + 1, v.end()); return 0; }
T(rotback) { v.push_back(a); std::rotate(v.begin(), v.end() - 1, v.end()); return 0; }
T(resize_) { v.resize(2); return 0; }
T(resizeval) { v.resize(3, a); return 0; }
T(clearv) { v.clear(); v.push_back(b); return static_cast<U>(v.size()); }
T(swapv) { V w{a, b}; std::swap(v, w); return static_cast<U>(w.size()); }
T(movev) { V w = std::move(v); v.clear(); w.push_back(1); v = std::move(w); return 0; }
T(exchv) { V w = std::exchange(v, {a}); return static_cast<U>(w.size()); }
T(copyn) { if(v.size() < 2) return 0; std::array<U, 2> r{}; std::copy_n(v.begin(), 2, r.begin()); return r[0] * 3 + r[1]; }
T(copyfix) { if(v.size() < 2) return 0; V w(2); std::copy(v.begin(), v.begin() + 2, w.begin()); v = w; return 0; }
T(minv) { return std::min(a, b) + std::max<U>(a, 7) * 3; }
T(clampv) { return std::clamp(a, 3u, 9u); }
T(minmaxv) { auto [l, h] = std::minmax(a, b); return l * 3 + h; }
T(maxloop) { U m = 0; for(auto x : v) if(x > m) m = x; return m; }
T(maxel) { auto it = std::max_element(v.begin(), v.end()); return it == v.end() ? 0 : *it; }
T(iota_) { V w(4); std::iota(w.begin(), w.end(), a); v = w; return 0; }
T(next_) { if(v.size() < 2) return 0; return *std::next(v.begin()) * 3 + *std::prev(v.end()); }
T(adv) { if(v.size() < 2) return 0; auto it = v.begin(); std::advance(it, 1); return *it + static_cast<U>(std::distance(v.begin(), it)); }
T(lambda_val) { auto f = [a](U x) { return x + a; }; a = 5; return f(b) + a; }
T(lambda_ref) { auto f = [&](U x) { a += x; }; f(b); f(1); return a; }
T(lambda_mut) { U n = 0; auto f = [n]() mutable { return ++n; }; f(); return f() * 10 + n; }
T(lambda_init) { auto f = [c = a + b] { return c * 2; }; return f(); }
T(func) { std::function<U(U)> f; if(a > b) f = [](U x) { return x + 1; }; else f = [&](U x) { return x + b; }; return f(a); }
T(fptr) { U (*f)(U, U) = [](U x, U y) { return x * 2 + y; }; return f(a, b); }
T(memptr) { P p{a, b}; U P::*m = a > b ? &P::x : &P::y; p.*m = 4; return p.x * 3 + p.y; }
T(refwrap) { auto r = std::ref(a); r.get() = 4; return a + b; }
T(uptr) { auto p = std::make_unique<P>(); p->y = a; auto q = std::move(p); return q->y + q->x + (p == nullptr); }
T(ptrs) { U* p = a > b ? &a : &b; *p = 3; return a * 5 + b; }
T(ptr_null) { U* p = nullptr; if(a > 3) p = &b; if(p) *p = 1; return b; }
T(memcpy_) { uint32_t x = a; uint8_t bs[4]; std::memcpy(bs, &x, 4); return bs[0] + 256u * bs[3]; }
T(memcpy2) { uint8_t bs[4] = {1, 2, static_cast<uint8_t>(a), 0}; uint32_t x; std::memcpy(&x, bs, 4); return x; }
T(flist) { std::forward_list<U> l; l.push_front(a); l.push_front(b); U s = 0; for(auto x : l) s = s * 3 + x; return s; }
T(map_) { std::map<U, U> m; m[a] = 1; m[b] += 5; auto it = m.find(a); return it->second + static_cast<U>(m.size()) * 10; }
static U rec(U n, U acc) { return n == 0 ? acc : rec(n - 1, acc + n); }
T(recur) { return rec(a % 5, b); }
static U out(U x, U& o) { if(x > 4) { o = 1; return 2; } o = x; return 3; }
T(outp) { U o = 8; U r = out(a, o); return r * 10 + o; }
T(early) { if(a == 3) return 1; if(b == 3) { if(a > 5) return 2; b = 9; } return b; }
T(gotoish) { U s = 0; for(U i = 0; i < 3; i++) { s += i; if(s > a) return s; } s += 100; return s; }
T(notexpr) { bool x = !(a > b) && !!b; return x; }
T(cond_and) { U n = 0; auto f = [&] { n++; return a > b; }; if(f() && f()) n += 10; return n; }
T(cond_or) { U n = 0; auto f = [&] { n++; return a > b; }; if(f() || f()) n += 10; return n; }
T(ifinit) { if(auto x = a + 1; x > b) return x; else return x + 3; }
T(sizeof_) { return sizeof(P) + sizeof(a); }
T(limits) { return std::numeric_limits<uint16_t>::max() + std::numeric_limits<U>::digits; }
T(castenum) { enum E : uint8_t { A = 1, B = 2 }; E e = static_cast<E>(a & 3); return e == A ? 5 : e == B ? 6 : e; }
T(enumcls) { enum class E : uint8_t { A, B }; auto e = a > b ? E::A : E::B; return static_cast<U>(e); }
T(vecstruct) { std::vector<P> w; w.push_back({a, b}); w.emplace_back(); w[1].y = 2; U s = 0; for(auto& p : w) s = s * 7 + p.x + p.y; return s; }
T(vecvec) { std::vector<V> w(2); w[0].push_back(a); w[a % 2].push_back(b); return static_cast<U>(w[0].size() * 10 + w[1].size()); }
T(lastel) { if(v.empty()) return 0; v.back() = a; v.front() += 1; return *v.rbegin(); }
T(datap) { if(v.empty()) return 0; U* p = v.data(); *p = a; return v[0]; }
T(rangesub) { if(v.size() < 3) return 0; U s = 0; for(auto it = v.begin() + 1; it != v.end() - 1; it++) s += *it; return s; }
T(twoidx) { U s = 0; for(size_t i = 0, j = v.size(); i < v.size(); i++, j--) s += static_cast<U>(j); return s; }
T(equalr) { V w{a, b}; return std::equal(v.begin(), v.end(), w.begin(), w.end()); }
T(veceq) { V w = v; bool e = w == v; w.push_back(1); return e * 2 + (w == v); }
T(swapel) { if(v.size() < 2) return 0; std::swap(v[0], v[1]); std::iter_swap(v.begin(), v.end() - 1); return 0; }
T(shadow) { U x = a; { U x = b; x++; a += x; } return x * 3 + a; }
T(statloc) { static const U k = 5; return k * a; }
T(longlong) { uint64_t x = a; x = x << 32 | b; return static_cast<U>(x >> 16); }
T(i64) { int64_t x = static_cast<int64_t>(a) - b; return x < 0; }
T(neg) { return -a; }
T(sneg) { int x = static_cast<int>(a & 0xFF) - 128; return static_cast<U>(-x); }
T(xorswap) { a ^= b; b ^= a; a ^= b; return a * 3 + b; }
T(modpow) { return (a + 1u) % 8u; }
T(andmod) { return a & ~7u; }
T(bytes) { uint8_t x = a >> 8, y = static_cast<uint8_t>(a); return x * 256u + y; }
T(optref) { auto pick = [&](bool f) -> U& { return f ? a : b; }; pick(a > b) = 1; pick(true) += 2; return a * 3 + b; }
T(chain) { U x, y; x = y = a + 1; x += y -= 1; return x * 3 + y; }
T(defarg) { auto f = [](U x, U y = 4) { return x * y; }; return f(a) + f(a, b); }
T(varsum) { auto f = [](auto... x) { return (x + ... + 0u); }; return f(a, b, 3u); }
T(stable_part) { std::stable_partition(v.begin(), v.end(), [](U x) { return x > 3; }); return 0; }
T(splitpush) { V lo, hi; for(auto x : v) (x > 3 ? hi : lo).push_back(x); v = lo; v.insert(v.end(), hi.begin(), hi.end()); return 0; }
T(prevel) { U p = a; for(auto x : v) { b += p; p = x; } return b; }
T(idxpush) { V w; for(U i = 0; i < v.size(); i++) { w.push_back(i); w.push_back(v[i]); } v = w; return 0; }
T(popall) { U s = 0; while(!v.empty()) { s += v.back(); v.pop_back(); } return s; }
T(drain) { V w; while(!v.empty()) { w.push_back(v.back()); v.pop_back(); } v = w; return 0; }
T(until) { U n = 0; for(auto x : v) { if(x == a) break; n++; } return n; }
T(skiploop) { V w; bool on = false; for(auto x : v) { if(on) w.push_back(x); if(x == a) on = true; } v = w; return 0; }
T(lastmatch) { U r = 99; for(size_t i = 0; i < v.size(); i++) if(v[i] > 3) r = static_cast<U>(i); return r; }
T(u8count) { U n = 0; for(uint8_t i = 0; i < static_cast<uint8_t>(a); i++) n += 2; return n; }
T(u8down) { U n = 0; for(auto i = static_cast<uint8_t>(a); i; --i) n += 3; return n; }
T(mv1) { V w = std::move(v); U n = static_cast<U>(v.size()); v = w; return n + static_cast<U>(w.size()); }
T(mv2) { V w; w.push_back(a); w = std::move(v); U n = static_cast<U>(v.size()); v.push_back(b); return n + static_cast<U>(w.size()); }
T(mv3) { auto p = std::make_unique<P>(); auto q = std::make_unique<P>(); p->y = a; q->y = b; q = std::move(p); return q->y + (p ? 1 : 0) + (q ? 2 : 0); }
T(mv4) { auto p = std::make_shared<P>(); auto q = p; q->y = a; p = q; return p->y + (q ? 1 : 0); }
T(mv5) { std::vector<V> w; w.push_back(std::move(v)); w.push_back(V{a}); V x; std::swap(x, w.back()); v = w.front(); return static_cast<U>(x.size() + w.back().size()); }
T(mv6) { std::vector<V> w(2); w[0] = v; w[1] = std::move(w[0]); v = w[1]; return static_cast<U>(w[0].size()); }
T(mv7) { P p; p.y = a; P q = std::move(p); q.x = b; return p.y + q.x; }
T(mv8) { V w(v); auto f = [x = std::move(w), a]() { return static_cast<U>(x.size()) + a; }; return f() + static_cast<U>(w.size()); }
T(opteq) { std::optional<U> p, q; if(a > 2) p = a; if(b > 2) q = b; U r = (p == q); p = 7; p.reset(); return r + 2 * (p == q); }
T(negdown) { U s = 0; for(int n = static_cast<int>(v.size()); n > 0; n--) s += v[static_cast<size_t>(n - 1)]; return s; }
T(sub1) { return a - std::min(a, b); }
T(sub2) { return a > b ? a - b : 0U; }
T(sub3) { return b >= a ? 0U : a - b; }
T(sub4) { return std::max(a, b) - b; }
T(edge1) { return a < b ? a : b; }
T(edge2) { return a == b ? a : b; }
T(edge3) { return a <= b ? b - a + 3 : 3; }
} // namespace idiom
