#include "c12.hpp"
#include <list>
#include <array>
// Every C++ scalar, text and blob type with its edge values, through every route that accepts it: all describe the same value.
template<class T> static void routes(mc::X& x, const Val& w, const T& t) {
    using D = z::dyn::Value; const D d(t);
    same(x, w, d, "a dynamic value"); same(x, w, D(D(t)), "a moved dynamic value"); D e; e = t; same(x, w, e, "an assigned dynamic value");
    same(x, arr({w, w}), z::dyn::array({t, D(t)}), "a dynamic array"); same(x, map({{"k", w}}), z::dyn::map({{"k", t}}), "a dynamic map");
    if constexpr (!std::is_same_v<T, z::dyn::Value::Map> && !std::is_same_v<T, z::dyn::Value::Array>) {
        same(x, arr({w, map({{"k", w}})}), z::zvec(t, z::zmap<"k">(t)), "a builder"); same(x, arr({w, w}), z::zvec(T(t), d), "a builder of temporaries");
        if constexpr (!std::is_same_v<T, bool>) { same(x, arr({w, w}), std::vector<T>{t, t}, "a vector"); }
        same(x, arr({w, w}), std::list<T>{t, t}, "a list"); same(x, arr({w, w, w}), std::array<T, 3>{t, t, t}, "an array"); same(x, arr({w}), std::initializer_list<T>{t}, "an initializer list");
        same(x, map({{"a", w}, {"b", w}}), std::map<std::string, T>{{"b", t}, {"a", t}}, "a map"); same(x, map({{"a", w}}), std::unordered_map<std::string, T>{{"a", t}}, "an unordered map"); same(x, map({{"k", arr({w})}}), z::zmap<"k">(std::list<T>{t}), "a builder around a list");
    } x.outcome(show(w)); }
template<class T> static void integers(mc::X& x) { static constexpr int bits = std::numeric_limits<T>::digits;
    std::vector<T> vs; if (sizeof(T) <= 2 && (x.thorough || sizeof(T) == 1)) for (long n = std::numeric_limits<T>::min(); n <= long(std::numeric_limits<T>::max()); ++n) vs.push_back(T(n));
    else for (int b = 0; b <= bits; ++b) for (int d = -4; d <= 4; ++d) for (int neg = 0; neg < (std::is_signed_v<T> ? 2 : 1); ++neg) { const __int128 n = (neg ? -1 : 1) * ((__int128(1) << b) + d); if (n >= __int128(std::numeric_limits<T>::min()) && n <= __int128(std::numeric_limits<T>::max())) vs.push_back(T(n)); }
    const T t = x.pick(vs); x.go(); routes(x, std::is_signed_v<T> ? i64(int64_t(t)) : u64(uint64_t(t)), t); }
PART("integers") { switch (x.choose(11)) { case 0: return integers<char>(x); case 1: return integers<signed char>(x); case 2: return integers<unsigned char>(x); case 3: return integers<short>(x); case 4: return integers<unsigned short>(x); case 5: return integers<int>(x); case 6: return integers<unsigned>(x); case 7: return integers<long>(x); case 8: return integers<unsigned long>(x); case 9: return integers<long long>(x); default: return integers<unsigned long long>(x); } }
PART("bools") { const bool b = x.flip(); x.go(); routes(x, boolean(b), b); }
PART("nulls") { x.go(); routes(x, null(), nullptr); same(x, null(), z::dyn::Value(), "an empty dynamic value"); same(x, null(), z::dyn::Value(z::dyn::Null{}), "a dynamic null"); }
PART("doubles") { static const uint64_t M[] = {0, 1, 0x8000000000000, 0xfffffffffffff, 0x10000000, 0xfffffff000000}; uint64_t e = x.choose(2048), m = M[x.choose(6)], s = x.choose(2); x.go(); const uint64_t b = s << 63 | e << 52 | m; if (e == 0x7ff && m && !(m >> 51)) throw mc::Prune{}; routes(x, dbl(std::bit_cast<double>(b)), std::bit_cast<double>(b)); }
PART("floats") { static const uint32_t M[] = {0, 1, 0x400000, 0x7fffff, 0x1234, 0x555555}; uint32_t e = uint32_t(x.choose(256)), m = M[x.choose(6)], s = uint32_t(x.choose(2)); x.go(); if (e == 255 && m && !(m >> 22)) throw mc::Prune{}; const float f = std::bit_cast<float>(s << 31 | e << 23 | m);
    routes(x, dbl(double(f)), f); }
static std::string text(size_t n, size_t kind) { std::string s = fill(n, unsigned(n)); if (kind == 1 && n) s[0] = 0; if (kind == 2 && n) s[n / 2] = 0; if (kind == 3 && n) s[n - 1] = 0; if (kind == 4) for (char& c : s) c = 0; if (kind == 5 && n) s[n / 2] = '\xff'; return s; }
PART("texts") { // as std::string, as a view of part of a larger text, as a C string, as a view with no data
    static const std::vector<size_t> N = [] { std::vector<size_t> v; for (size_t n = 0; n < 40; ++n) v.push_back(n); for (size_t n : {63, 64, 255, 256, 257, 4095, 65535, 65536}) v.push_back(n); return v; }(); const size_t n = x.pick(N), kind = x.choose(6), form = x.choose(4); x.go(); const std::string s = text(n, kind), around = "<" + s + ">";
    if (form == 0) routes(x, str(s), s); else if (form == 1) routes(x, str(s), std::string_view(around).substr(1, n)); else if (form == 2) { if (s.find('\0') != s.npos) throw mc::Prune{}; routes(x, str(s), static_cast<const char*>(s.c_str())); } else { if (n) throw mc::Prune{}; routes(x, str(""), std::string_view()); } }
PART("blobs") { const size_t n = x.choose(x.thorough ? 400 : 70), kind = x.choose(6), form = x.choose(4); x.go(); const std::string s = text(n, kind), around = "<" + s + ">"; const auto whole = as_bytes(around); const std::span<const std::byte> part = std::span<const std::byte>(whole).subspan(1, n);
    if (form == 0) routes(x, blob(s), std::vector<std::byte>(part.begin(), part.end())); else if (form == 1) routes(x, blob(s), part); else if (form == 2) { x.op(); z::dyn::Value v = z::dyn::Value::blob(part); same(x, blob(s), v, "a dynamic blob"); same(x, blob(s), z::dyn::Value(z::dyn::Binary{std::vector<std::byte>(part.begin(), part.end())}), "a dynamic Binary"); same(x, arr({blob(s), blob(s)}), z::zvec(v, auto(v)), "a copied dynamic blob"); }
    else { if (n) throw mc::Prune{}; routes(x, blob(""), std::span<const std::byte>()); } }
PART("keys") { // keys of run-time maps keep every byte
    const size_t n = x.choose(x.thorough ? 200 : 45), kind = x.choose(6); x.go(); const std::string s = text(n, kind); const Val w = map({{s, i64(1)}}); same(x, w, std::map<std::string, int>{{s, 1}}, "a map"); same(x, w, std::unordered_map<std::string, int>{{s, 1}}, "an unordered map"); same(x, w, z::dyn::map({{s, 1}}), "a dynamic map"); z::dyn::Value::Map m; m.emplace_back(s, 1); m.emplace_back(s + "x", nullptr); same(x, map({{s, i64(1)}, {s + "x", null()}}), z::dyn::Value::map(m), "a dynamic map"); x.outcome(show(w)); }
int main(int c, char** v) { return mc::run_main(c, v, "C12"); }
