#include "cbref.hpp"
#include <zerialize/translate.hpp>
using namespace ref;
using D = z::CBOR::Deserializer;
template<class T> static constexpr bool fits(const Val& v) { if (v.k == Int && v.i < 0) return std::is_signed_v<T> && v.i >= int64_t(std::numeric_limits<T>::min()); const uint64_t u = v.k == Int ? uint64_t(v.i) : v.u; return u <= uint64_t(std::numeric_limits<T>::max()); }
template<class T, class F> static void num(mc::X& x, const Val& v, F f, const char* w) { x.op(); T g{}; const bool t = raises([&]{ g = f(); }); if (fits<T>(v) == t) x.fail(std::string(w) + (t ? " refused " : " accepted out-of-range ") + show(v)); if (!t && g != T(v.k == Int ? uint64_t(v.i) : v.u)) x.fail(std::string(w) + " returned another value for " + show(v)); }
// full observation: kinds, value, every refused accessor
struct Obs {
    mc::X& x; const mc::Bytes* mem; std::string path;
    [[noreturn]] void bad(const std::string& w, const Val& v) { x.fail("at $" + path + ": " + w + " for " + show(v)); }
    void run(const Val& v, const D& r, bool chunked) {
        const bool in = v.k == Int || v.k == UInt, neg = v.k == Int && v.i < 0; const bool big = v.k == UInt && v.u > uint64_t(INT64_MAX);
        const bool got[9] = { r.isNull(), r.isBool(), r.isInt(), r.isUInt(), r.isFloat(), r.isString(), r.isBlob(), r.isArray(), r.isMap() }; const bool want[9] = { v.k == Null, v.k == Bool, in && !big, in && !neg, v.k == Dbl, v.k == Str, v.k == Blob, v.k == Arr, v.k == Map };
        x.op(9); for (int j = 0; j < 9; ++j) { if (in && (j == 2 || j == 3)) { if (got[j] && !want[j]) bad("integer test", v); continue; } if (got[j] != want[j]) bad("type test " + std::to_string(j), v); } if (in && !got[2] && !got[3]) bad("no integer test", v);
        auto no = [&](bool allowed, auto f, const char* w) { if (allowed) return; x.op(); if (!raises([&]{ (void)f(); })) bad(std::string(w) + " answered", v); };
        no(v.k == Bool, [&]{ return r.asBool(); }, "asBool"); no(in, [&]{ return r.asInt64(); }, "asInt64"); no(in, [&]{ return r.asInt8(); }, "asInt8"); no(in, [&]{ return r.asUInt64(); }, "asUInt64"); no(in, [&]{ return r.asUInt32(); }, "asUInt32"); no(v.k == Dbl, [&]{ return r.asDouble(); }, "asDouble"); no(v.k == Dbl, [&]{ return r.asFloat(); }, "asFloat"); no(v.k == Str, [&]{ return r.asString(); }, "asString"); no(v.k == Str, [&]{ return r.asStringView(); }, "asStringView"); no(v.k == Blob, [&]{ return r.asBlob(); }, "asBlob"); no(v.k == Blob, [&]{ return r.asBlobVec(); }, "asBlobVec"); no(v.k == Arr, [&]{ return r.arraySize(); }, "arraySize"); no(v.k == Arr, [&]{ return r[size_t(0)]; }, "[0]"); no(v.k == Map, [&]{ return r.mapKeys(); }, "mapKeys"); no(v.k == Map, [&]{ return r["k"]; }, "lookup");
        if (v.k != Map && r.contains("k")) bad("contains() true", v);
        switch (v.k) {
            case Null: break; case Bool: if (r.asBool() != v.b) bad("asBool", v); break;
            case Int: case UInt: num<int8_t>(x, v, [&]{ return r.asInt8(); }, "asInt8"); num<int16_t>(x, v, [&]{ return r.asInt16(); }, "asInt16"); num<int32_t>(x, v, [&]{ return r.asInt32(); }, "asInt32"); num<int64_t>(x, v, [&]{ return r.asInt64(); }, "asInt64"); num<uint8_t>(x, v, [&]{ return r.asUInt8(); }, "asUInt8"); num<uint16_t>(x, v, [&]{ return r.asUInt16(); }, "asUInt16"); num<uint32_t>(x, v, [&]{ return r.asUInt32(); }, "asUInt32"); num<uint64_t>(x, v, [&]{ return r.asUInt64(); }, "asUInt64"); break;
            case Dbl: { const double g = r.asDouble(), d = std::bit_cast<double>(v.d); if (std::isnan(d) ? !std::isnan(g) : std::bit_cast<uint64_t>(g) != v.d) bad("asDouble", v); break; }
            case Str: { if (r.asString() != v.s) bad("asString", v); std::string_view s; if (!raises([&]{ s = r.asStringView(); })) { if (s != v.s || (mem && !mem->holds(s.data(), s.size()))) bad("asStringView", v); } else if (!chunked) bad("asStringView refused", v); break; }
            case Blob: { auto b = r.asBlobVec(); if (b.size() != v.s.size() || (b.size() && std::memcmp(b.data(), v.s.data(), b.size()))) bad("asBlobVec", v); std::span<const std::byte> s; if (!raises([&]{ s = r.asBlob(); })) { if (s.size() != v.s.size() || (s.size() && std::memcmp(s.data(), v.s.data(), s.size()))) bad("asBlob", v); } else if (!chunked) bad("asBlob refused", v); break; }
            case Arr: { if (r.arraySize() != v.a.size()) bad("arraySize", v); for (size_t i : {v.a.size(), v.a.size() + 1, size_t(1) << 32, ~size_t(0)}) no(false, [&]{ return r[i]; }, "index out of range"); for (size_t j = 0; j < v.a.size(); ++j) { const size_t k = path.size(); path += "[" + std::to_string(j) + "]"; run(v.a[j], r[j], chunked); path.resize(k); } break; }
            case Map: { for (int twice = 0; twice < 2; ++twice) { size_t n = 0; for (std::string_view k : r.mapKeys()) { if (n >= v.keys.size() || k != v.keys[n]) bad("key listing", v); ++n; } if (n != v.keys.size()) bad("key listing short", v); }
                auto ks = r.mapKeys(); std::vector<std::string> col; for (auto it = ks.begin(); it != ks.end();) { auto c = it++; col.emplace_back(*c); } if (col != v.keys) bad("key listing by post-increment", v);
                for (size_t j = 0; j < v.a.size(); ++j) { if (!r.contains(v.keys[j])) bad("contains() false", v); const size_t k = path.size(); path += "." + v.keys[j]; run(v.a[j], r[std::string_view(v.keys[j])], chunked); path.resize(k); for (auto& q : {v.keys[j] + "x", v.keys[j] + std::string(1, '\0'), v.keys[j].substr(0, v.keys[j].size() / 2)}) if (std::find(v.keys.begin(), v.keys.end(), q) == v.keys.end()) { if (r.contains(q)) bad("contains() true for an absent key", v); no(false, [&]{ return r[std::string_view(q)]; }, "absent key"); } } break; }
        }
    }
};
static void see(mc::X& x, const Val& v, const cb::Out& o, bool chunked) {
    mc::Bytes m(o); D d(m.span()); Obs{x, &m, {}}.run(v, d, chunked);
    x.op(); (void)d.to_string();
    if (x.want_sample()) x.sample(mc::hex(o, 60) + " = " + show(v)); x.outcome(mc::hex(o, 60));
}
static std::vector<Val> ctx_leaves() { std::vector<Val> r; for (auto& v : leaves()) r.push_back(v); r.push_back(arr()); r.push_back(map()); r.push_back(dbl(65504)); r.push_back(dbl(-2.5)); r.push_back(dbl(5.960464477539063e-08)); r.push_back(dbl(1e-40)); return r; }
static const std::vector<Val>& L() { static const auto v = ctx_leaves(); return v; }
static Val wrap(const Val& v, size_t c) { switch (c) { case 0: return v; case 1: return arr({v}); case 2: return map({{"k", v}}); case 3: return arr({str("p"), v, i64(-7)}); case 4: return map({{"a", v}, {"", arr({v})}, {"zz", boolean(true)}}); default: return arr({map({{"x", arr({v, v})}}), v}); } }
PART("all-forms") { auto& v = L()[x.choose(L().size())]; size_t c = x.choose(2); x.go(); cb::Out o; Val w = wrap(v, c); cb::enc(w, o, [&](size_t n) { return x.choose(n); }, v.s.size() < 40); see(x, w, o, true); }
PART("all-map-forms") { // every header form of a map, its key and its value, the value's text in the shortest form
    auto& v = L()[x.choose(L().size())]; x.go(); cb::Out o; const bool ind = x.flip(); if (ind) o.push_back(0xbf); else cb::head(o, 5, 2, [&](size_t n) { return x.choose(n); }); auto ch = [&](size_t n) { return x.choose(n); }; cb::text(o, 3, "k", ch, false); cb::enc(v, o, ch, false); const bool kc = x.flip(); cb::text(o, 3, "other", [&](size_t n) { return kc && n == 4 ? 3 : 0; }, true); o.push_back(0x18); o.push_back(99); if (ind) o.push_back(0xff); see(x, map({{"k", v}, {"other", u64(99)}}), o, true); }
PART("mixed-forms") { auto& v = L()[x.choose(L().size())]; size_t c = x.choose(3) + 3; size_t s = x.choose(x.thorough ? 30 : 12); x.go(); size_t k = 0; cb::Out o; Val w = wrap(v, c); cb::enc(w, o, [&](size_t n) { k += 1 + (s / 5) * (k % 3); return s == 0 ? 0 : s == 1 ? n - 1 : (k * (s % 5 + 1) + s) % n; }, true); see(x, w, o, true); }
PART("small-trees") { static const std::vector<Val> al = {null(), i64(-1), u64(24), dbl(1.5), str("ab"), blob("q")}; int b = x.thorough ? 5 : 4; Val v = tree(x, al, b, 3); x.go(); size_t s = x.choose(6); size_t k = 0; cb::Out o; cb::enc(v, o, [&](size_t n) { ++k; return s == 0 ? 0 : s == 1 ? n - 1 : s == 2 ? k % n : s == 3 ? (k + 1) % n : s == 4 ? (k / 2) % n : (n > 1 ? 1 : 0); }, true); see(x, v, o, true); }
PART("integers") { int k = int(x.choose(65)); x.go(); int64_t d = int64_t(x.choose(9)) - 4; const uint64_t u = (k == 64 ? 0 : 1ull << k) + uint64_t(d); bool neg = x.flip(); Val v = neg ? (u > uint64_t(INT64_MAX) ? i64(INT64_MIN + (d < 0 ? -d : d)) : i64(-int64_t(u))) : u64(u); cb::Out o; cb::enc(v, o, [&](size_t n) { return x.choose(n); }, false); see(x, v, o, false); }
PART("negative-beyond") { // negative integers below INT64_MIN are well-formed CBOR: every accessor must refuse
    static const uint64_t N[] = {1ull << 63, (1ull << 63) + 1, 0xfffffffffffffffeull, ~0ull, 0xc000000000000000ull}; uint64_t n = N[x.choose(5)]; size_t pos = x.choose(3); x.go(); cb::Out o; if (pos == 1) o.push_back(0x81); if (pos == 2) { o.push_back(0xa1); o.push_back(0x61); o.push_back('k'); } o.push_back(0x3b); cb::be(o, n, 8); mc::Bytes m(o); D d0(m.span()); D d = pos == 1 ? d0[size_t(0)] : pos == 2 ? d0["k"] : d0;
    auto no = [&](auto f) { x.op(); if (!raises([&]{ (void)f(); })) x.fail("an integer below INT64_MIN was answered"); }; no([&]{ return d.asInt8(); }); no([&]{ return d.asInt16(); }); no([&]{ return d.asInt32(); }); no([&]{ return d.asInt64(); }); no([&]{ return d.asUInt8(); }); no([&]{ return d.asUInt16(); }); no([&]{ return d.asUInt32(); }); no([&]{ return d.asUInt64(); }); no([&]{ return d.asDouble(); }); if (d.isUInt()) x.fail("isUInt for a negative integer"); (void)d0.to_string(); }
PART("halves") { unsigned hi = unsigned(x.choose(256)); x.go(); for (unsigned lo = 0; lo < 256; ++lo) { const uint16_t h = uint16_t(hi << 8 | lo); const uint8_t b[] = {0xf9, uint8_t(hi), uint8_t(lo)}; mc::Bytes m(b); D d(m.span()); x.op(2); const uint64_t w = cb::half_bits(h); const double g = d.asDouble(); if (!d.isFloat() || d.isNull() || d.isInt()) x.fail("half float kind"); if (std::isnan(std::bit_cast<double>(w)) ? !std::isnan(g) : std::bit_cast<uint64_t>(g) != w) x.fail("half " + mc::hex(b)); } }
PART("singles") { unsigned e = unsigned(x.choose(256)); bool s = x.flip(); x.go(); for (uint32_t f : {0u, 1u, 2u, 0x3fffffu, 0x400000u, 0x400001u, 0x7ffffeu, 0x7fffffu, 0x123456u}) { const uint32_t b = uint32_t(s) << 31 | e << 23 | f; cb::Out o = {0xfa}; cb::be(o, b, 4); mc::Bytes m(o); D d(m.span()); x.op(2); const float w = std::bit_cast<float>(b); const double g = d.asDouble(); if (!d.isFloat()) x.fail("kind"); if (std::isnan(w) ? !std::isnan(g) : !(g == double(w) && std::signbit(g) == std::signbit(w))) x.fail("single " + mc::hex(o)); if (!std::isnan(w) && d.asFloat() != w) x.fail("asFloat " + mc::hex(o)); } }
PART("doubles") { uint64_t e = x.choose(2048); x.go(); bool s = x.flip(); for (uint64_t f : {0ull, 1ull, 0x8000000000000ull, 0xfffffffffffffull, 0x5555555555555ull}) { Val v = dbl_bits(uint64_t(s) << 63 | e << 52 | f); cb::Out o = {0xfb}; cb::be(o, v.d, 8); mc::Bytes m(o); D d(m.span()); x.op(); if (std::bit_cast<uint64_t>(d.asDouble()) != v.d && !(e == 2047 && f && std::isnan(d.asDouble()))) x.fail("double " + mc::hex(o)); } }
PART("lengths") { auto& ls = lengths(x.thorough); size_t n = ls[x.choose(ls.size())]; x.go(); if (n > 140000) throw mc::Prune{}; size_t kind = x.choose(3); size_t w = x.choose(3); Val v = kind == 0 ? str(fill(n, 1)) : kind == 1 ? blob(fill(n, 2)) : map({{fill(n, 3), i64(1)}, {"q", i64(2)}}); cb::Out o; cb::enc(v, o, [&](size_t k) { return w == 0 ? 0 : w == 1 ? k - 1 : k / 2; }, true); see(x, v, o, true); }
PART("counts") { size_t n = x.choose(300); size_t big = 0; if (n == 299) n = 65535 + (big = x.choose(3)); size_t kind = x.choose(2); size_t w = x.choose(3); x.go(); Val v = kind ? map() : arr(); if (kind && n > 300) throw mc::Prune{}; for (size_t j = 0; j < n; ++j) { v.a.push_back(u64(j % 7)); if (kind) v.keys.push_back("k" + std::to_string(j)); } cb::Out o; cb::enc(v, o, [&](size_t k) { return w == 0 ? 0 : w == 1 ? k - 1 : k / 2; }, false);
    if (n < 70) { see(x, v, o, false); return; } mc::Bytes m(o); D d(m.span()); x.op(4); if (kind) { size_t c = 0; for (auto k : d.mapKeys()) { if (k != v.keys[c]) x.fail("key listing"); ++c; } if (c != n) x.fail("count"); for (size_t j : {size_t(0), n / 2, n - 1}) if (d[std::string_view(v.keys[j])].asUInt64() != v.a[j].u) x.fail("lookup"); if (d.contains("k" + std::to_string(n))) x.fail("absent key"); } else { if (d.arraySize() != n) x.fail("arraySize"); for (size_t j : {size_t(0), size_t(23), n / 2, n - 1}) if (d[j].asUInt64() != v.a[j].u) x.fail("element"); if (!raises([&]{ (void)d[n]; })) x.fail("index n"); } }
static void roundtrip(mc::X& x, const Val& v, bool nanok = false) { auto e = encode<z::CBOR>(v); auto end = cb::skip(e, 0); if (!end || *end != e.size()) x.fail("writer produced malformed CBOR " + mc::hex(e)); see(x, v, e, false); D own{std::vector<uint8_t>(e)}; Obs{x, nullptr, {}}.run(v, own, false); }
PART("depth") { size_t d = levels()[x.choose(levels().size())]; size_t pat = x.choose(3); size_t s = x.choose(7); if (d > 130 && (pat != 2 || s > 3)) throw mc::Prune{}; x.go(); const Val w = nested(pat, d, str(fill(24, 1))); size_t k = 0; cb::Out o; cb::enc(w, o, [&](size_t n) { ++k; return s == 0 ? 0 : s == 1 ? n - 1 : (k * (s % 5 + 1) + s) % n; }, true); see(x, w, o, true); }
PART("sized-siblings") { // every header width (and indefinite forms) around values of every header size, siblings after them
    size_t n = x.pick(header_sizes()), k = x.choose(SIZED), c = x.choose(AROUND), s = x.choose(6); x.go(); if (n > 300 && !x.thorough && (s > 2 || c > 3)) throw mc::Prune{}; size_t q = 0; const Val v = around(c, sized(k, n)); cb::Out o; cb::enc(v, o, [&](size_t m) { ++q; return s == 0 ? 0 : s == 1 ? m - 1 : s == 2 ? q % m : s == 3 ? (m > 1 ? 1 : 0) : s == 4 ? (m > 2 ? m - 2 : 0) : (q / 3) % m; }, true); mc::Bytes b(o); D d(b.span()); Mode md; md.ints = 2; md.cross = true; sparse(x, v, d, md); }
PART("write-sized-siblings") { size_t n = x.pick(header_sizes()), k = x.choose(SIZED), c = x.choose(AROUND); x.go(); const Val v = around(c, sized(k, n)); auto e = encode<z::CBOR>(v); auto end = cb::skip(e, 0); if (!end || *end != e.size()) x.fail("writer produced malformed CBOR"); mc::Bytes b(e); D d(b.span()); Mode md; md.ints = 2; sparse(x, v, d, md); }
static bool utf8(const Val& v) { return v.s.find('\xff') == std::string::npos; }
PART("write-leaves") { auto& v = L()[x.choose(L().size())]; size_t c = x.choose(6); x.go(); if (!utf8(v) && v.k == Str) throw mc::Prune{}; roundtrip(x, wrap(v, c)); }
PART("write-depth") { size_t d = levels()[x.choose(levels().size())]; size_t pat = x.choose(3); x.go(); roundtrip(x, nested(pat, d, str(fill(24, 1)))); }
PART("write-trees") { static const std::vector<Val> al = {null(), i64(-25), u64(UINT64_MAX), dbl(0.1), dbl(0.5), str("ab"), str(fill(24, 1)), blob("q"), blob("")}; int b = x.thorough ? 5 : 4; Val v = tree(x, al, b, 3); x.go(); roundtrip(x, v); }
PART("write-integers") { int k = int(x.choose(65)); x.go(); int64_t d = int64_t(x.choose(9)) - 4; const uint64_t u = (k == 64 ? 0 : 1ull << k) + uint64_t(d); roundtrip(x, u64(u)); roundtrip(x, i64(int64_t(u))); roundtrip(x, i64(int64_t(0 - u))); }
PART("write-none") { x.go(); typename z::CBOR::RootSerializer rs; auto b = rs.finish(); auto e = copy_of(b); see(x, null(), e, false); }
template<class P> static void across(mc::X& x, const Val& v) { auto e = encode<P>(v); typename P::Deserializer s{std::vector<uint8_t>(e)}; auto c = z::translate<z::CBOR>(s); x.op(); Mode m = mode_of<z::CBOR>(); m.ordered = false; m.ints = 2; compare(x, v, c, m); auto back = z::translate<P>(c); m.cross = false; compare(x, v, back, m); }
PART("translate") { auto& v = L()[x.choose(L().size())]; size_t c = x.choose(6); size_t p = x.choose(3); x.go(); if ((!utf8(v) && v.k == Str)) throw mc::Prune{}; Val w = wrap(v, c); if (p == 0) across<z::Zera>(x, w); else if (p == 1) across<z::MsgPack>(x, w); else across<z::Flex>(x, w); }
PART("translate-forms") { auto& v = L()[x.choose(L().size())]; size_t c = x.choose(6); size_t s = x.choose(4); x.go(); size_t k = 0; Val w = wrap(v, c); cb::Out o; cb::enc(w, o, [&](size_t n) { ++k; return s == 0 ? 0 : s == 1 ? n - 1 : s == 2 ? k % n : (n > 1 ? 1 : 0); }, false); mc::Bytes m(o); D d(m.span()); auto t = z::translate<z::Zera>(d); x.op(); Mode mo; mo.ints = 2; mo.cross = false; compare(x, w, t, mo); }
PART("chunked-keys-translate") { // keys may be chunked: a temporary key view must survive the lookup it feeds
    size_t n = x.choose(4); std::vector<size_t> f; cb::Out o = {uint8_t(0xa0 | n)}; Val v = map(); const bool ind = x.flip(); if (ind) o[0] = 0xbf; for (size_t j = 0; j < n; ++j) { std::string k = j == 0 ? "key-zero-quite-long-so-it-is-on-the-heap" : j == 1 ? "b" : ""; v.keys.push_back(k); v.a.push_back(u64(j)); size_t form = x.choose(4); bool firstc = true; cb::text(o, 3, k, [&](size_t m) { if (firstc) { firstc = false; return std::min(form, m - 1); } return size_t(j % 2 ? m - 1 : 0); }, true); o.push_back(uint8_t(j)); } x.go(); if (ind) o.push_back(0xff); mc::Bytes m(o); D d(m.span()); see(x, v, o, true); auto t = z::translate<z::Zera>(d); Mode mo; mo.ints = 2; mo.cross = false; compare(x, v, t, mo); }
PART("ownership") { // every way of opening, and copies, moves and sub-values after the source is gone
    static const Val v = map({{"a", arr({i64(1), str("two"), blob("three")})}, {"b", map({{"c", dbl(0.1)}})}}); size_t how = x.choose(6); size_t then = x.choose(6); x.go(); auto e = encode<z::CBOR>(v); auto src = std::make_unique<std::vector<uint8_t>>(e); std::unique_ptr<D> d;
    switch (how) { case 0: d = std::make_unique<D>(*src); break; case 1: d = std::make_unique<D>(std::move(*src)); break; case 2: d = std::make_unique<D>(std::span<const uint8_t>(e)); break; case 3: d = std::make_unique<D>(e.data(), e.size()); break; case 4: d = std::make_unique<D>(reinterpret_cast<const std::byte*>(e.data()), e.size()); break; case 5: d = std::make_unique<D>(); *d = D(*src); break; }
    if (how == 0 || how == 5) { std::fill(src->begin(), src->end(), 0xff); } src.reset(); std::unique_ptr<D> r;
    switch (then) { case 0: r = std::move(d); break; case 1: r = std::make_unique<D>(*d); d.reset(); break; case 2: r = std::make_unique<D>(std::move(*d)); d.reset(); break; case 3: r = std::make_unique<D>(std::vector<uint8_t>{0x01}); *r = *d; d.reset(); break; case 4: r = std::make_unique<D>(std::vector<uint8_t>{0x01}); *r = std::move(*d); d.reset(); break; case 5: { D& self = *d; *d = self; r = std::move(d); break; } }
    Obs{x, nullptr, {}}.run(v, *r, false); }
int main(int c, char** v) { return mc::run_main(c, v, "C21"); }
