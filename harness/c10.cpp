#include "mpref.hpp"
#include <msgpack.h>
#include <flatbuffers/flexbuffers.h>
#include <zerialize/translate.hpp>
using namespace ref;
namespace fx = flexbuffers;
// ---- independent decoders: msgpack-c and the FlexBuffers reader/verifier
static std::string under(const msgpack_object& o, const Val& v) {
    auto bytes = [&](const char* p, size_t n) { return n == v.s.size() && (n == 0 || !std::memcmp(p, v.s.data(), n)); };
    switch (v.k) {
        case Null: return o.type == MSGPACK_OBJECT_NIL ? "" : "not nil"; case Bool: return o.type == MSGPACK_OBJECT_BOOLEAN && o.via.boolean == v.b ? "" : "bool differs";
        case Int: if (v.i < 0) return o.type == MSGPACK_OBJECT_NEGATIVE_INTEGER && o.via.i64 == v.i ? "" : "negative integer differs"; return o.type == MSGPACK_OBJECT_POSITIVE_INTEGER && o.via.u64 == uint64_t(v.i) ? "" : "integer differs";
        case UInt: return o.type == MSGPACK_OBJECT_POSITIVE_INTEGER && o.via.u64 == v.u ? "" : "unsigned integer differs";
        case Dbl: return (o.type == MSGPACK_OBJECT_FLOAT64 || o.type == MSGPACK_OBJECT_FLOAT32) && std::bit_cast<uint64_t>(o.via.f64) == v.d ? "" : "double differs";
        case Str: return o.type == MSGPACK_OBJECT_STR && bytes(o.via.str.ptr, o.via.str.size) ? "" : "string differs"; case Blob: return o.type == MSGPACK_OBJECT_BIN && bytes(o.via.bin.ptr, o.via.bin.size) ? "" : "blob differs";
        case Arr: if (o.type != MSGPACK_OBJECT_ARRAY || o.via.array.size != v.a.size()) return "array size differs"; for (size_t j = 0; j < v.a.size(); ++j) { auto r = under(o.via.array.ptr[j], v.a[j]); if (!r.empty()) return "[" + std::to_string(j) + "] " + r; } return "";
        case Map: if (o.type != MSGPACK_OBJECT_MAP || o.via.map.size != v.a.size()) return "map size differs"; for (size_t j = 0; j < v.a.size(); ++j) { auto& kv = o.via.map.ptr[j]; if (kv.key.type != MSGPACK_OBJECT_STR || std::string(kv.key.via.str.ptr, kv.key.via.str.size) != v.keys[j]) return "key differs"; auto r = under(kv.val, v.a[j]); if (!r.empty()) return "." + v.keys[j] + " " + r; } return "";
    } return "?";
}
static std::string under(fx::Reference o, const Val& v) {
    switch (v.k) {
        case Null: return o.IsNull() ? "" : "not null"; case Bool: return o.IsBool() && o.AsBool() == v.b ? "" : "bool differs"; case Int: return o.IsInt() && o.AsInt64() == v.i ? "" : "int differs"; case UInt: return o.IsUInt() && o.AsUInt64() == v.u ? "" : "uint differs"; case Dbl: return o.IsFloat() && std::bit_cast<uint64_t>(o.AsDouble()) == v.d ? "" : "double differs";
        case Str: { if (!o.IsString()) return "not a string"; auto s = o.AsString(); return s.length() == v.s.size() && !std::memcmp(s.c_str(), v.s.data(), v.s.size()) && s.c_str()[s.length()] == 0 ? "" : "string differs or is not terminated"; } case Blob: { if (!o.IsBlob()) return "not a blob"; auto b = o.AsBlob(); return b.size() == v.s.size() && (b.size() == 0 || !std::memcmp(b.data(), v.s.data(), b.size())) ? "" : "blob differs"; }
        case Arr: { if (!o.IsVector() || o.IsMap()) return "not a vector"; auto a = o.AsVector(); if (a.size() != v.a.size()) return "size differs"; for (size_t j = 0; j < v.a.size(); ++j) { auto r = under(a[j], v.a[j]); if (!r.empty()) return "[" + std::to_string(j) + "] " + r; } return ""; }
        case Map: { if (!o.IsMap()) return "not a map"; auto m = o.AsMap(); if (m.size() != v.a.size()) return "map size differs"; auto ks = m.Keys(); for (size_t j = 1; j < ks.size(); ++j) if (std::strcmp(ks[j - 1].AsKey(), ks[j].AsKey()) >= 0) return "keys not sorted"; for (size_t j = 0; j < v.a.size(); ++j) { auto r = under(m[v.keys[j].c_str()], v.a[j]); if (!r.empty()) return "." + v.keys[j] + " " + r; } return ""; }
    } return "?";
}
static bool fx_ok(const uint8_t* p, size_t n, std::vector<uint8_t>& seen) { fx::Verifier v(p, n, &seen, true, 2000); return v.VerifyBuffer(); } // the verifier's usual limit is 64 levels
static size_t levels_of(const Val& v) { size_t d = 0; for (auto& c : v.a) d = std::max(d, levels_of(c)); return d + 1; }
static void written(mc::X& x, const Val& v) {
    if (levels_of(v) <= 30) { // msgpack-c follows 32 levels
      auto e = encode<z::MsgPack>(v); x.op(); msgpack_unpacked u; msgpack_unpacked_init(&u); size_t off = 0; mc::Bytes m(e); auto rc = msgpack_unpack_next(&u, reinterpret_cast<const char*>(m.p), m.n, &off); std::string r = rc == MSGPACK_UNPACK_SUCCESS && off == m.n ? under(u.data, v) : "refused by msgpack-c or bytes left over"; msgpack_unpacked_destroy(&u); if (!r.empty()) x.fail("MsgPack " + show(v) + ": " + r + " bytes=" + mc::hex(e)); auto s = mp::skip(e, 0); if (!s || *s != e.size()) x.fail("MsgPack bytes malformed"); if (x.want_sample()) x.sample(mc::hex(e, 50)); x.outcome(mc::hex(e, 60)); }
    else { auto e = encode<z::MsgPack>(v); x.op(); auto s = mp::skip(e, 0); if (!s || *s != e.size()) x.fail("MsgPack bytes malformed"); }
    { auto e = encode<z::Flex>(v); x.op(); mc::Bytes m(e); std::vector<uint8_t> seen; if (!fx_ok(m.p, m.n, seen)) x.fail("Flex " + show(v) + ": the FlexBuffers verifier refuses the bytes"); auto r = under(fx::GetRoot(m.p, m.n), v); if (!r.empty()) x.fail("Flex " + show(v) + ": " + r); x.outcome("f" + mc::hex(e, 60)); }
}
static Val wrap(const Val& v, size_t c) { switch (c) { case 0: return v; case 1: return arr({v}); case 2: return map({{"k", v}}); case 3: return arr({str("p"), v, i64(-7)}); case 4: return map({{"a", v}, {"", arr({v})}, {"zz", boolean(true)}}); default: return arr({map({{"x", arr({v, v})}}), v}); } }
PART("written-leaves") { auto& v = leaves()[x.choose(leaves().size())]; size_t c = x.choose(6); x.go(); written(x, wrap(v, c)); }
PART("written-pairs") { auto& a = leaves()[x.choose(leaves().size())]; x.go(); auto& b = leaves()[x.choose(leaves().size())]; written(x, arr({a, b})); written(x, map({{"b", a}, {"a", b}})); }
PART("written-trees") { int b = x.thorough ? 6 : 5; static const std::vector<Val> al = {null(), i64(-1), u64(200), dbl(0.1), str("abc"), blob("qq")}; Val v = tree(x, al, b, 3); x.go(); written(x, v); }
PART("written-integers") { int k = int(x.choose(65)); x.go(); for (int64_t d = -3; d <= 3; ++d) { const uint64_t u = (k == 64 ? 0 : 1ull << k) + uint64_t(d); written(x, u64(u)); written(x, i64(int64_t(u))); written(x, arr({i64(int64_t(0 - u)), u64(u)})); } }
PART("written-lengths") { auto& ls = lengths(x.thorough); size_t n = ls[x.choose(ls.size())]; x.go(); written(x, str(fill(n, 1))); written(x, blob(fill(n, 2))); if (n < 70000) written(x, map({{fill(n, 3), i64(1)}, {"b", arr({str(fill(n, 4))})}})); }
PART("written-counts") { static const std::vector<size_t> N = [] { std::vector<size_t> n; for (size_t i = 0; i < 300; ++i) n.push_back(i); for (size_t i : {65534, 65535, 65536, 65537}) n.push_back(i); return n; }(); size_t n = N[x.choose(N.size())]; bool m = x.flip(); x.go(); Val v = m ? map() : arr(); for (size_t j = 0; j < n; ++j) { v.a.push_back(u64(j % 300)); if (m) { char k[16]; std::snprintf(k, sizeof k, "k%06zu", j); v.keys.push_back(k); } } written(x, v); }
PART("written-depth") { size_t d = levels()[x.choose(levels().size())]; size_t pat = x.choose(3); x.go(); written(x, nested(pat, d, str(fill(33, 1)))); }
PART("written-doubles") { uint64_t e = x.choose(2048); x.go(); for (uint64_t s : {0ull, 1ull}) for (uint64_t f : {0ull, 1ull, 0x8000000000000ull, 0xfffffffffffffull, 0x8000020000000ull}) { if (e == 2047 && f && !(f >> 51)) continue; written(x, dbl_bits(s << 63 | e << 52 | f)); } }
// ---- foreign producers
static void foreign_mp(mc::X& x, const Val& v, const mp::Out& o) { mc::Bytes m(o); x.op(); z::MsgPack::Deserializer d(m.span()); Mode md = mode_of<z::MsgPack>(); md.backing = &m; if (v.k == Map || v.k == Arr) md.ints = 2; else md.ints = 2; compare(x, v, d, md); if (x.want_sample()) x.sample(mc::hex(o, 50) + " = " + show(v)); x.outcome(mc::hex(o, 60)); }
PART("mp-all-forms") { auto& v = leaves()[x.choose(leaves().size())]; size_t c = x.choose(3); x.go(); mp::Out o; Val w = wrap(v, c); mp::enc(w, o, [&](size_t n) { return x.choose(n); }); foreign_mp(x, w, o); }
PART("mp-mixed-forms") { auto& v = leaves()[x.choose(leaves().size())]; size_t c = x.choose(3) + 3; size_t s = x.choose(12); x.go(); size_t k = 0; mp::Out o; Val w = wrap(v, c); mp::enc(w, o, [&](size_t n) { k += 1 + (s / 5) * (k % 3); return s == 0 ? 0 : s == 1 ? n - 1 : (k * (s % 5 + 1) + s) % n; }); foreign_mp(x, w, o); }
PART("mp-trees") { int b = x.thorough ? 6 : 5; static const std::vector<Val> al = {null(), i64(-1), u64(5), dbl(1.5), str("abc"), blob("qq")}; Val v = tree(x, al, b, 3); x.go(); size_t s = x.choose(4); size_t k = 0; mp::Out o; mp::enc(v, o, [&](size_t n) { ++k; return s == 0 ? n - 1 : s == 1 ? k % n : s == 2 ? (k + 1) % n : (n > 1 ? 1 : 0); }); foreign_mp(x, v, o); }
PART("mp-depth") { size_t d = levels()[x.choose(levels().size())]; size_t pat = x.choose(3); size_t s = x.choose(7); x.go(); const Val w = nested(pat, d, str(fill(33, 1))); size_t k = 0; mp::Out o; mp::enc(w, o, [&](size_t n) { ++k; return s == 0 ? 0 : s == 1 ? n - 1 : (k * (s % 5 + 1) + s) % n; }); foreign_mp(x, w, o); }
PART("mp-counts") { static const std::vector<size_t> N = [] { std::vector<size_t> n; for (size_t i = 0; i < 40; ++i) n.push_back(i); for (size_t i : {255, 256, 257, 65535, 65536}) n.push_back(i); return n; }(); size_t n = N[x.choose(N.size())]; bool m = x.flip(); size_t s = x.choose(3); x.go(); if (n > 1000 && m) throw mc::Prune{}; Val v = m ? map() : arr(); for (size_t j = 0; j < n; ++j) { v.a.push_back(u64(j % 3)); if (m) v.keys.push_back("k" + std::to_string(j)); } mp::Out o; mp::enc(v, o, [&](size_t q) { return s == 0 ? 0 : s == 1 ? q - 1 : q / 2; }); if (n < 300) { foreign_mp(x, v, o); return; } mc::Bytes mem(o); z::MsgPack::Deserializer d(mem.span()); if (d.arraySize() != n || d[n - 1].asUInt64() != (n - 1) % 3 || !raises([&]{ (void)d[n]; })) x.fail("large array"); }
PART("mp-singles") { unsigned e = unsigned(x.choose(256)); x.go(); for (uint32_t s : {0u, 1u}) for (uint32_t f : {0u, 1u, 0x3fffffu, 0x400000u, 0x7fffffu, 0x123456u}) { const uint32_t b = s << 31 | e << 23 | f; mp::Out o = {0xca}; mp::be(o, b, 4); mc::Bytes m(o); z::MsgPack::Deserializer d(m.span()); x.op(); const float w = std::bit_cast<float>(b); const double g = d.asDouble(); if (!d.isFloat()) x.fail("kind"); if (std::isnan(w) ? !std::isnan(g) : !(g == double(w) && std::signbit(g) == std::signbit(w))) x.fail("single " + mc::hex(o)); if (!std::isnan(w) && d.asFloat() != w) x.fail("asFloat " + mc::hex(o)); } }
// FlexBuffers' own builder, using every form it offers
static void fxput(fx::Builder& b, const Val& v, size_t form) {
    switch (v.k) {
        case Null: b.Null(); break; case Bool: b.Bool(v.b); break; case Int: if (form % 2) b.IndirectInt(v.i); else b.Int(v.i); break; case UInt: if (form % 2) b.IndirectUInt(v.u); else b.UInt(v.u); break;
        case Dbl: { double d = std::bit_cast<double>(v.d); float f = float(d); const bool sf = std::bit_cast<uint64_t>(double(f)) == v.d; if (form % 4 == 1 && !sf) b.IndirectDouble(d); /* FlexBuffers itself writes float-exact values wrongly here */ else if (form % 4 == 2 && sf) b.Float(f); else if (form % 4 == 3 && sf) b.IndirectFloat(f); else b.Double(d); break; }
        case Str: b.String(v.s); break; case Blob: b.Blob(v.s.data(), v.s.size()); break;
        case Arr: { auto s = b.StartVector(); for (auto& c : v.a) fxput(b, c, form); b.EndVector(s, false, false); break; }
        case Map: { auto s = b.StartMap(); for (size_t j = 0; j < v.a.size(); ++j) { b.Key(v.keys[j]); fxput(b, v.a[j], form); } b.EndMap(s); break; }
    }
}
static void foreign_fx(mc::X& x, const Val& v, const std::vector<uint8_t>& o) { std::vector<uint8_t> seen; if (!fx_ok(o.data(), o.size(), seen)) x.fail("harness: verifier refuses the foreign buffer"); mc::Bytes m(o); x.op(); z::Flex::Deserializer d(m.span()); Mode md = mode_of<z::Flex>(); md.backing = &m; compare(x, v, d, md); (void)d.to_string(); auto t = z::translate<z::Zera>(d); Mode zm; zm.ordered = false; zm.ints = 0; compare(x, v, t, zm); if (x.want_sample()) x.sample(mc::hex(o, 50) + " = " + show(v)); x.outcome("f" + mc::hex(o, 60)); }
static fx::BuilderFlag FL(size_t f) { static const fx::BuilderFlag F[] = {fx::BUILDER_FLAG_NONE, fx::BUILDER_FLAG_SHARE_KEYS, fx::BUILDER_FLAG_SHARE_STRINGS, fx::BUILDER_FLAG_SHARE_ALL}; return F[f]; }
PART("fx-forms") { auto& v = leaves()[x.choose(leaves().size())]; size_t c = x.choose(6); size_t fl = x.choose(4), form = x.choose(4), w = x.choose(4); x.go(); Val q = wrap(v, c); fx::Builder b(256, FL(fl)); b.ForceMinimumBitWidth(fx::BitWidth(w)); fxput(b, q, form); b.Finish(); foreign_fx(x, q, b.GetBuffer()); }
PART("fx-depth") { size_t d = levels()[x.choose(levels().size())]; size_t pat = x.choose(3); size_t fl = x.choose(4), w = x.choose(4); x.go(); const Val q = nested(pat, d, str(fill(33, 1))); fx::Builder b(256, FL(fl)); b.ForceMinimumBitWidth(fx::BitWidth(w)); fxput(b, q, 0); b.Finish(); foreign_fx(x, q, b.GetBuffer()); }
PART("fx-trees") { int n = x.thorough ? 6 : 5; static const std::vector<Val> al = {null(), boolean(true), i64(-1), u64(70000), dbl(1.5), str("abc")}; Val v = tree(x, al, n, 3); x.go(); size_t s = x.choose(4); fx::Builder b(256, FL(s)); b.ForceMinimumBitWidth(fx::BitWidth(s)); fxput(b, v, s); b.Finish(); foreign_fx(x, v, b.GetBuffer()); }
template<class T> static Val num(T t) { if constexpr (std::is_same_v<T, bool>) return boolean(t); else if constexpr (std::is_floating_point_v<T>) return dbl(double(t)); else if constexpr (std::is_signed_v<T>) return i64(t); else return u64(t); }
template<class T> static std::vector<T> nums(size_t n, size_t pat) { std::vector<T> r; for (size_t j = 0; j < n; ++j) { T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max(); if (std::is_floating_point_v<T>) { r.push_back(T(pat == 0 ? double(j) : pat == 1 ? -0.5 - double(j) : double(hi))); continue; } r.push_back(pat == 0 ? T(j) : pat == 1 ? (j % 2 ? lo : hi) : T(hi - T(j))); } return r; }
template<class T> static void typed(mc::X& x, size_t n, size_t pat, size_t ctx, bool fixed) {
    auto v = nums<T>(n, pat); fx::Builder b; size_t outer = 0; if (ctx == 1) { outer = b.StartVector(); b.String("before"); } if (ctx == 2) { outer = b.StartMap(); b.Key("a"); b.Int(1); b.Key("v"); }
    if (fixed) b.FixedTypedVector(v.data(), v.size()); else b.Vector(v.data(), v.size());
    if (ctx == 1) { b.Bool(true); b.EndVector(outer, false, false); } if (ctx == 2) b.EndMap(outer); b.Finish(); Val a = arr(); for (auto t : v) a.a.push_back(num<T>(t)); Val q = ctx == 0 ? a : ctx == 1 ? arr({str("before"), a, boolean(true)}) : map({{"a", i64(1)}, {"v", a}}); foreign_fx(x, q, b.GetBuffer());
}
PART("mp-sized-siblings") { // every header width around values of every header size, siblings after them
    size_t n = x.pick(header_sizes()), k = x.choose(SIZED), c = x.choose(AROUND), s = x.choose(5); x.go(); size_t q = 0; const Val v = around(c, sized(k, n)); mp::Out o; mp::enc(v, o, [&](size_t m) { ++q; return s == 0 ? 0 : s == 1 ? m - 1 : s == 2 ? q % m : s == 3 ? (m > 1 ? 1 : 0) : (m > 2 ? m - 2 : 0); }); mc::Bytes b(o); z::MsgPack::Deserializer d(b.span()); Mode md = mode_of<z::MsgPack>(); md.ints = 2; sparse(x, v, d, md); }
PART("fx-sized-siblings") { size_t n = x.pick(header_sizes()), k = x.choose(SIZED), c = x.choose(AROUND), fl = x.choose(2), w = x.choose(2); x.go(); if (n > 300 && (c == 4 || c == 5)) throw mc::Prune{}; const Val v = around(c, sized(k, n)); fx::Builder b(256, FL(fl * 3)); b.ForceMinimumBitWidth(fx::BitWidth(w * 3)); fxput(b, v, 0); b.Finish(); mc::Bytes m(b.GetBuffer()); z::Flex::Deserializer d(m.span()); sparse(x, v, d, mode_of<z::Flex>()); }
PART("fx-typed") { size_t t = x.choose(10); static const size_t N[] = {0, 1, 2, 3, 4, 5, 17, 255, 256, 300}; size_t n = N[x.choose(10)]; size_t pat = x.choose(3), ctx = x.choose(3); const bool fixed = x.flip(); x.go(); if ((fixed && (n < 2 || n > 4)) || (n > 255 && (t == 0 || t == 4))) throw mc::Prune{}; switch (t) { case 0: typed<int8_t>(x, n, pat, ctx, fixed); break; case 1: typed<int16_t>(x, n, pat, ctx, fixed); break; case 2: typed<int32_t>(x, n, pat, ctx, fixed); break; case 3: typed<int64_t>(x, n, pat, ctx, fixed); break; case 4: typed<uint8_t>(x, n, pat, ctx, fixed); break; case 5: typed<uint16_t>(x, n, pat, ctx, fixed); break; case 6: typed<uint32_t>(x, n, pat, ctx, fixed); break; case 7: typed<uint64_t>(x, n, pat, ctx, fixed); break; case 8: typed<float>(x, n, pat, ctx, fixed); break; default: typed<double>(x, n, pat, ctx, fixed); } }
PART("fx-typed-element-by-element") { // vectors typed through EndVector(typed=true): ints, uints, floats, bools
    size_t kind = x.choose(4); size_t n = x.choose(7); bool fixed = x.flip(); size_t pat = x.choose(3); x.go(); if (fixed && (n < 2 || n > 4 || kind == 3)) throw mc::Prune{}; if (n == 0) throw mc::Prune{}; fx::Builder b; auto s = b.StartVector(); Val a = arr(); for (size_t j = 0; j < n; ++j) { const uint64_t big = pat == 0 ? j : pat == 1 ? 300 + j : (1ull << 40) + j; if (kind == 0) { b.Int(-int64_t(big)); a.a.push_back(i64(-int64_t(big))); } else if (kind == 1) { b.UInt(big); a.a.push_back(u64(big)); } else if (kind == 2) { b.Double(double(big) + 0.1); a.a.push_back(dbl(double(big) + 0.1)); } else { b.Bool(j % 2); a.a.push_back(boolean(j % 2)); } } b.EndVector(s, true, fixed); b.Finish(); foreign_fx(x, a, b.GetBuffer()); }
PART("fx-shared") { // repeated keys and strings stored once
    size_t fl = x.choose(4); size_t n = x.choose(5) + 1; x.go(); Val v = arr(); for (size_t j = 0; j < n; ++j) v.a.push_back(map({{"name", str("same")}, {"id", u64(j)}, {"tag", str("same")}})); fx::Builder b(256, FL(fl)); fxput(b, v, 0); b.Finish(); foreign_fx(x, v, b.GetBuffer()); }
int main(int c, char** v) { return mc::run_main(c, v, "C10"); }
