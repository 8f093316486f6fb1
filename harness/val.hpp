// The reference model of a document: a plain value tree, with an ADL serialize() (so it is itself a
// user-defined type for the library) and an observer-by-observer comparison against any Reader.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <bit>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <set>
#include <map>
#include <zerialize/zerialize.hpp>
#ifndef NO_STD_PROTOCOLS
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <zerialize/protocols/flex.hpp>
#endif

namespace ref {
namespace z = zerialize;

enum K : uint8_t { Null, Bool, Int, UInt, Dbl, Str, Blob, Arr, Map };
struct Val {
    K k = Null; bool b = false; int64_t i = 0; uint64_t u = 0; uint64_t d = 0; // d: double bits
    std::string s;                       // string or blob bytes
    std::vector<Val> a;                  // array elements, or map values
    std::vector<std::string> keys;       // map keys, parallel to a
    bool operator==(const Val&) const = default;
};
inline Val null() { return {}; }
inline Val boolean(bool b) { Val v; v.k = Bool; v.b = b; return v; }
inline Val i64(int64_t i) { Val v; v.k = Int; v.i = i; return v; }
inline Val u64(uint64_t u) { Val v; v.k = UInt; v.u = u; return v; }
inline Val dbl_bits(uint64_t d) { Val v; v.k = Dbl; v.d = d; return v; }
inline Val dbl(double d) { return dbl_bits(std::bit_cast<uint64_t>(d)); }
inline Val str(std::string s) { Val v; v.k = Str; v.s = std::move(s); return v; }
inline Val blob(std::string s) { Val v; v.k = Blob; v.s = std::move(s); return v; }
inline Val arr(std::vector<Val> a = {}) { Val v; v.k = Arr; v.a = std::move(a); return v; }
inline Val map(std::vector<std::pair<std::string, Val>> m = {}) { Val v; v.k = Map; for (auto& [k, c] : m) { v.keys.push_back(k); v.a.push_back(std::move(c)); } return v; }
// deterministic filler bytes: position-dependent, so shifted or swapped data is visible
inline std::string fill(size_t n, unsigned salt = 0) { std::string s(n, 0); for (size_t j = 0; j < n; ++j) { unsigned h = unsigned(j * 131u + (j >> 8) * 17u + salt * 29u + 7u); s[j] = char('!' + h % 90); } return s; }

inline std::span<const std::byte> as_bytes(const std::string& s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size()}; }

template<class W> void emit(const Val& v, W& w) {
    switch (v.k) {
        case Null: w.null(); break;
        case Bool: w.boolean(v.b); break;
        case Int: w.int64(v.i); break;
        case UInt: w.uint64(v.u); break;
        case Dbl: w.double_(std::bit_cast<double>(v.d)); break;
        case Str: w.string(v.s); break;
        case Blob: w.binary(as_bytes(v.s)); break;
        case Arr: w.begin_array(v.a.size()); for (auto& c : v.a) emit(c, w); w.end_array(); break;
        case Map: w.begin_map(v.a.size()); for (size_t j = 0; j < v.a.size(); ++j) { w.key(v.keys[j]); emit(v.a[j], w); } w.end_map(); break;
    }
}
template<z::Writer W> void serialize(const Val& v, W& w) { emit(v, w); }

inline std::string show(const Val& v, int depth = 0) {
    char b[64];
    if (depth > 6) return "...";
    switch (v.k) {
        case Null: return "null";
        case Bool: return v.b ? "true" : "false";
        case Int: return "i" + std::to_string(v.i);
        case UInt: return "u" + std::to_string(v.u);
        case Dbl: std::snprintf(b, sizeof b, "d%016llx", (unsigned long long)v.d); return b;
        case Str: case Blob: { std::string o = v.k == Str ? "s" : "b"; o += std::to_string(v.s.size()); if (v.s.size() <= 16) { o += ':'; for (unsigned char c : v.s) { std::snprintf(b, sizeof b, "%02x", c); o += b; } } return o; }
        case Arr: { std::string o = "["; for (size_t j = 0; j < v.a.size() && j < 6; ++j) o += (j ? "," : "") + show(v.a[j], depth + 1); if (v.a.size() > 6) o += ",..#" + std::to_string(v.a.size()); return o + "]"; }
        case Map: { std::string o = "{"; for (size_t j = 0; j < v.a.size() && j < 6; ++j) { std::string k; for (unsigned char c : v.keys[j].substr(0, 12)) { if (c > 32 && c < 127) k += char(c); else { std::snprintf(b, sizeof b, "\\x%02x", c); k += b; } } o += (j ? "," : "") + k + ":" + show(v.a[j], depth + 1); } if (v.a.size() > 6) o += ",..#" + std::to_string(v.a.size()); return o + "}"; }
    }
    return "?";
}

// ---- what each protocol promises beyond the common reader surface -----------------------------------
struct Mode {
    bool ordered = true;        // map order preserved
    int ints = 0;               // 0 strict kind, 1 MsgPack-like (non-negative ints may be either), 2 value only (after translation)
    bool cross = true;          // opposite-signedness accessors work when representable
    bool predicates = true;     // check the full predicate vector
    const mc::Bytes* backing = nullptr; // if set, views must lie inside
};
template<class P> Mode mode_of();
#ifndef NO_STD_PROTOCOLS
template<> inline Mode mode_of<z::Zera>() { return {true, 0, true}; }
template<> inline Mode mode_of<z::MsgPack>() { return {true, 1, true}; }
template<> inline Mode mode_of<z::Flex>() { return {false, 0, false}; }
#endif

// Runs f; returns true if it raised the library's read error; any other exception propagates (= violation).
template<class F> bool raises(F&& f) { try { f(); } catch (const z::DeserializationError&) { return true; } return false; }

struct Cmp {
    mc::X& x; Mode m; std::string path;
    [[noreturn]] void bad(const std::string& w) { x.fail("at $" + path.substr(0, 200) + ": " + w); }
    void req(bool ok, const char* w) { x.op(); if (!ok) bad(w); }

    template<class R> void preds(const R& r, K k, int intkind) { // intkind: bit0 isInt allowed/required..., see below
        const bool p[9] = { r.isNull(), r.isBool(), r.isInt(), r.isUInt(), r.isFloat(), r.isString(), r.isBlob(), r.isArray(), r.isMap() };
        static const char* nm[9] = { "isNull","isBool","isInt","isUInt","isFloat","isString","isBlob","isArray","isMap" };
        bool want[9] = { k==Null, k==Bool, false, false, k==Dbl, k==Str, k==Blob, k==Arr, k==Map };
        for (int j = 0; j < 9; ++j) {
            if (j == 2 || j == 3) { if (k != Int && k != UInt && p[j]) bad(std::string(nm[j]) + " true for a non-integer"); continue; }
            if (p[j] != want[j]) bad(std::string(nm[j]) + (p[j] ? " true" : " false") + " for a value of another kind");
        }
        x.op(9);
        if (k == Int || k == UInt) {
            if (intkind == 0) { if (p[2] != (k == Int) || p[3] != (k == UInt)) bad("integer predicate does not match the written signedness"); }
            else if (!p[2] && !p[3]) bad("neither isInt nor isUInt for an integer");
        }
    }

    template<class R> void run(const Val& v, const R& r) {
        // integers whose signedness may be re-expressed
        const bool nonneg = v.k == UInt || (v.k == Int && v.i >= 0);
        int ik = m.ints;
        if (ik == 1 && v.k == Int && v.i < 0) ik = 0;              // negative: signed only
        if (m.predicates) preds(r, v.k, ik);
        switch (v.k) {
            case Null: break;
            case Bool: req(r.asBool() == v.b, "asBool differs"); break;
            case Int: case UInt: {
                const bool fits_i = v.k == Int || v.u <= uint64_t(INT64_MAX);
                const int64_t iv = v.k == Int ? v.i : int64_t(v.u); const uint64_t uv = v.k == Int ? uint64_t(v.i) : v.u;
                const bool pi = r.isInt(), pu = r.isUInt();
                if (pi) { if (!fits_i) bad("isInt for a value above INT64_MAX"); req(r.asInt64() == iv, "asInt64 differs"); }
                if (pu) { if (!nonneg) bad("isUInt for a negative value"); req(r.asUInt64() == uv, "asUInt64 differs"); }
                if (m.cross) {
                    if (fits_i) req(r.asInt64() == iv, "asInt64 differs"); else req(raises([&]{ (void)r.asInt64(); }), "asInt64 of a value above INT64_MAX did not raise");
                    if (nonneg) req(r.asUInt64() == uv, "asUInt64 differs"); else req(raises([&]{ (void)r.asUInt64(); }), "asUInt64 of a negative value did not raise");
                }
                break; }
            case Dbl: { req(std::bit_cast<uint64_t>(r.asDouble()) == v.d, "double bits differ"); 
                const double d = std::bit_cast<double>(v.d); const float f = r.asFloat();
                if (std::isnan(d)) req(std::isnan(f), "asFloat of NaN is not NaN"); else if (std::fabs(d) <= 3.4028234e38 || std::isinf(d)) req(f == static_cast<float>(d), "asFloat differs");
                break; }
            case Str: {
                auto sv = r.asStringView(); req(sv == v.s, "string differs"); req(r.asString() == v.s, "asString differs");
                if (m.backing) req(m.backing->holds(sv.data(), sv.size()), "string view outside the buffer");
                break; }
            case Blob: {
                auto bl = r.asBlob(); const std::span<const std::byte> sp(std::data(bl), std::size(bl));
                req(sp.size() == v.s.size() && (sp.empty() || std::memcmp(sp.data(), v.s.data(), sp.size()) == 0), "blob differs");
                if (m.backing) req(m.backing->holds(sp.data(), sp.size()), "blob view outside the buffer");
                break; }
            case Arr: {
                req(r.arraySize() == v.a.size(), "array size differs");
                const size_t keep = path.size();
                for (size_t j = 0; j < v.a.size(); ++j) { if (path.size() < 200) path += "[" + std::to_string(j) + "]"; auto c = r[j]; run(v.a[j], c); path.resize(keep); }
                break; }
            case Map: {
                size_t n = 0; std::vector<std::string> got;
                for (std::string_view k : r.mapKeys()) { got.emplace_back(k); if (m.backing && !m.backing->holds(k.data(), k.size())) bad("key view outside the buffer"); if (++n > v.a.size()) bad("too many keys listed"); }
                auto want = v.keys;
                if (!m.ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
                req(got == want, "listed keys differ");
                const size_t keep = path.size();
                for (size_t j = 0; j < v.a.size(); ++j) {
                    if (path.size() < 200) path += "." + v.keys[j].substr(0, 20);
                    req(r.contains(v.keys[j]), "contains() false for a stored key");
                    auto c = r[std::string_view(v.keys[j])]; run(v.a[j], c); path.resize(keep);
                }
                break; }
        }
    }
};
template<class R> void compare(mc::X& x, const Val& v, const R& r, Mode m) { Cmp c{x, m, {}}; c.run(v, r); }

// ---- alphabets ---------------------------------------------------------------------------------------
inline const std::vector<Val>& leaves() {
    static const std::vector<Val> L = [] {
        std::vector<Val> v;
        v.push_back(null()); v.push_back(boolean(true)); v.push_back(boolean(false));
        for (int64_t i : {int64_t(0), int64_t(1), int64_t(-1), int64_t(-32), int64_t(-33), int64_t(127), int64_t(128), int64_t(-128), int64_t(-129), int64_t(300), int64_t(32767), int64_t(-32769), int64_t(65536), int64_t(INT32_MAX), int64_t(INT32_MIN) - 1, int64_t(1) << 32, INT64_MAX, INT64_MIN}) v.push_back(i64(i));
        for (uint64_t u : {uint64_t(0), uint64_t(127), uint64_t(128), uint64_t(255), uint64_t(256), uint64_t(65535), uint64_t(65536), uint64_t(UINT32_MAX), uint64_t(1) << 32, uint64_t(1) << 63, UINT64_MAX}) v.push_back(u64(u));
        for (uint64_t d : {0x0ull, 0x8000000000000000ull, 0x3ff8000000000000ull, 0x3fb999999999999aull, 0x7ff8000000000001ull, 0xfff8000000000bedull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x1ull, 0x7fefffffffffffffull, 0xc059000000000000ull}) v.push_back(dbl_bits(d));
        v.push_back(str("")); v.push_back(str("a")); v.push_back(str(fill(12, 1))); v.push_back(str(fill(13, 2))); v.push_back(str(std::string("x\0y", 3))); v.push_back(str(fill(31, 3))); v.push_back(str(fill(32, 4))); v.push_back(str(fill(255, 5))); v.push_back(str(fill(256, 6))); v.push_back(str("\xc3\xa9\xff\x80"));
        v.push_back(blob("")); v.push_back(blob(std::string("\0", 1))); v.push_back(blob(fill(15, 7))); v.push_back(blob(fill(16, 8))); v.push_back(blob(fill(17, 9))); v.push_back(blob(fill(256, 10)));
        return v; }();
    return L;
}
// one representative per storage class: used where triples or trees are enumerated
inline const std::vector<Val>& few() {
    static const std::vector<Val> L = { null(), boolean(true), i64(-1), i64(INT64_MIN), u64(200), u64(UINT64_MAX), dbl(0.1), str(""), str("abc"), str(fill(13, 1)), str(fill(40, 2)), blob(""), blob(fill(3, 3)), blob(fill(17, 4)), arr(), map() };
    return L;
}
// all trees with at most `budget` nodes over leaf alphabet `al`; map keys k0,k1,...
inline Val tree(mc::X& x, const std::vector<Val>& al, int& budget, int width) {
    --budget;
    const size_t maxw = size_t(std::max(0, std::min(budget, width)));
    // leaf choices, then arrays of size 0..maxw, then maps of size 0..maxw
    size_t c = x.choose(al.size() + 2 * (maxw + 1));
    if (c < al.size()) return al[c];
    c -= al.size();
    Val v; v.k = c <= maxw ? Arr : Map; const size_t n = c <= maxw ? c : c - maxw - 1;
    budget -= int(n); // reserve one node per child
    for (size_t j = 0; j < n; ++j) { ++budget; v.a.push_back(tree(x, al, budget, width)); if (v.k == Map) v.keys.push_back(std::string(1, char('c' - char(j))) + (j == 1 ? "kk" : "")); }
    return v;
}
inline std::vector<uint8_t> copy_of(const z::ZBuffer& b) { auto s = b.buf(); return {s.begin(), s.end()}; }
template<class P> std::vector<uint8_t> encode(const Val& v) { return copy_of(z::serialize<P>(v)); }

// lengths around every storage-class boundary
inline const std::vector<size_t>& lengths(bool thorough) {
    auto mk = [](size_t dense, std::vector<size_t> around, size_t r) { std::set<size_t> s; for (size_t i = 0; i <= dense; ++i) s.insert(i); for (auto a : around) for (size_t d = 0; d <= 2 * r; ++d) s.insert(a + d - r); return std::vector<size_t>(s.begin(), s.end()); };
    static const std::vector<size_t> q = mk(600, {1024, 2048, 4096, 8192, 16384, 32768, 65536, 65536 + 16, 131072}, 3);
    static const std::vector<size_t> t = mk(5000, {8192, 16384, 32768, 65536, 131072, 262144, 1 << 20, 1 << 24}, 20);
    return thorough ? t : q;
}
// ---- values whose size sits on every header boundary, with siblings after them ------------------------
// nesting depths at which a counter of levels could wrap or a limit bite; and a document that deep with a sibling at each level
inline const std::vector<size_t>& levels() { static const std::vector<size_t> n = [] { std::vector<size_t> v; for (size_t i = 1; i <= 40; ++i) v.push_back(i); for (size_t i : {63, 64, 65, 79, 80, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 258, 300, 399, 400}) v.push_back(i); return v; }(); return n; }
inline Val nested(size_t pat, size_t d, Val v) { for (size_t j = 0; j < d; ++j) { const bool m = pat == 0 ? false : pat == 1 ? true : bool(j % 2); v = m ? map({{"k", std::move(v)}, {"s", u64(j)}}) : arr({u64(j), std::move(v)}); } return v; }
inline const std::vector<size_t>& header_sizes() { static const std::vector<size_t> n = {0, 1, 2, 7, 8, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537}; return n; }
inline constexpr size_t SIZED = 6, AROUND = 6;
inline Val sized(size_t kind, size_t n) {
    Val v;
    switch (kind) {
        case 0: return str(fill(n, 1));
        case 1: return blob(fill(n, 2));
        case 2: v = arr(); for (size_t j = 0; j < n; ++j) v.a.push_back(u64(j % 5)); return v;
        case 3: v = map(); for (size_t j = 0; j < n; ++j) { v.keys.push_back("k" + std::to_string(j)); v.a.push_back(u64(j % 5)); } return v;
        case 4: v = arr(); for (size_t j = 0; j < n; ++j) v.a.push_back(j % 2 ? str("abc") : arr({i64(-1), null()})); return v;
        default: return map({{fill(n, 3), i64(1)}, {"~q", i64(2)}});
    }
}
inline Val around(size_t c, const Val& v) {
    switch (c) {
        case 0: return arr({v, i64(7), str("tail")});
        case 1: return map({{"a", v}, {"b", i64(7)}, {"c", str("tail")}});
        case 2: return arr({arr({i64(1), v, str("mid")}), i64(7)});
        case 3: return map({{"o", map({{"a", v}, {"in", u64(3)}})}, {"z", str("tail")}});
        case 4: return arr({v, v, i64(7)});
        default: return map({{"first", i64(1)}, {"a", v}, {"n", null()}, {"a2", v}, {"last", boolean(true)}});
    }
}
// compare() for large documents: everything about strings and blobs, listings and sizes in full, a spread of elements
template<class R> void sparse(mc::X& x, const Val& v, const R& r, Mode m, const std::string& path = "$") {
    auto req = [&](bool ok, const char* w) { x.op(); if (!ok) x.fail("at " + path.substr(0, 200) + ": " + w); };
    const size_t n = v.a.size(); std::set<size_t> at; if (n <= 8) for (size_t j = 0; j < n; ++j) at.insert(j); else at = {0, 1, n / 2, n - 2, n - 1};
    if (v.k == Arr) {
        req(r.isArray() && !r.isMap() && r.arraySize() == n, "array size differs");
        for (size_t j : at) sparse(x, v.a[j], r[j], m, path + "[" + std::to_string(j) + "]");
        req(raises([&]{ (void)r[n]; }), "index past the end answered");
    } else if (v.k == Map) {
        req(r.isMap() && !r.isArray(), "not a map"); std::vector<std::string> got; got.reserve(n); for (std::string_view k : r.mapKeys()) { got.emplace_back(k); if (got.size() > n) break; }
        if (m.ordered) req(got == v.keys, "listed keys differ"); else { auto want = v.keys; std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); req(got == want, "listed keys differ"); }
        for (size_t j : at) { const std::string& k = v.keys[j]; req(r.contains(k), "contains() false for a stored key"); sparse(x, v.a[j], r[std::string_view(k)], m, path + "." + k.substr(0, 12)); }
        for (const char* q : {"absent", "k99999999", "~"}) { req(!r.contains(q), "contains() true for an absent key"); req(raises([&]{ (void)r[std::string_view(q)]; }), "lookup of an absent key answered"); }
    } else if (v.k == Blob) {
        req(r.isBlob() && !r.isString(), "not a blob"); auto eq = [&](auto&& b) { return std::size(b) == v.s.size() && (v.s.empty() || !std::memcmp(std::data(b), v.s.data(), v.s.size())); };
        if constexpr (requires { r.asBlobVec(); }) req(eq(r.asBlobVec()), "blob differs"); else req(eq(r.asBlob()), "blob differs");
    } else if (v.k == Str) req(r.isString() && !r.isBlob() && r.asString() == v.s, "string differs");
    else { Mode q = m; q.backing = nullptr; compare(x, v, r, q); }
}
} // namespace ref
