#define NO_CB
#include "val.hpp"
#include <zerialize/protocols/json.hpp>
#include <zerialize/translate.hpp>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace ref;
using J = z::JSON; using D = J::Deserializer;
namespace ref { template<> inline Mode mode_of<z::JSON>() { return {true, 1, true}; } }
// Everything allocated by one execution must be released by its end.
struct Balance { mc::X& x; long docs = yystand::live_docs(); size_t bytes = __sanitizer_get_current_allocated_bytes(); int ex = std::uncaught_exceptions(); void done() { if (yystand::live_docs() != docs) x.fail("a yyjson document was leaked (or freed twice)"); size_t now = __sanitizer_get_current_allocated_bytes(); if (now != bytes) x.fail("memory leaked: " + std::to_string(long(now) - long(bytes)) + " bytes"); } };
template<class T> static constexpr bool fits(const Val& v) { if (v.k == Int && v.i < 0) return std::is_signed_v<T> && v.i >= int64_t(std::numeric_limits<T>::min()); const uint64_t u = v.k == Int ? uint64_t(v.i) : v.u; return u <= uint64_t(std::numeric_limits<T>::max()); }
template<class T, class F> static void num(mc::X& x, const Val& v, F f, const char* w) { x.op(); T g{}; const bool t = raises([&]{ g = f(); }); if (fits<T>(v) == t) x.fail(std::string(w) + (t ? " refused " : " accepted out-of-range ") + show(v)); if (!t && g != T(v.k == Int ? uint64_t(v.i) : v.u)) x.fail(std::string(w) + " returned another value for " + show(v)); }
struct Obs {
    mc::X& x; std::string path;
    [[noreturn]] void bad(const std::string& w, const Val& v) { x.fail("at $" + path + ": " + w + " for " + show(v)); }
    void run(const Val& v, const D& r) {
        const bool in = v.k == Int || v.k == UInt, neg = v.k == Int && v.i < 0; const bool big = v.k == UInt && v.u > uint64_t(INT64_MAX);
        const bool got[9] = { r.isNull(), r.isBool(), r.isInt(), r.isUInt(), r.isFloat(), r.isString(), r.isBlob(), r.isArray(), r.isMap() }; const bool want[9] = { v.k == Null, v.k == Bool, in && !big, in && !neg, v.k == Dbl, v.k == Str, v.k == Blob, v.k == Arr, v.k == Map };
        x.op(9); for (int j = 0; j < 9; ++j) { if (in && (j == 2 || j == 3)) { if (got[j] && !want[j]) bad("integer test", v); continue; } if (j == 7 && v.k == Blob) continue; if (got[j] != want[j]) bad("type test " + std::to_string(j), v); } if (in && !got[2] && !got[3]) bad("no integer test", v);
        auto no = [&](bool allowed, auto f, const char* w) { if (allowed) return; x.op(); if (!raises([&]{ (void)f(); })) bad(std::string(w) + " answered", v); };
        const bool arrish = v.k == Arr || v.k == Blob; // blobs are stored as a tagged array
        no(v.k == Bool, [&]{ return r.asBool(); }, "asBool"); no(in, [&]{ return r.asInt64(); }, "asInt64"); no(in, [&]{ return r.asInt8(); }, "asInt8"); no(in, [&]{ return r.asUInt64(); }, "asUInt64"); no(in, [&]{ return r.asUInt32(); }, "asUInt32"); no(v.k == Dbl, [&]{ return r.asDouble(); }, "asDouble"); no(v.k == Dbl, [&]{ return r.asFloat(); }, "asFloat"); no(v.k == Str, [&]{ return r.asString(); }, "asString"); no(v.k == Str, [&]{ return r.asStringView(); }, "asStringView"); no(v.k == Blob, [&]{ return r.asBlob(); }, "asBlob"); no(arrish, [&]{ return r.arraySize(); }, "arraySize"); no(arrish, [&]{ return r[size_t(0)].isNull(); }, "[0]"); no(v.k == Map, [&]{ return r.mapKeys(); }, "mapKeys"); no(v.k == Map, [&]{ return r["k"].isNull(); }, "lookup");
        if (v.k != Map && r.contains("k")) bad("contains() true", v);
        switch (v.k) {
            case Null: break; case Bool: if (r.asBool() != v.b) bad("asBool", v); break;
            case Int: case UInt: num<int8_t>(x, v, [&]{ return r.asInt8(); }, "asInt8"); num<int16_t>(x, v, [&]{ return r.asInt16(); }, "asInt16"); num<int32_t>(x, v, [&]{ return r.asInt32(); }, "asInt32"); num<int64_t>(x, v, [&]{ return r.asInt64(); }, "asInt64"); num<uint8_t>(x, v, [&]{ return r.asUInt8(); }, "asUInt8"); num<uint16_t>(x, v, [&]{ return r.asUInt16(); }, "asUInt16"); num<uint32_t>(x, v, [&]{ return r.asUInt32(); }, "asUInt32"); num<uint64_t>(x, v, [&]{ return r.asUInt64(); }, "asUInt64"); break;
            case Dbl: { const double g = r.asDouble(), d = std::bit_cast<double>(v.d); if (std::bit_cast<uint64_t>(g) != v.d) bad("asDouble", v); if (std::fabs(d) < 3.4e38 && r.asFloat() != float(d)) bad("asFloat", v); break; }
            case Str: if (r.asString() != v.s || r.asStringView() != v.s) bad("string", v); break;
            case Blob: { auto b = r.asBlob(); if (b.size() != v.s.size() || (b.size() && std::memcmp(b.data(), v.s.data(), b.size()))) bad("blob", v); break; }
            case Arr: { if (r.arraySize() != v.a.size()) bad("arraySize", v); for (size_t i : {v.a.size(), v.a.size() + 1, size_t(1) << 32, ~size_t(0)}) no(false, [&]{ return r[i].isNull(); }, "index out of range"); for (size_t j = 0; j < v.a.size(); ++j) { const size_t k = path.size(); path += "[" + std::to_string(j) + "]"; run(v.a[j], r[j]); path.resize(k); } break; }
            case Map: { for (int twice = 0; twice < 2; ++twice) { size_t n = 0; for (std::string_view k : r.mapKeys()) { if (n >= v.keys.size() || k != v.keys[n]) bad("key listing", v); ++n; } if (n != v.keys.size()) bad("key listing short", v); }
                auto ks = r.mapKeys(); std::vector<std::string> col; for (auto it = ks.begin(); it != ks.end();) { auto c = it++; col.emplace_back(*c); } if (col != v.keys) bad("key listing by post-increment", v);
                for (size_t j = 0; j < v.a.size(); ++j) { if (!r.contains(v.keys[j])) bad("contains() false", v); if (v.keys[j].empty() && !r.contains(std::string_view{})) bad("contains(empty view) false", v); const size_t k = path.size(); path += "." + v.keys[j]; run(v.a[j], r[std::string_view(v.keys[j])]); path.resize(k); for (auto& q : {v.keys[j] + "x", v.keys[j] + std::string(1, '\0'), v.keys[j].substr(0, v.keys[j].size() / 2)}) if (std::find(v.keys.begin(), v.keys.end(), q) == v.keys.end()) { if (r.contains(q)) bad("contains() true for an absent key", v); no(false, [&]{ return r[std::string_view(q)].isNull(); }, "absent key"); } } break; }
        }
    }
};
// Strings handed to the writer are freed right after each call: what the document needs it must have copied.
template<class W> static void emit_fragile(const Val& v, W& w) {
    auto tmp = [](const std::string& s) { return std::make_unique<mc::Bytes>(std::span<const uint8_t>(reinterpret_cast<const uint8_t*>(s.data()), s.size())); };
    auto sv = [](const mc::Bytes& b) { return std::string_view(reinterpret_cast<const char*>(b.p), b.n); };
    switch (v.k) {
        case Str: { auto t = tmp(v.s); w.string(sv(*t)); break; } case Blob: { auto t = tmp(v.s); w.binary({reinterpret_cast<const std::byte*>(t->p), t->n}); break; }
        case Arr: w.begin_array(v.a.size()); for (auto& c : v.a) emit_fragile(c, w); w.end_array(); break;
        case Map: w.begin_map(v.a.size()); for (size_t j = 0; j < v.a.size(); ++j) { { auto t = tmp(v.keys[j]); w.key(sv(*t)); } emit_fragile(v.a[j], w); } w.end_map(); break;
        default: emit(v, w);
    }
}
static std::vector<uint8_t> fragile(const Val& v) { J::RootSerializer rs; J::Serializer w(rs); emit_fragile(v, w); return copy_of(rs.finish()); }
static void rt(mc::X& x, const Val& v) {
    x.op(2);
    { Balance b{x}; { std::string smp; auto e = encode<J>(v); if (e != fragile(v)) x.fail("the same calls gave different text: " + show(v)); smp.assign(e.begin(), e.end()); mc::Bytes m(e); { D d(m.span()); std::memset(m.p, 'x', m.n); Obs{x, {}}.run(v, d); (void)d.to_string(); (void)d.to_string(false); } D t(std::string_view(smp.data(), smp.size())); Obs{x, {}}.run(v, t); D u(e.data(), e.size()); Obs{x, {}}.run(v, u); } b.done(); }
    if (x.want_sample()) x.sample(show(v)); x.outcome(show(v));
}
static bool ok_leaf(const Val& v) { if (v.k == Dbl) return std::isfinite(std::bit_cast<double>(v.d)); return !(v.k == Str && !yystand::utf8(v.s.data(), v.s.size())); }
static const std::vector<Val>& L() { static const auto v = [] { std::vector<Val> r; for (auto& l : leaves()) if (ok_leaf(l)) r.push_back(l); r.push_back(arr()); r.push_back(map()); r.push_back(str("\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80")); r.push_back(str("\"\\/\b\f\n\r\t\x01\x1f\x7f")); r.push_back(str("~b")); r.push_back(str("base64")); return r; }(); return v; }
static Val wrap(const Val& v, size_t c) { switch (c) { case 0: return v; case 1: return arr({v}); case 2: return map({{"k", v}}); case 3: return arr({str("p"), v, i64(-7)}); case 4: return map({{"a", v}, {"", arr({v})}, {"zz", boolean(true)}}); default: return arr({map({{"x", arr({v, v})}}), v}); } }
PART("leaves") { auto& v = L()[x.choose(L().size())]; size_t c = x.choose(6); x.go(); rt(x, wrap(v, c)); }
PART("pairs") { auto& a = L()[x.choose(L().size())]; x.go(); auto& b = L()[x.choose(L().size())]; rt(x, map({{"p", a}, {"q", arr({b, a})}})); }
PART("trees") { static const std::vector<Val> al = {null(), i64(-25), u64(UINT64_MAX), dbl(0.1), str("ab"), blob("qq"), blob("")}; int b = x.thorough ? 6 : 4; Val v = tree(x, al, b, 3); x.go(); rt(x, v); }
PART("integers") { int k = int(x.choose(65)); x.go(); int64_t d = int64_t(x.choose(9)) - 4; const uint64_t u = (k == 64 ? 0 : 1ull << k) + uint64_t(d); rt(x, u64(u)); rt(x, arr({i64(int64_t(u)), i64(int64_t(0 - u))})); }
PART("dense-integers") { int h = int(x.choose(66)); x.go(); for (int l = 0; l < (x.thorough ? 1024 : 64); ++l) { int64_t v = (int64_t(h) - 33) * 1024 + (x.thorough ? l : l * 16); Val m = i64(v); auto e = encode<J>(m); D d(e.data(), e.size()); num<int8_t>(x, m, [&]{ return d.asInt8(); }, "asInt8"); num<int16_t>(x, m, [&]{ return d.asInt16(); }, "asInt16"); num<uint8_t>(x, m, [&]{ return d.asUInt8(); }, "asUInt8"); num<uint16_t>(x, m, [&]{ return d.asUInt16(); }, "asUInt16"); } }
PART("doubles") { uint64_t e = x.choose(2047); x.go(); bool s = x.flip(); Val v = arr(); for (uint64_t f : {0ull, 1ull, 0x8000000000000ull, 0xfffffffffffffull, 0x5555555555555ull, 0x999999999999aull}) v.a.push_back(dbl_bits(uint64_t(s) << 63 | e << 52 | f)); rt(x, v); }
PART("whole-doubles") { int k = int(x.choose(64)); x.go(); Val v = arr(); for (int d = -2; d <= 2; ++d) { v.a.push_back(dbl(double(1ull << k) + d)); v.a.push_back(dbl(-(double(1ull << k) + d))); } rt(x, v); }
PART("blob-lengths") { size_t n = x.choose(x.thorough ? 2000 : 300); x.go(); size_t salt = x.choose(3); std::string s = fill(n, unsigned(salt)); if (salt == 1) for (auto& c : s) c = char(c * 37 + 128); if (salt == 2) std::fill(s.begin(), s.end(), '\xff'); rt(x, n % 2 ? blob(s) : map({{"b", blob(s)}, {"s", arr({blob(s)})}})); }
PART("blob-bytes") { size_t a = x.choose(256); x.go(); for (size_t n = 1; n <= 4; ++n) for (size_t at = 0; at < n; ++at) { std::string s(n, '\0'); s[at] = char(a); rt(x, blob(s)); } }
PART("code-points") { // every ASCII character and every UTF-8 length boundary, in strings and keys
    static const std::vector<uint32_t> cps = [] { std::vector<uint32_t> c; for (uint32_t i = 0; i < 0x180; ++i) c.push_back(i); for (uint32_t i : {0x7ffu, 0x800u, 0x801u, 0xfffu, 0x1000u, 0x2028u, 0x2029u, 0xd7ffu, 0xe000u, 0xfeffu, 0xfffdu, 0xffffu, 0x10000u, 0x1f600u, 0xfffffu, 0x10ffffu}) c.push_back(i); return c; }();
    uint32_t c = cps[x.choose(cps.size())]; x.go(); std::string s; if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); } else { s += char(0xf0 | c >> 18); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
    for (auto& q : {s, "a" + s, s + "b", s + s, "x" + s + "y" + s}) { rt(x, str(q)); rt(x, map({{q, str(q)}, {"other", i64(1)}})); rt(x, map({{"other", i64(1)}, {q, blob(q)}})); } }
PART("keys") { static const std::vector<std::string> K = {"", "a", "ab", "abc", "b", std::string("a\0", 2), std::string("a\0b", 3), std::string("\0", 1), "\"", "\\", "k\xc3\xa9", "~b", "base64"}; std::vector<size_t> p; size_t n = x.choose(4); Val v = map(); for (size_t j = 0; j < n; ++j) { size_t k = x.choose(K.size()); if (std::find(p.begin(), p.end(), k) != p.end()) throw mc::Prune{}; p.push_back(k); v.keys.push_back(K[k]); v.a.push_back(i64(int64_t(j))); if (j == 0) x.go(); } if (!n) x.go(); rt(x, v); }
PART("counts") { size_t n = x.choose(300); bool m = x.flip(); x.go(); Val v = m ? map() : arr(); for (size_t j = 0; j < n; ++j) { v.a.push_back(u64(j)); if (m) v.keys.push_back("k" + std::to_string(j)); } Balance b{x}; { auto e = encode<J>(v); D d(e.data(), e.size()); x.op(3); if (m) { size_t c = 0; for (auto k : d.mapKeys()) { if (k != v.keys[c]) x.fail("key order"); ++c; } if (c != n) x.fail("key count"); for (size_t j : {size_t(0), n / 2, n - 1}) if (n && d[std::string_view(v.keys[j])].asUInt64() != j) x.fail("lookup"); } else { if (d.arraySize() != n) x.fail("size"); for (size_t j : {size_t(0), n / 2, n - 1}) if (n && d[j].asUInt64() != j) x.fail("element"); if (!raises([&]{ (void)d[n].isNull(); })) x.fail("index n"); } } v = Val(); (void)b; }
PART("depth") { size_t d = levels()[x.choose(levels().size())]; size_t pat = x.choose(3); bool b = x.flip(); x.go(); rt(x, nested(pat, d, b ? blob("q") : str(fill(13, 1)))); }
PART("sized-siblings") { size_t n = x.pick(header_sizes()); if (n > 5000 && !x.thorough) throw mc::Prune{}; size_t k = x.choose(SIZED), c = x.choose(AROUND); x.go(); { const Val v = around(c, sized(k, n)); auto e = encode<J>(v); D d(e.data(), e.size()); Mode m; m.ints = 2; sparse(x, v, d, m); } }
PART("text") { // foreign JSON text: numbers, escapes, white space, and arrays that resemble the blob form without being it
    struct C { const char* t; Val v; }; static const std::vector<C> T = { {"0", u64(0)}, {"-1", i64(-1)}, {"18446744073709551615", u64(UINT64_MAX)}, {"9223372036854775807", u64(INT64_MAX)}, {"9223372036854775808", u64(1ull << 63)}, {"-9223372036854775808", i64(INT64_MIN)}, {"18446744073709551616", dbl(18446744073709551616.0)}, {"-9223372036854775809", dbl(-9223372036854775808.0)}, {"1e3", dbl(1000)}, {"1.0", dbl(1)}, {"-0.0", dbl(-0.0)}, {"0.1", dbl(0.1)}, {" [ 1 , 2 ] ", arr({u64(1), u64(2)})}, {"\t{ \"k\" :\n null }\r", map({{"k", null()}})}, {"\"\\u0041\\u00e9\\ud83d\\ude00\\/\"", str("A\xc3\xa9\xf0\x9f\x98\x80/")}, {"[]", arr()}, {"{}", map()}, {"[\"~b\",\"QUJD\",\"base64\"]", blob("ABC")}, {"[\"~b\",\"\",\"base64\"]", blob("")}, {"[ \"~b\" , \"QQ==\" , \"base64\" ]", blob("A")},
        {"[\"~b\",\"QUJD\"]", arr({str("~b"), str("QUJD")})}, {"[\"~b\",\"QUJD\",\"base64\",1]", arr({str("~b"), str("QUJD"), str("base64"), u64(1)})}, {"[\"~c\",\"QUJD\",\"base64\"]", arr({str("~c"), str("QUJD"), str("base64")})}, {"[\"~b\",\"QUJD\",\"base32\"]", arr({str("~b"), str("QUJD"), str("base32")})}, {"[\"~b\",5,\"base64\"]", arr({str("~b"), u64(5), str("base64")})}, {"[\"~b\",[\"QUJD\"],\"base64\"]", arr({str("~b"), arr({str("QUJD")}), str("base64")})}, {"[null,\"QUJD\",\"base64\"]", arr({null(), str("QUJD"), str("base64")})}, {"[\"~b\",\"QUJD\",null]", arr({str("~b"), str("QUJD"), null()})}, {"[\"~b\",\"QUJD\",64]", arr({str("~b"), str("QUJD"), u64(64)})}, {"[\"~bx\",\"QUJD\",\"base64\"]", arr({str("~bx"), str("QUJD"), str("base64")})}, {"[\"~\",\"QUJD\",\"base64\"]", arr({str("~"), str("QUJD"), str("base64")})}, {"[\"~b\",\"QUJD\",\"base\"]", arr({str("~b"), str("QUJD"), str("base")})}, {"[\"base64\",\"QUJD\",\"~b\"]", arr({str("base64"), str("QUJD"), str("~b")})} };
    auto& c = T[x.choose(T.size())]; size_t nest = x.choose(3); x.go(); std::string t = nest == 0 ? c.t : nest == 1 ? std::string("[0,") + c.t + ",1]" : std::string("{\"q\":") + c.t + "}"; Val v = nest == 0 ? c.v : nest == 1 ? arr({u64(0), c.v, u64(1)}) : map({{"q", c.v}}); Balance b{x}; { D d{std::string_view(t)}; Obs{x, {}}.run(v, d); } { size_t keep = t.size(); (void)keep; } b.done(); }
PART("bad-base64") { static const char* B[] = {"Q*JD", "QU JD", "Q\xc3\xa9", "-_-_", "QUJ\\n", "\\u0000AAA", "!"}; const char* s = B[x.choose(7)]; x.go(); std::string t = std::string("{\"b\":[\"~b\",\"") + s + "\",\"base64\"]}"; x.op(); D d{std::string_view(t)}; if (!raises([&]{ (void)d["b"].asBlob(); })) x.fail("malformed base64 was decoded"); }
PART("malformed") { // every short string over structural characters either parses or raises a read error, with nothing leaked
    static const char A[] = "{}[]\",:1-tn "; size_t n = x.choose(x.thorough ? 7 : 6); std::string t; for (size_t j = 0; j < n; ++j) { t += A[x.choose(12)]; if (j == 1) x.go(); } if (n < 2) x.go(); x.op(); long before = yystand::live_docs(); bool r = raises([&]{ D d{std::string_view(t)}; (void)d.to_string(); if (d.isMap()) for (auto k : d.mapKeys()) (void)d[k].isNull(); }); if (yystand::live_docs() != before) x.fail("document leaked for text " + t); (void)r; }
PART("moves") { // reader objects: construct, move, assign over, destroy, with sub-values outliving the objects that made them
    size_t n = x.choose(x.thorough ? 6 : 5); std::vector<size_t> ops; for (size_t j = 0; j < n; ++j) { ops.push_back(x.choose(12)); if (j == 1) x.go(); } if (n < 2) x.go(); Balance b{x}; { std::vector<std::unique_ptr<D>> s(3); std::vector<int> who = {-2, -2, -2}; int next = 0; std::vector<Val> docs; // who: index of document, -1 moved-from, -2 absent
        for (size_t j = 0; j < n; ++j) { size_t op = ops[j]; x.op(); auto mk = [&] { docs.push_back(map({{"id", i64(next)}, {"l", arr({str("s" + std::to_string(next)), blob("b")})}})); auto e = encode<J>(docs.back()); return D(e.data(), e.size()); };
            if (op < 3) { s[op] = std::make_unique<D>(mk()); who[op] = next++; } else if (op < 6) { size_t k = op - 3; if (!s[k]) throw mc::Prune{}; s[k].reset(); who[k] = -2; }
            else if (op < 9) { size_t k = op - 6, l = (k + 1) % 3; if (!s[k] || !s[l]) throw mc::Prune{}; *s[l] = std::move(*s[k]); who[l] = who[k]; who[k] = -1; } else if (op < 11) { size_t k = op - 9, l = k + 1; if (!s[k] || s[l]) throw mc::Prune{}; s[l] = std::make_unique<D>(std::move(*s[k])); who[l] = who[k]; who[k] = -1; } else { if (!s[0]) throw mc::Prune{}; D& self = *s[0]; *s[0] = std::move(self); }
            for (size_t k = 0; k < 3; ++k) if (who[k] >= 0) { Obs{x, {}}.run(docs[size_t(who[k])], *s[k]); auto sub = [&] { auto a = (*s[k])["l"]; return a[size_t(0)]; }(); if (sub.asString() != "s" + std::to_string(who[k])) x.fail("sub-value differs"); } else if (who[k] == -1) { (void)raises([&]{ (void)s[k]->asInt64(); }); (void)s[k]->isNull(); (void)s[k]->to_string(); } } } b.done(); }
struct Abort {};
struct Breaker { const Val* v; mutable int left; };
template<class W> static void emit_until(const Val& v, W& w, int& left) { auto step = [&] { if (left-- == 0) throw Abort{}; }; step(); switch (v.k) { case Arr: w.begin_array(v.a.size()); for (auto& c : v.a) emit_until(c, w, left); step(); w.end_array(); break; case Map: w.begin_map(v.a.size()); for (size_t j = 0; j < v.a.size(); ++j) { step(); w.key(v.keys[j]); emit_until(v.a[j], w, left); } step(); w.end_map(); break; default: emit(v, w); } }
template<z::Writer W> void serialize(const Breaker& b, W& w) { int l = b.left; emit_until(*b.v, w, l); }
PART("abandoned") { // writing stops at every point: by the caller's exception, by misuse, or because the text cannot be produced
    static const std::vector<Val> V = { null(), str("abc"), blob("xyz"), arr({i64(1), str(fill(40, 1)), blob("q")}), map({{"k", arr({str("v"), map({{"x", blob("y")}})})}, {"", i64(2)}}) }; auto& v = V[x.choose(V.size())]; int at = int(x.choose(16)); size_t how = x.choose(3); x.go(); x.op(); Balance b{x};
    { try { if (how == 0) { auto z1 = z::serialize<J>(Breaker{&v, at}); } else if (how == 1) { J::RootSerializer rs; J::Serializer w(rs); int l = at; emit_until(v, w, l); auto z1 = rs.finish(); } else { J::RootSerializer rs; J::Serializer w(rs); int l = at; emit_until(v, w, l); } } catch (const Abort&) {} } b.done(); }
PART("unwritable") { size_t k = x.choose(6); size_t c = x.choose(6); x.go(); Val bad = k == 0 ? dbl(NAN) : k == 1 ? dbl(INFINITY) : k == 2 ? dbl(-INFINITY) : k == 3 ? str("\xff") : k == 4 ? map({{"\xc0\x80", null()}}) : str("\xed\xa0\x80"); Val v = wrap(bad, c); x.op(); Balance b{x}; { bool threw = false; try { auto z1 = z::serialize<J>(v); } catch (const std::exception&) { threw = true; } if (!threw) x.fail("a value JSON cannot hold was written"); } b.done(); }
PART("call-sequences") { // every sequence of writer calls, well-formed or not: an error or a document, nothing leaked, nothing invalid
    size_t n = x.choose(x.thorough ? 7 : 6); std::vector<int> ops; for (size_t j = 0; j < n; ++j) { ops.push_back(int(x.choose(7))); if (j == 1) x.go(); } if (n < 2) x.go(); Balance b{x}; { bool fin = false, threw = false; std::vector<uint8_t> out;
        // model: a stack of open containers, as the writer's own rules state them
        std::vector<char> st; bool key = false, root = false, legal = true; for (int o : ops) { bool valop = o < 2 || o == 2 || o == 4; if (valop) { if (st.empty() ? root : (st.back() == 'm' && !key)) { legal = false; break; } if (st.empty()) root = true; else key = false; if (o == 2) { st.push_back('a'); key = false; } if (o == 4) { st.push_back('m'); key = false; } } else if (o == 3) { if (st.empty() || st.back() != 'a') { legal = false; break; } st.pop_back(); key = false; } else if (o == 5) { if (st.empty() || st.back() != 'm' || key) { legal = false; break; } st.pop_back(); key = false; } else { if (st.empty() || st.back() != 'm' || key) { legal = false; break; } key = true; } }
        try { J::RootSerializer rs; J::Serializer w(rs); for (int o : ops) { switch (o) { case 0: w.int64(1); break; case 1: w.string("s"); break; case 2: w.begin_array(1); break; case 3: w.end_array(); break; case 4: w.begin_map(1); break; case 5: w.end_map(); break; default: w.key("k"); } x.op(); } out = copy_of(rs.finish()); fin = true; } catch (const std::exception&) { threw = true; }
        if (!legal && !threw) x.fail("misused writer calls were encoded"); if (legal && threw && st.empty()) x.fail("well-formed writer calls were refused"); if (fin) { if (raises([&]{ D d(out.data(), out.size()); })) x.fail("the writer produced text that does not parse"); } } b.done(); }
template<class P> static void across(mc::X& x, const Val& v) { auto e = encode<P>(v); typename P::Deserializer s{std::vector<uint8_t>(e)}; auto c = z::translate<J>(s); x.op(2); if constexpr (std::is_same_v<P, z::Zera>) Obs{x, {}}.run(v, c); auto back = z::translate<P>(c); Mode m = mode_of<P>(); m.ordered = false; m.ints = 2; m.cross = false; compare(x, v, back, m); }
PART("translate") { auto& v = L()[x.choose(L().size())]; size_t c = x.choose(6); size_t p = x.choose(3); x.go(); Val w = wrap(v, c); if (p == 0) across<z::Zera>(x, w); else if (p == 1) across<z::MsgPack>(x, w); else across<z::Flex>(x, w); }
PART("nothing-written") { x.go(); Balance b{x}; { J::RootSerializer rs; auto e = copy_of(rs.finish()); D d(e.data(), e.size()); if (!d.isNull()) x.fail("an empty document is not null"); D def; if (!def.isMap()) x.fail("default reader"); } b.done(); { J::RootSerializer never; } b.done(); }
int main(int c, char** v) { // touch lazily created state before the first balance is taken
    (void)L(); { auto e = encode<J>(arr({i64(1)})); D d(e.data(), e.size()); (void)d.to_string(); } return mc::run_main(c, v, "C20"); }
