#include "cbref.hpp"
#include <zerialize/translate.hpp>
using namespace ref;
using D = z::CBOR::Deserializer;
// Per-operation oracle over arbitrary bytes: the reference decoder says what each operation may answer.
struct Walk {
    mc::X& x; std::span<const uint8_t> b; const mc::Bytes& mem; int budget = 40; std::string path;
    [[noreturn]] void bad(const std::string& w) { x.fail("at $" + path + ": " + w + "  bytes=" + mc::hex(b, 100)); }
    // valid: 1 must answer, 0 must refuse, 2 may refuse, but an answer must be the right one
    template<class F, class G> void exact(int valid, F&& f, G&& same, const char* w) {
        x.op(); bool ok = false; const bool t = raises([&]{ ok = same(f()); });
        if (valid == 0 && !t) bad(std::string(w) + " was not refused"); if (valid == 1 && t) bad(std::string(w) + " refused a well-formed value"); if (!t && !ok) bad(std::string(w) + " returned something other than what the bytes say");
    }
    void poke(const D& r) { // bytes whose meaning is left open (tags, undefined, unassigned simple values): memory safety, termination, and no accessor without its type test
        x.op(16); auto q = [&](auto f) { (void)raises([&]{ (void)f(); }); };
        q([&]{ return r.isNull(); }); q([&]{ return r.isBool(); }); q([&]{ return r.isInt(); }); q([&]{ return r.isString(); }); q([&]{ return r.asBool(); }); q([&]{ return r.asInt64(); }); q([&]{ return r.asUInt64(); }); q([&]{ return r.asDouble(); }); q([&]{ return r.asString(); }); q([&]{ return r.asStringView(); }); q([&]{ return r.asBlob(); }); q([&]{ return r.asBlobVec(); }); q([&]{ return r.arraySize(); }); q([&]{ return r[size_t(0)].isNull(); }); q([&]{ return r["k"].isNull(); }); q([&]{ return r.contains("k"); }); q([&]{ for (auto k : r.mapKeys()) (void)k; return 0; }); q([&]{ return r.to_string(); });
        // whatever they are taken for, an accessor answers only where its type test does
        auto only = [&](const char* w, auto test, auto f) { bool t = false; (void)raises([&]{ t = test(); }); if (!raises([&]{ (void)f(); }) && !t) bad(std::string(w) + " returned on a value whose type tests deny it"); };
        only("asBool", [&]{ return r.isBool(); }, [&]{ return r.asBool(); }); only("asInt64", [&]{ return r.isInt() || r.isUInt(); }, [&]{ return r.asInt64(); }); only("asUInt64", [&]{ return r.isInt() || r.isUInt(); }, [&]{ return r.asUInt64(); }); only("asDouble", [&]{ return r.isFloat(); }, [&]{ return r.asDouble(); }); only("asString", [&]{ return r.isString(); }, [&]{ return r.asString(); }); only("asStringView", [&]{ return r.isString(); }, [&]{ return r.asStringView(); }); only("asBlob", [&]{ return r.isBlob(); }, [&]{ return r.asBlob(); }); only("arraySize", [&]{ return r.isArray(); }, [&]{ return r.arraySize(); }); only("indexing", [&]{ return r.isArray(); }, [&]{ return r[size_t(0)]; }); only("lookup", [&]{ return r.isMap(); }, [&]{ return r["k"]; }); only("mapKeys", [&]{ return r.isMap(); }, [&]{ return r.mapKeys(); }); only("contains", [&]{ return r.isMap(); }, [&]{ if (!r.contains("k")) throw z::DeserializationError("no"); return 0; });
    }
    void value(const D& r, size_t p, int depth) {
        if (--budget < 0) return;
        const cb::Item t = cb::item(b, p); using namespace cb;
        if (t.k == Tag || t.k == Simple) { poke(r); return; }
        { auto ask = [&](auto f) { int a = 2; (void)raises([&]{ a = f(); }); return a; };
          const int got[9] = { ask([&]{ return r.isNull(); }), ask([&]{ return r.isBool(); }), ask([&]{ return r.isInt(); }), ask([&]{ return r.isUInt(); }), ask([&]{ return r.isFloat(); }), ask([&]{ return r.isString(); }), ask([&]{ return r.isBlob(); }), ask([&]{ return r.isArray(); }), ask([&]{ return r.isMap(); }) };
          const bool want[9] = { t.k == Nil, t.k == Boolean, t.k == U || t.k == N, t.k == U, t.k == F16 || t.k == F32 || t.k == F64, t.k == TS, t.k == BS, t.k == A, t.k == M };
          const bool open = t.k == Bad || !t.head; x.op(9); const bool anyint = t.k == U || t.k == N;
          for (int j = 0; j < 9; ++j) { if (got[j] == 2) { if (!open) bad("type test refused a readable header"); continue; } if ((j == 2 || j == 3) && anyint) continue; if (got[j] != int(want[j]) && !(open && got[j] == 0)) bad("type tests disagree with the initial byte"); }
          if (anyint && !open && got[2] != 1 && got[3] != 1) bad("neither integer test answers for an integer"); if (!open && got[2] == 1 && t.k == U && t.v > uint64_t(INT64_MAX)) bad("isInt for a value above INT64_MAX"); if (!open && got[3] == 1 && t.k == N) bad("isUInt for a negative value"); }
        exact(t.k == Boolean, [&]{ return r.asBool(); }, [&](bool g) { return g == (t.v == 21); }, "asBool");
        const bool fit = t.whole && t.v <= uint64_t(INT64_MAX);
        exact((t.k == U || t.k == N) && fit, [&]{ return r.asInt64(); }, [&](int64_t g) { return g == (t.k == U ? int64_t(t.v) : int64_t(~t.v)); }, "asInt64");
        exact(t.k == U && t.whole, [&]{ return r.asUInt64(); }, [&](uint64_t g) { return g == t.v; }, "asUInt64");
        { const uint64_t lim = t.k == U ? t.v : t.k == N ? t.v : 0; const bool in = (t.k == U || t.k == N) && t.whole;
          if (in || depth == 0) { exact(in && lim <= 127, [&]{ return r.asInt8(); }, [&](int8_t g) { return g == (t.k == U ? int64_t(t.v) : int64_t(~t.v)); }, "asInt8"); exact(in && lim <= 0x7fffffff, [&]{ return r.asInt32(); }, [&](int32_t g) { return g == (t.k == U ? int64_t(t.v) : int64_t(~t.v)); }, "asInt32"); exact(in && t.k == U && lim <= 65535, [&]{ return r.asUInt16(); }, [&](uint16_t g) { return g == t.v; }, "asUInt16"); } }
        exact((t.k == F16 || t.k == F32 || t.k == F64) && t.whole, [&]{ return r.asDouble(); }, [&](double g) { const uint64_t w = t.k == F64 ? t.v : t.k == F16 ? half_bits(uint16_t(t.v)) : 0; if (t.k == F32) { float f = std::bit_cast<float>(uint32_t(t.v)); return std::isnan(f) ? std::isnan(g) : g == double(f) && std::signbit(g) == std::signbit(f); } const double d = std::bit_cast<double>(w); return std::isnan(d) && t.k == F16 ? std::isnan(g) : std::bit_cast<uint64_t>(g) == w; }, "asDouble");
        const bool s = t.k == TS && t.whole, bl = t.k == BS && t.whole;
        auto view = [&](const void* q, size_t n) { return n == t.data.size() && (n == 0 || (mem.holds(q, n) && std::memcmp(q, t.data.data(), n) == 0)); };
        exact(s, [&]{ return r.asString(); }, [&](const std::string& g) { return g == t.data; }, "asString");
        exact(s ? (t.indef ? 2 : 1) : 0, [&]{ return r.asStringView(); }, [&](std::string_view g) { return view(g.data(), g.size()); }, "asStringView");
        exact(bl ? (t.indef ? 2 : 1) : 0, [&]{ return r.asBlob(); }, [&](std::span<const std::byte> g) { return view(g.data(), g.size()); }, "asBlob");
        exact(bl, [&]{ return r.asBlobVec(); }, [&](const std::vector<std::byte>& g) { return g.size() == t.data.size() && (g.empty() || !std::memcmp(g.data(), t.data.data(), g.size())); }, "asBlobVec");
        if (t.k == A) array(r, t, depth); else { x.op(2); if (!raises([&]{ (void)r.arraySize(); })) bad("arraySize on a non-array"); if (!raises([&]{ (void)r[size_t(0)]; })) bad("indexing a non-array"); }
        if (t.k == M) map(r, t, depth); else { x.op(3); if (!raises([&]{ (void)r.mapKeys(); })) bad("mapKeys on a non-map"); if (!raises([&]{ (void)r["k"]; })) bad("lookup in a non-map"); bool c = false; (void)raises([&]{ c = r.contains("k"); }); if (c) bad("contains() true on a non-map"); }
        if (depth == 0) { x.op(); std::string o; const bool tr = raises([&]{ o = r.to_string(); }); bool odd = false; auto e = skip(b, p, &odd); if (tr && e && !odd && strings_only(p)) bad("to_string refused a well-formed document"); }
    }
    bool strings_only(size_t p) { // every map key inside is a text string
        cb::Item t = cb::item(b, p); if (t.k != cb::A && t.k != cb::M) return true; size_t q = t.body;
        for (uint64_t j = 0;; ++j) { if (t.indef ? b[q] == 0xff : j == t.v) return true; if (t.k == cb::M) { if (cb::item(b, q).k != cb::TS) return false; q = *cb::skip(b, q); } if (!strings_only(q)) return false; q = *cb::skip(b, q); }
    }
    void array(const D& r, const cb::Item& t, int depth) {
        std::vector<size_t> at; bool ok = false, odd = false, ended = false; size_t q = t.body; // at: starts of elements reached over well-formed predecessors
        if (t.head) for (uint64_t j = 0;; ++j) { if (t.indef ? (q < b.size() && b[q] == 0xff) : j == t.v) { ok = ended = true; break; } at.push_back(q); auto e = cb::skip(b, q, &odd); if (!e) break; q = *e; }
        const bool fits = t.head && (t.indef ? ok : t.v <= b.size() - t.body);
        x.op(); size_t got = 0; const bool rz = raises([&]{ got = r.arraySize(); });
        if (!fits && !rz) bad("arraySize accepted more elements than the bytes present hold"); if (ok && !odd && rz) bad("arraySize refused a well-formed array"); if (!rz && got != (t.indef ? at.size() : t.v)) bad("arraySize differs from the number of elements");
        const uint64_t n = t.indef ? at.size() : t.v; std::vector<uint64_t> idx = {n, n + 1, n + 256, 1ull << 32, ~0ull}; for (uint64_t j = 0; j < n && j < 6; ++j) idx.push_back(j); if (n > 6) idx.push_back(n - 1);
        for (uint64_t i : idx) {
            if (i >= at.size() && !t.indef && i < t.v && i > 100000) continue; // far past the end of the bytes: nothing new
            x.op(); std::optional<D> ch; const bool tr = raises([&]{ ch.emplace(r[size_t(i)]); });
            if (i >= at.size()) { if (!tr) bad("index past the readable elements was not refused"); continue; }
            if (tr) { if (ok && !odd) bad("element of a well-formed array was refused"); continue; }
            if (depth < 3) { const size_t keep = path.size(); path += "[" + std::to_string(i) + "]"; value(*ch, at[i], depth + 1); path.resize(keep); }
        }
    }
    void map(const D& r, const cb::Item& t, int depth) {
        struct Ent { std::string k; size_t v; bool def; }; std::vector<Ent> ent; bool ok = false, odd = false, strs = true; size_t q = t.body;
        if (t.head) for (uint64_t j = 0;; ++j) { if (t.indef ? (q < b.size() && b[q] == 0xff) : j == t.v) { ok = true; break; } cb::Item k = cb::item(b, q); auto e = cb::skip(b, q, &odd); if (!e) break; if (k.k == cb::TS) { if (strs) ent.push_back({k.data, *e, !k.indef}); } else strs = false; q = *e; e = cb::skip(b, q, &odd); if (!e) break; q = *e; }
        const bool whole = ok && strs;
        x.op(); size_t got = 0; const bool rz = raises([&]{ for (std::string_view k : r.mapKeys()) { if (got >= ent.size()) { if (odd || !strs) return; bad("key listed beyond those present"); } if (k != ent[got].k) bad("listed key differs"); if (ent[got].def && !mem.holds(k.data(), k.size())) bad("listed key outside the buffer"); ++got; } });
        if (!rz && !whole && !odd) bad("listing the keys of a malformed map was not refused"); if (rz && whole && !odd) bad("listing the keys of a well-formed map was refused"); if (!rz && whole && got != ent.size()) bad("key listing stopped early");
        if (whole && !odd) { x.op(); size_t again = 0; auto v = r.mapKeys(); for (auto it = v.begin(), e = v.end(); !(it == e); it++) { if (again >= ent.size() || *it != ent[again].k) bad("second listing differs"); ++again; } if (again != ent.size()) bad("second listing stopped early"); }
        std::vector<std::string> probe = {"", "k", "zz"}; for (auto& e : ent) if (probe.size() < 12) probe.push_back(e.k); std::sort(probe.begin(), probe.end()); probe.erase(std::unique(probe.begin(), probe.end()), probe.end());
        for (auto& k : probe) {
            size_t hits = 0; const Ent* h = nullptr; for (auto& e : ent) if (e.k == k) { if (!hits) h = &e; ++hits; }
            x.op(2); bool c = false; const bool cr = raises([&]{ c = r.contains(k); });
            if (cr) { if (whole && !odd) bad("contains() refused a well-formed map"); } else if (strs && !odd && c != (hits > 0)) bad(c ? "contains() true for a key that is not there" : "contains() false for a key that is there"); else if (!c && !ok) bad("contains() answered false on a malformed map");
            std::optional<D> ch; const bool tr = raises([&]{ ch.emplace(r[std::string_view(k)]); });
            if (tr) { if (whole && !odd && hits) bad("lookup of a stored key was refused"); continue; }
            if (!hits) { if (strs && !odd) bad("lookup returned a value for a key that is not there"); continue; }
            if (hits == 1 && depth < 3) { const size_t keep = path.size(); path += "." + k.substr(0, 8); value(*ch, h->v, depth + 1); path.resize(keep); }
        }
    }
};
static void hit(mc::X& x, std::span<const uint8_t> b, bool tr = false) {
    mc::Bytes m(b); D d(m.span()); Walk w{x, b, m}; w.value(d, 0, 0);
    if (tr) { x.op(); std::optional<z::Zera::Deserializer> o; try { o.emplace(z::translate<z::Zera>(d)); } catch (const std::exception&) {} if (o) { auto e = cb::skip(b, 0); if (!e) x.fail("translation accepted malformed bytes " + mc::hex(b)); } }
    if (x.want_sample()) x.sample(mc::hex(b, 60)); x.outcome(mc::hex(b, 60));
}
static const std::vector<uint8_t>& classes() { static const std::vector<uint8_t> c = [] { std::vector<uint8_t> v; for (int m = 0; m < 8; ++m) for (int a : {0, 1, 2, 24, 25, 27, 28, 31}) v.push_back(uint8_t(m << 5 | a)); for (int a : {0xf4, 0xf5, 0xf6, 0x6b}) v.push_back(uint8_t(a)); return v; }(); return c; }
PART("all-bytes-2") { size_t n = x.choose(3); std::vector<uint8_t> b; if (n == 0) { x.go(); hit(x, b, true); return; } b.push_back(uint8_t(x.choose(256))); x.go(); if (n == 2) b.push_back(uint8_t(x.choose(256))); hit(x, b, true); }
PART("all-bytes-3") { auto& c = classes(); uint8_t a = x.thorough ? uint8_t(x.choose(256)) : c[x.choose(c.size())]; uint8_t m = x.thorough ? uint8_t(x.choose(256)) : c[x.choose(c.size())]; x.go(); for (int v = 0; v < 256; v += x.thorough ? 1 : 1) { if (!x.thorough && std::find(c.begin(), c.end(), uint8_t(v)) == c.end()) continue; const uint8_t b[] = {a, m, uint8_t(v)}; hit(x, b); } }
static void alpha(mc::X& x, size_t len, const std::vector<uint8_t>& A) { std::vector<uint8_t> b; for (size_t j = 0; j < len; ++j) { b.push_back(A[x.choose(A.size())]); if (j == 1) x.go(); } hit(x, b); }
PART("alphabet-4") { static const std::vector<uint8_t> A = {0, 1, 0x18, 0x20, 0x40, 0x41, 0x58, 0x5f, 0x60, 0x61, 0x62, 0x7f, 0x80, 0x81, 0x82, 0x9f, 0xa0, 0xa1, 0xa2, 0xbf, 0xc1, 0xf6, 0xf9, 0xff}; if (x.thorough) { alpha(x, 4, classes()); return; } alpha(x, 4, A); }
PART("alphabet-5") { static const std::vector<uint8_t> A = {0, 0x41, 0x5f, 0x60, 0x61, 0x7f, 0x82, 0x9f, 0xa1, 0xa2, 0xbf, 0xff}; alpha(x, 5, A); }
PART("alphabet-6") { static const std::vector<uint8_t> A = {0, 0x61, 0x7f, 0x82, 0x9f, 0xa1, 0xbf, 0xff}; static const std::vector<uint8_t> B = {0, 1, 0x41, 0x5f, 0x60, 0x61, 0x7f, 0x82, 0x9f, 0xa1, 0xa2, 0xbf, 0xc1, 0xff}; alpha(x, 6, x.thorough ? B : A); }
PART_T("alphabet-8") { static const std::vector<uint8_t> A = {0, 0x61, 0x7f, 0x82, 0x9f, 0xa1, 0xbf, 0xff}; alpha(x, 8, A); }
static const std::vector<Val>& docs() { static const std::vector<Val> d = { i64(-1), u64(UINT64_MAX), i64(INT64_MIN), dbl(0.1), dbl(1.5), str("abc"), str(fill(40, 1)), blob("xyz"), blob(fill(40, 2)), arr({i64(1), str("ab"), blob("c")}), map({{"k", i64(1)}, {"kk", str("v")}}), map({{"", arr({null(), boolean(true)})}, {"k", map({{"x", blob("q")}})}}), arr({arr({arr({u64(300)})}), map({{"k", dbl(2.5)}}), str(fill(26, 3))}), map({{"a", u64(70000)}, {"b", i64(-70000)}, {fill(25, 4), arr()}}) }; return d; }
static std::vector<uint8_t> doc(mc::X& x, bool full = true) { size_t i = x.choose(docs().size()); size_t f = x.choose(x.thorough || full ? 5 : 2); if (!(x.thorough || full) && f == 1) f = 3; size_t c = 0; cb::Out o; cb::enc(docs()[i], o, [&](size_t n) { ++c; return f == 0 ? 0 : f == 1 ? n - 1 : f == 2 ? (c % n) : f == 3 ? ((c + 1) % n) : (n > 1 ? n - 2 : 0); }, true); return o; }
PART("truncations") { auto b = doc(x); size_t n = x.choose(b.size() + 1); x.go(); hit(x, std::span(b).first(n), true); }
PART("extensions") { auto b = doc(x); size_t n = x.choose(4); uint8_t e = x.flip() ? 0xff : 0x1c; x.go(); b.resize(b.size() + n, e); hit(x, b, true); }
PART("one-byte") { auto b = doc(x, false); size_t at = x.choose(b.size()); x.go(); size_t v = x.choose(256); b[at] = uint8_t(v); hit(x, b, v % 4 == 0); }
PART("two-bytes") { auto b = doc(x, false); if (b.size() > 30) b.resize(30); size_t a = x.choose(b.size()), c = x.choose(b.size()); if (c <= a || (!x.thorough && c > a + 2)) throw mc::Prune{}; x.go(); auto& k = classes(); static const std::vector<uint8_t> few = {0, 1, 0x1b, 0x41, 0x5f, 0x7b, 0x7f, 0x9b, 0x9f, 0xbb, 0xbf, 0xf9, 0xff}; auto& K = x.thorough ? k : few; b[a] = K[x.choose(K.size())]; b[c] = K[x.choose(K.size())]; hit(x, b); }
PART("declared-sizes") { // every sized header with hostile sizes over every number of bytes really present, at top level, in containers and as a chunk
    int maj = int(x.choose(4)) + 2; static const uint64_t S[] = {0, 1, 2, 3, 23, 24, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x3fffffffffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffff0ull, 0xfffffffffffffff4ull, 0xfffffffffffffff5ull, 0xfffffffffffffff6ull, 0xfffffffffffffff7ull, 0xfffffffffffffff8ull, 0xfffffffffffffffbull, 0xfffffffffffffffdull, 0xfffffffffffffffeull, 0xffffffffffffffffull}; uint64_t s = S[x.choose(29)]; size_t w = x.choose(5); size_t nest = x.choose(8); x.go(); size_t have = x.choose(28); static const uint64_t lim[] = {23, 255, 65535, 0xffffffff, ~0ull}; if (s > lim[w]) throw mc::Prune{};
    cb::Out o; switch (nest) { case 1: o = {0x82}; break; case 2: o = {0x82, 0x00}; break; case 3: o = {0xa1, 0x61, 'k'}; break; case 4: o = {0xa2}; break; case 5: o = {0x9f, 0x00}; break; case 6: o = {0xbf}; break; case 7: o = {0x5f, 0x41, 'q'}; if (maj == 3) o[0] = 0x7f; break; } static const uint8_t ad[] = {0, 24, 25, 26, 27}; if (w == 0) o.push_back(uint8_t(maj << 5 | s)); else { o.push_back(uint8_t(maj << 5 | ad[w])); cb::be(o, s, 1 << (w - 1)); } for (size_t j = 0; j < have; ++j) o.push_back(uint8_t(j % 7 == 6 ? 0xff : j % 2 ? 0xf6 : 0x60)); hit(x, o, true); }
PART("exact-fill") { int maj = int(x.choose(4)) + 2; static const size_t S[] = {0, 1, 2, 22, 23, 24, 25, 254, 255, 256, 65534, 65535, 65536, 70000}; size_t s = S[x.choose(14)]; int d = int(x.choose(3)) - 1; size_t w = x.choose(5); x.go(); static const uint64_t lim[] = {23, 255, 65535, 0xffffffff, ~0ull}; if (s > lim[w] || (maj > 3 && s > 300) || (s == 0 && d < 0)) throw mc::Prune{};
    cb::Out o; static const uint8_t ad[] = {0, 24, 25, 26, 27}; if (w == 0) o.push_back(uint8_t(maj << 5 | s)); else { o.push_back(uint8_t(maj << 5 | ad[w])); cb::be(o, s, 1 << (w - 1)); } size_t have = (maj == 5 ? 2 * s : s) + size_t(d); for (size_t j = 0; j < have; ++j) o.push_back(maj == 5 && j % 2 == 0 ? 0x60 : 0xf6); hit(x, o); }
PART("head-sequences") { static const std::vector<std::vector<uint8_t>> H = { {0x81}, {0x82}, {0x97}, {0xa1}, {0xa2}, {0x98, 1}, {0x9a, 0xff, 0xff, 0xff, 0xff}, {0x9b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xb8, 1}, {0xbb, 0x80, 0, 0, 0, 0, 0, 0, 0}, {0xbb, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x9f}, {0xbf}, {0x7f}, {0x5f}, {0x61, 'k'}, {0xff}, {0xf6}, {0xc1}, {0xf8, 0xff}, {0x3b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff} };
    size_t n = x.choose(x.thorough ? 5 : 4) + 1; cb::Out o; for (size_t j = 0; j < n; ++j) { auto& h = H[x.choose(H.size())]; o.insert(o.end(), h.begin(), h.end()); if (j == 1) x.go(); } if (n == 1) x.go(); static const std::vector<std::vector<uint8_t>> T = { {}, {0xff, 0xff, 0xff}, {0xf6, 0xff}, {0x61, 'k', 0x01, 0x61, 'l', 0xf5} }; auto& t = T[n < 4 || x.thorough ? x.choose(4) : 1]; o.insert(o.end(), t.begin(), t.end()); hit(x, o); }
PART("keys") { // maps with every kind of key, definite and indefinite
    static const std::vector<std::vector<uint8_t>> K = { {0x61, 'k'}, {0x60}, {0x78, 1, 'z'}, {0x7f, 0x61, 'k', 0xff}, {0x7f, 0xff}, {0x7f, 0x60, 0x61, 'q', 0x61, 'r', 0xff}, {0x05}, {0x20}, {0xf6}, {0xf5}, {0xf9, 0x3c, 0}, {0x41, 'k'}, {0x81, 0x61, 'k'}, {0xa1, 0x61, 'k', 1}, {0xc1, 0x61, 'k'}, {0x7f, 0x41, 'k', 0xff}, {0x7f, 0x7f, 0x61, 'k', 0xff, 0xff}, {0x1c} }; size_t n = x.choose(4); const bool ind = x.flip(); cb::Out o; o.push_back(ind ? 0xbf : uint8_t(0xa0 | n)); for (size_t j = 0; j < n; ++j) { auto& k = K[x.choose(K.size())]; o.insert(o.end(), k.begin(), k.end()); o.push_back(uint8_t(j)); if (j == 0) x.go(); } if (n == 0) x.go(); if (ind) o.push_back(0xff); hit(x, o, false); }
PART("chunks") { // all chunk sequences of length <= 4 over good and bad chunks
    static const std::vector<std::vector<uint8_t>> K = { {0x61, 'a'}, {0x60}, {0x78, 2, 'b', 'c'}, {0x41, 'd'}, {0x40}, {0x59, 0, 1, 'e'}, {0x7f}, {0x5f}, {0x62, 'f'}, {0x7b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xf6}, {0x5b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xf6}, {0x00}, {0xf6}, {0x1c}, {0xff} }; bool tx = x.flip(); size_t n = x.choose(5); size_t fin = x.choose(3); size_t nest = x.choose(3); cb::Out o; if (nest == 1) o = {0x82}; if (nest == 2) o = {0xa1}; o.push_back(tx ? 0x7f : 0x5f); if (n == 4 && (nest || fin != 1) && !x.thorough) throw mc::Prune{}; for (size_t j = 0; j < n; ++j) { auto& k = K[x.choose(K.size())]; o.insert(o.end(), k.begin(), k.end()); if (j == 0) x.go(); } if (n == 0) x.go(); if (fin > 0) o.push_back(0xff); if (fin > 1) { o.push_back(0x01); } hit(x, o, false); }
int main(int c, char** v) { return mc::run_main(c, v, "C08"); }
