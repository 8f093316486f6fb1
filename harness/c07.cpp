#include "mpref.hpp"
#include <zerialize/translate.hpp>
using namespace ref;
using D = z::MsgPack::Deserializer;
// Per-operation oracle over arbitrary bytes: the reference decoder says what each operation may answer.
struct Walk {
    mc::X& x; std::span<const uint8_t> all; const mc::Bytes& mem; int budget = 40; std::string path; bool full_all = false;
    [[noreturn]] void bad(const std::string& w) { x.fail("at $" + path + ": " + w + "  bytes=" + mc::hex(all, 100)); }
    template<class F, class G> void exact(bool valid, F&& f, G&& same, const char* w) {
        x.op(); bool ok = false; const bool t = raises([&]{ ok = same(f()); });
        if (!valid && !t) bad(std::string(w) + " was not refused"); if (valid && t) bad(std::string(w) + " refused a well-formed value"); if (valid && !ok) bad(std::string(w) + " returned something other than what the bytes say");
    }
    void value(const D& r, size_t p, size_t end, int depth) { // the value's bytes start at p; its view ends at end
        if (--budget < 0) return;
        const auto b = all.first(end); const mp::Item t = mp::item(b, p); const bool full = depth == 0 || full_all; using namespace mp;
        { const bool got[9] = { r.isNull(), r.isBool(), r.isInt(), r.isUInt(), r.isFloat(), r.isString(), r.isBlob(), r.isArray(), r.isMap() };
          const bool want[9] = { t.k == Nil, t.k == Boolean, t.k == SInt || t.k == FixPos, t.k == Un || t.k == FixPos, t.k == F32 || t.k == F64, t.k == S, t.k == B, t.k == A, t.k == M };
          x.op(9); const bool anyint = t.k == SInt || t.k == Un || t.k == FixPos;
          for (int j = 0; j < 9; ++j) { if (got[j] != want[j]) bad("type tests disagree with the marker byte"); }
          if (anyint && !got[2] && !got[3]) bad("neither integer test answers for an integer");
          if (t.whole && got[2] && t.k == Un && t.bits > uint64_t(INT64_MAX)) bad("isInt for a value above INT64_MAX"); if (t.whole && got[3] && t.k == SInt && int64_t(t.bits) < 0) bad("isUInt for a negative value"); }
        if (t.k == Boolean || full) exact(t.k == Boolean, [&]{ return r.asBool(); }, [&](bool g) { return g == (t.bits == 1); }, "asBool");
        const bool in = (t.k == SInt || t.k == Un || t.k == FixPos) && t.whole; 
        if (in || full) {
            exact(in && (t.k == SInt || t.bits <= uint64_t(INT64_MAX)), [&]{ return r.asInt64(); }, [&](int64_t g) { return g == int64_t(t.bits); }, "asInt64");
            exact(in && (t.k != SInt || int64_t(t.bits) >= 0), [&]{ return r.asUInt64(); }, [&](uint64_t g) { return g == t.bits; }, "asUInt64");
        }
        if (t.k == F32 || t.k == F64 || full) exact((t.k == F32 || t.k == F64) && t.whole, [&]{ return r.asDouble(); }, [&](double g) { if (t.k == F64) return std::bit_cast<uint64_t>(g) == t.bits; float f = std::bit_cast<float>(uint32_t(t.bits)); return std::isnan(f) ? std::isnan(g) : g == double(f) && std::signbit(g) == std::signbit(f); }, "asDouble");
        if (t.k == S || full) exact(t.k == S && t.whole, [&]{ return r.asStringView(); }, [&](std::string_view g) { return g.size() == t.len && (g.empty() || reinterpret_cast<const uint8_t*>(g.data()) == mem.p + t.body); }, "asStringView");
        if (t.k == B || full) exact(t.k == B && t.whole, [&]{ return r.asBlob(); }, [&](std::span<const std::byte> g) { return g.size() == t.len && (g.empty() || reinterpret_cast<const uint8_t*>(g.data()) == mem.p + t.body); }, "asBlob");
        if (t.k == A) array(r, t, b, depth); else { x.op(2); if (!raises([&]{ (void)r.arraySize(); })) bad("arraySize on a non-array"); if (!raises([&]{ (void)r[size_t(0)]; })) bad("indexing a non-array"); }
        if (t.k == M) map(r, t, b, depth); else if (full) { x.op(3); if (!raises([&]{ (void)r.mapKeys(); })) bad("mapKeys on a non-map"); if (!raises([&]{ (void)r["k"]; })) bad("lookup in a non-map"); if (r.contains("k")) bad("contains() true on a non-map"); }
        if (depth == 0) { x.op(); (void)raises([&]{ (void)r.to_string(); }); }
    }
    // start offsets of the elements that are well-formed, in order; ok if all n are; ext if an extension item is involved
    struct Elems { std::vector<size_t> at; bool ok = false, ext = false; };
    static Elems elems(std::span<const uint8_t> b, size_t p, uint64_t n) { Elems e; for (uint64_t j = 0; j < n; ++j) { auto q = mp::skip(b, p, &e.ext); if (!q) return e; e.at.push_back(p); p = *q; } e.at.push_back(p); e.ok = true; return e; }
    void array(const D& r, const mp::Item& t, std::span<const uint8_t> b, int depth) {
        const uint64_t n = t.head ? t.len : 0; const bool fits = t.head && n <= b.size() - t.body; Elems e = fits ? elems(b, t.body, n) : Elems{};
        x.op(); size_t got = 0; const bool rz = raises([&]{ got = r.arraySize(); });
        if (!fits && !rz) bad("arraySize accepted a count larger than the bytes present"); if (e.ok && !e.ext && rz) bad("arraySize refused a well-formed array"); if (!rz && got != n) bad("arraySize differs from the stored count");
        std::vector<uint64_t> idx = {n, n + 1, n + 256, 1ull << 32, (1ull << 32) + n / 2, ~0ull}; for (uint64_t j = 0; j < n && j < 6; ++j) idx.push_back(j); if (fits && n > 6) idx.push_back(n - 1); if (!fits) { idx.push_back(0); if (n) idx.push_back(n - 1); }
        for (uint64_t i : idx) {
            x.op(); std::optional<D> ch; const bool tr = raises([&]{ ch.emplace(r[size_t(i)]); });
            const bool there = fits && i < n && i < e.at.size() && (e.ok || i < e.at.size());
            if (!there) { if (!tr) bad("index past the well-formed elements was not refused"); continue; }
            const size_t at = e.at[i]; auto q = mp::skip(b, at); if (tr) { if (e.ok && !e.ext) bad("element of a well-formed array was refused"); continue; }
            if (depth < 3) { const size_t keep = path.size(); path += "[" + std::to_string(i) + "]"; value(*ch, at, *q, depth + 1); path.resize(keep); }
        }
    }
    void map(const D& r, const mp::Item& t, std::span<const uint8_t> b, int depth) {
        const uint64_t n = t.head ? t.len : 0; const bool fits = t.head && n <= (b.size() - t.body) / 2; Elems e = fits ? elems(b, t.body, 2 * n) : Elems{};
        struct Ent { std::string k; size_t v, ve; }; std::vector<Ent> ent; size_t prefix = 0; bool strs = true; // prefix: leading string keys that are present
        const size_t cnt = e.ok ? 2 * n : e.at.size();
        for (size_t j = 0; j < cnt; j += 2) { mp::Item k = mp::item(b, e.at[j]); const bool s = k.k == mp::S; if (s && strs) ++prefix; if (!s) strs = false; if (s && j + 1 < cnt) ent.push_back({std::string(reinterpret_cast<const char*>(b.data()) + k.body, size_t(k.len)), e.at[j + 1], *mp::skip(b, e.at[j + 1])}); }
        std::vector<std::string> pk; for (size_t j = 0; j < 2 * prefix && j < cnt; j += 2) { mp::Item k = mp::item(b, e.at[j]); pk.emplace_back(reinterpret_cast<const char*>(b.data()) + k.body, size_t(k.len)); }
        x.op(); size_t got = 0; const bool rz = raises([&]{ for (std::string_view k : r.mapKeys()) { if (got >= pk.size()) bad("key listed beyond those present"); if (k != pk[got]) bad("listed key differs"); if (!mem.holds(k.data(), k.size())) bad("listed key outside the buffer"); ++got; } });
        const bool whole = e.ok && strs; if (!rz && !whole) bad("listing the keys of a malformed map was not refused"); if (rz && whole && !e.ext) bad("listing the keys of a well-formed map was refused"); if (!rz && got != n) bad("key listing stopped early");
        std::vector<std::string> probe = {"", "k", "zz", std::string(40, 'q')}; for (auto& q : ent) if (probe.size() < 12) probe.push_back(q.k); std::sort(probe.begin(), probe.end()); probe.erase(std::unique(probe.begin(), probe.end()), probe.end());
        for (auto& k : probe) {
            size_t hits = 0; const Ent* h = nullptr; for (auto& q : ent) if (q.k == k) { if (!hits) h = &q; ++hits; }
            x.op(2); bool c = false; const bool cr = raises([&]{ c = r.contains(k); });
            if (cr) { if (e.ok && !e.ext) bad("contains() refused a well-formed map"); } else if (c != (hits > 0)) bad(c ? "contains() true for a key that is not there" : "contains() false for a key that is there"); else if (!c && !e.ok) bad("contains() answered false on a malformed map");
            std::optional<D> ch; const bool tr = raises([&]{ ch.emplace(r[std::string_view(k)]); });
            if (tr) { if (e.ok && !e.ext && hits) bad("lookup of a stored key was refused"); continue; }
            if (!hits) bad("lookup returned a value for a key that is not there");
            if (hits == 1 && depth < 3) { const size_t keep = path.size(); path += "." + k.substr(0, 8); value(*ch, h->v, h->ve, depth + 1); path.resize(keep); }
        }
    }
};
static void hit(mc::X& x, std::span<const uint8_t> b, bool tr = false) {
    mc::Bytes m(b); D d(m.span()); Walk w{x, b, m}; w.value(d, 0, b.size(), 0);
    if (tr) { x.op(); std::optional<z::Zera::Deserializer> o; try { o.emplace(z::translate<z::Zera>(d)); } catch (const std::exception&) {} if (o) { auto e = mp::skip(b, 0); if (!e) x.fail("translation accepted malformed bytes " + mc::hex(b)); } }
    if (x.want_sample()) x.sample(mc::hex(b, 60)); x.outcome(mc::hex(b, 60));
}
static const std::vector<uint8_t>& classes() { static const std::vector<uint8_t> c = {0x00, 0x01, 0x02, 0x03, 0x05, 0x10, 0x7f, 0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x92, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff}; return c; }
PART("all-bytes-2") { size_t n = x.choose(3); std::vector<uint8_t> b; if (n == 0) { x.go(); hit(x, b, true); return; } b.push_back(uint8_t(x.choose(256))); x.go(); if (n == 2) b.push_back(uint8_t(x.choose(256))); hit(x, b, true); }
PART("all-bytes-3") { auto& c = classes(); uint8_t a = x.thorough ? uint8_t(x.choose(256)) : c[x.choose(c.size())]; uint8_t m = x.thorough ? uint8_t(x.choose(256)) : c[x.choose(c.size())]; x.go(); for (int v = 0; v < 256; ++v) { const uint8_t b[] = {a, m, uint8_t(v)}; hit(x, b); } }
static void alpha(mc::X& x, size_t len, const std::vector<uint8_t>& A) { std::vector<uint8_t> b; for (size_t j = 0; j < len; ++j) { b.push_back(A[x.choose(A.size())]); if (j == 1) x.go(); } hit(x, b); }
PART("alphabet-4") { alpha(x, 4, classes().size() > 30 && !x.thorough ? std::vector<uint8_t>{0, 1, 2, 0x80, 0x81, 0x82, 0x90, 0x91, 0x92, 0xa0, 0xa1, 0xa2, 0xc0, 0xc1, 0xc4, 0xc5, 0xcc, 0xd4, 0xd9, 0xda, 0xdc, 0xde, 0xff} : classes()); }
PART("alphabet-5") { static const std::vector<uint8_t> A = {0, 1, 0x81, 0x82, 0x92, 0xa0, 0xa1, 0xc1, 0xc4, 0xd9, 0xdc, 0xde, 0xff}; alpha(x, 5, A); }
PART("alphabet-6") { static const std::vector<uint8_t> A = {0, 1, 0x81, 0x92, 0xa0, 0xa1, 0xc4, 0xdc, 0xff}; static const std::vector<uint8_t> B = {0, 1, 2, 0x81, 0x82, 0x91, 0x92, 0xa0, 0xa1, 0xc4, 0xd9, 0xdc, 0xde, 0xdd, 0xff}; alpha(x, 6, x.thorough ? B : A); }
PART_T("alphabet-8") { static const std::vector<uint8_t> A = {0, 1, 0x81, 0x82, 0x92, 0xa1, 0xc4, 0xdc}; alpha(x, 8, A); }
static const std::vector<Val>& docs() { static const std::vector<Val> d = { i64(-1), u64(UINT64_MAX), i64(INT64_MIN), dbl(0.1), str("abc"), str(fill(40, 1)), blob("xyz"), blob(fill(40, 2)), arr({i64(1), str("ab"), blob("c")}), map({{"k", i64(1)}, {"kk", str("v")}}), map({{"", arr({null(), boolean(true)})}, {"k", map({{"x", blob("q")}})}}), arr({arr({arr({u64(300)})}), map({{"k", dbl(2.5)}}), str(fill(33, 3))}), map({{"a", u64(70000)}, {"b", i64(-70000)}, {fill(35, 4), arr()}}),
    [] { Val v = arr(); for (int i = 0; i < 18; ++i) v.a.push_back(u64(i)); return v; }(), [] { Val v = map(); for (int i = 0; i < 17; ++i) { v.keys.push_back(std::string(1, char('a' + i))); v.a.push_back(null()); } return v; }() }; return d; }
static std::vector<uint8_t> doc(mc::X& x) { size_t i = x.choose(docs().size()); size_t f = x.choose(4); size_t c = 0; mp::Out o; mp::enc(docs()[i], o, [&](size_t n) { ++c; return f == 0 ? 0 : f == 1 ? n - 1 : f == 2 ? (c % n) : (n > 1 ? n - 2 : 0); }); return o; }
PART("truncations") { auto b = doc(x); size_t n = x.choose(b.size() + 1); x.go(); hit(x, std::span(b).first(n), true); }
PART("extensions") { auto b = doc(x); size_t n = x.choose(4); x.go(); b.resize(b.size() + n, 0xc1); hit(x, b, true); }
PART("one-byte") { auto b = doc(x); size_t at = x.choose(b.size()); x.go(); size_t v = x.choose(256); b[at] = uint8_t(v); hit(x, b, v % 4 == 0); }
PART("two-bytes") { auto b = doc(x); if (b.size() > 40) b.resize(40); size_t a = x.choose(b.size()), c = x.choose(b.size()); if (c <= a || (!x.thorough && c > a + 3)) throw mc::Prune{}; x.go(); auto& k = classes(); static const std::vector<uint8_t> few = {0, 1, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa1, 0xc1, 0xc6, 0xdb, 0xdd, 0xdf, 0xff}; auto& K = x.thorough ? k : few; b[a] = K[x.choose(K.size())]; b[c] = K[x.choose(K.size())]; hit(x, b); }
PART("declared-sizes") { // each sized marker with hostile sizes over every number of bytes really present
    static const uint8_t M[] = {0xc4, 0xc5, 0xc6, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xc7, 0xc8, 0xc9}; static const int W[] = {1, 2, 4, 1, 2, 4, 2, 4, 2, 4, 1, 2, 4}; size_t m = x.choose(13); static const uint64_t S[] = {0, 1, 2, 3, 15, 16, 31, 32, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff8, 0xfffffffa, 0xfffffffb, 0xfffffffe, 0xffffffff}; uint64_t s = S[x.choose(27)]; size_t nest = x.choose(3); x.go(); size_t have = x.choose(40);
    mp::Out o; if (nest == 1) o.push_back(0x92); if (nest == 2) { o.push_back(0x81); o.push_back(0xa1); o.push_back('k'); } o.push_back(M[m]); mp::be(o, s, W[m]); for (size_t j = 0; j < have; ++j) o.push_back(uint8_t(j % 5 == 4 ? 0xa0 : 0xc0 + (j % 2) * 2)); hit(x, o, true); }
PART("exact-fill") { // declared size equal to, one less and one more than the bytes present, at every width boundary
    static const uint8_t M[] = {0xc4, 0xc5, 0xc6, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xa0}; static const int W[] = {1, 2, 4, 1, 2, 4, 2, 4, 2, 4, 0}; size_t m = x.choose(11); static const size_t S[] = {0, 1, 2, 15, 16, 30, 31, 254, 255, 256, 65534, 65535, 65536, 70000}; size_t s = S[x.choose(14)]; int d = int(x.choose(3)) - 1; x.go(); if ((W[m] == 1 && s > 255) || (W[m] == 2 && s > 65535) || (W[m] == 0 && s > 31) || (m >= 6 && m < 10 && s > 300)) throw mc::Prune{}; if (s == 0 && d < 0) throw mc::Prune{};
    mp::Out o; o.push_back(M[m] == 0xa0 ? uint8_t(0xa0 | s) : M[m]); mp::be(o, s, W[m]); const bool mp_ = M[m] == 0xde || M[m] == 0xdf; size_t have = (mp_ ? 2 * s : s) + size_t(d); for (size_t j = 0; j < have; ++j) o.push_back(mp_ && j % 2 == 0 ? 0xa0 : 0xc0); hit(x, o); }
PART("head-sequences") { // nested container heads with hostile counts, then a short tail
    static const std::vector<std::vector<uint8_t>> H = { {0x91}, {0x92}, {0x9f}, {0x81}, {0x82}, {0x8f}, {0xdc, 0, 1}, {0xdc, 0xff, 0xff}, {0xdd, 0, 0, 0, 2}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {0xdd, 0x80, 0, 0, 0}, {0xde, 0, 1}, {0xde, 0xff, 0xff}, {0xdf, 0x7f, 0xff, 0xff, 0xff}, {0xdf, 0x80, 0, 0, 0}, {0xdf, 0xff, 0xff, 0xff, 0xff}, {0xa1, 'k'}, {0xc0} };
    size_t n = x.choose(x.thorough ? 5 : 4) + 1; mp::Out o; for (size_t j = 0; j < n; ++j) { auto& h = H[x.choose(H.size())]; o.insert(o.end(), h.begin(), h.end()); if (j == 1) x.go(); } if (n == 1) x.go(); static const std::vector<std::vector<uint8_t>> T = { {}, {0xc0}, {0xc0, 0xc0, 0xc0}, {0xa1, 'k', 0x01, 0xa1, 'l', 0xc3} }; auto& t = T[x.choose(x.thorough ? 4 : 2) * (x.thorough ? 1 : 3)]; o.insert(o.end(), t.begin(), t.end()); hit(x, o); }
PART("non-string-keys") { // maps with every kind of key before and after string keys
    static const std::vector<std::vector<uint8_t>> K = { {0xa1, 'k'}, {0xa0}, {0x05}, {0xff}, {0xc0}, {0xc3}, {0xcb, 0, 0, 0, 0, 0, 0, 0, 0}, {0xc4, 1, 'k'}, {0x91, 0xa1, 'k'}, {0x81, 0xa1, 'k', 1}, {0xd4, 1, 'k'}, {0xc1}, {0xd9, 1, 'z'} }; size_t n = x.choose(4); mp::Out o; o.push_back(uint8_t(0x80 | n)); for (size_t j = 0; j < n; ++j) { auto& k = K[x.choose(K.size())]; o.insert(o.end(), k.begin(), k.end()); o.push_back(uint8_t(j)); if (j == 0) x.go(); } if (n == 0) x.go(); hit(x, o, false); }
int main(int c, char** v) { return mc::run_main(c, v, "C07"); }
