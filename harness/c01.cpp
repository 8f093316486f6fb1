#include "val.hpp"
#include <sys/mman.h>
using namespace ref;
template<class P> void trip(mc::X& x, const Val& v) {
    auto enc = z::serialize<P>(v);
    mc::Bytes b(enc.buf());
    typename P::Deserializer d(b.span());
    Mode m = mode_of<P>(); m.backing = &b;
    compare(x, v, d, m);
    // the returned buffer itself, and an owning reader
    typename P::Deserializer d2(enc.to_vector_copy());
    m.backing = nullptr; compare(x, v, d2, m);
    x.outcome(std::string(P::Name) + ":" + std::to_string(enc.size()));
}
static void all(mc::X& x, const Val& v) {
    size_t p = x.choose(3); x.go();
    if (p == 0) { trip<z::Zera>(x, v); } else if (p == 1) { trip<z::MsgPack>(x, v); } else { trip<z::Flex>(x, v); }
    if (x.want_sample()) x.sample(show(v));
}
static Val context(size_t c, const Val& v) {
    switch (c) {
        case 0: return v;
        case 1: return arr({v});
        case 2: return map({{"k", v}});
        case 3: return arr({arr({v}), v});
        case 4: return map({{"z", map({{"", v}})}, {"a", v}});
        case 5: return arr({str(fill(20, 9)), v, blob(fill(5, 9)), v});
        case 6: return map({{"b", blob(fill(33, 1))}, {"a", v}, {"c", str(fill(14, 2))}});
        default: return arr({map({{"q", v}}), map({{"q", null()}}), v});
    }
}
PART("leaf-in-context") { Val v = x.pick(leaves()); size_t c = x.choose(8); all(x, context(c, v)); }
PART("leaf-pairs") { Val a = x.pick(leaves()); Val b = x.pick(leaves()); bool m = x.flip(); all(x, m ? map({{"k1", a}, {"k0", b}}) : arr({a, b})); }
PART("triples") { Val a = x.pick(few()), b = x.pick(few()), c = x.pick(few()); bool m = x.flip(); all(x, m ? map({{"m", a}, {"n", b}, {"", c}}) : arr({a, b, c})); }
PART("trees") { static const std::vector<Val> al = { null(), i64(-5), dbl(1e100), str("s"), str(fill(21, 1)), blob(fill(9, 2)) }; int bud = x.thorough ? 6 : 5; Val v = tree(x, al, bud, 3); all(x, v); }
PART("ints-dense") { // every integer in [-70000, 70000], in blocks, signed and unsigned
    size_t blk = x.choose(2188); bool un = x.flip(); std::vector<Val> a; for (int j = 0; j < 64; ++j) { int64_t n = -70000 + int64_t(blk) * 64 + j; if (un) { if (n >= 0) a.push_back(u64(uint64_t(n))); } else a.push_back(i64(n)); }
    all(x, arr(std::move(a))); }
PART("ints-boundaries") { // +-(2^k + d), alone at the root and between neighbours
    size_t k = x.choose(65); int d = int(x.choose(7)) - 3; size_t kind = x.choose(3); bool root = x.flip();
    uint64_t base = (k == 64 ? 0 : (uint64_t(1) << k)) + uint64_t(int64_t(d)); Val v = kind == 0 ? u64(base) : i64(int64_t(kind == 1 ? base : 0 - base));
    all(x, root ? v : arr({i64(1), v, str("t")})); }
PART("doubles") { // every exponent x mantissa classes x sign
    size_t e = x.choose(2048); static const uint64_t M[] = {0, 1, 0xfffffffffffffull, 0x8000000000000ull, 0x20000000ull, 0x10000000ull, 0xfffffe0000000ull}; size_t mi = x.choose(7); bool sg = x.flip(); bool root = x.flip();
    Val v = dbl_bits((uint64_t(sg) << 63) | (uint64_t(e) << 52) | M[mi]); all(x, root ? v : arr({v, dbl(0.5), v})); }
PART("string-lengths") { size_t n = lengths(x.thorough)[x.choose(lengths(x.thorough).size())]; size_t c = x.choose(4); Val s = str(fill(n, 3));
    all(x, c == 0 ? s : c == 1 ? arr({str("pre-arena-string"), s, str("post-arena-string"), i64(7)}) : c == 2 ? map({{"b", s}, {"a", blob(fill(3, 1))}}) : arr({blob(fill(n % 37, 2)), s, s})); }
PART("blob-lengths") { size_t n = lengths(x.thorough)[x.choose(lengths(x.thorough).size())]; size_t c = x.choose(4); Val s = blob(fill(n, 4));
    all(x, c == 0 ? s : c == 1 ? arr({str("pre-arena-string"), s, str("post-arena-string"), i64(7)}) : c == 2 ? map({{"b", s}, {"a", str(fill(13, 1))}}) : arr({s, blob(fill(n % 31, 2)), s})); }
PART("key-lengths") { size_t n = lengths(x.thorough)[x.choose(lengths(x.thorough).size())]; size_t c = x.choose(3); std::string k = fill(n, 5); size_t p = x.choose(3); x.go();
    Val v = c == 0 ? map({{k, i64(1)}}) : c == 1 ? map({{"!first", str(fill(14, 1))}, {k, str("v")}, {"~last", u64(9)}}) : arr({map({{k, map({{k + "", blob(fill(4, 1))}})}}), i64(3)});
    if (p == 0 && n > 65535) { bool t = false; try { (void)z::serialize<z::Zera>(v); } catch (const z::SerializationError&) { t = true; } x.op(); x.check(t, "Zera encoded a key longer than its length field"); return; }
    if (p == 0) trip<z::Zera>(x, v); else if (p == 1) trip<z::MsgPack>(x, v); else trip<z::Flex>(x, v); }
PART("array-counts") { static const std::vector<size_t> q = [] { std::vector<size_t> v; for (size_t i = 0; i <= 70; ++i) v.push_back(i); for (size_t i : {127u, 128u, 254u, 255u, 256u, 257u, 258u, 1000u, 2049u}) v.push_back(i); return v; }();
    size_t n = q[x.choose(q.size())]; size_t c = x.choose(4); std::vector<Val> a; for (size_t j = 0; j < n; ++j) a.push_back(c == 0 ? i64(int64_t(j) * 257 - 3) : c == 1 ? str(fill(j % 29, unsigned(j))) : c == 2 ? (j % 3 ? blob(fill(j % 19, unsigned(j))) : null()) : arr({u64(j)}));
    all(x, x.flip() ? arr({arr(a), str("tail-after-array")}) : arr(a)); }
PART("map-counts") { static const std::vector<size_t> q = [] { std::vector<size_t> v; for (size_t i = 0; i <= 70; ++i) v.push_back(i); for (size_t i : {127u, 128u, 254u, 255u, 256u, 257u, 258u, 600u}) v.push_back(i); return v; }();
    size_t n = q[x.choose(q.size())]; size_t c = x.choose(3); Val m; m.k = Map; for (size_t j = 0; j < n; ++j) { m.keys.push_back((c == 2 ? "" : "key") + std::to_string((j * 7919) % 100003)); m.a.push_back(c == 0 ? i64(int64_t(j)) : c == 1 ? str(fill(j % 23, unsigned(j))) : map({{"v", dbl(double(j) + 0.25)}})); }
    all(x, x.flip() ? map({{"m", m}, {"z", i64(1)}}) : m); }
PART("large-counts") { // 16-bit boundaries of element counts; indexed sparsely (MsgPack indexing is linear)
    static const size_t N[] = {65534, 65535, 65536, 65537, 70000}; size_t n = N[x.choose(5)]; size_t p = x.choose(3); bool mp = x.flip(); x.go();
    Val v; v.k = mp ? Map : Arr; for (size_t j = 0; j < n; ++j) { if (mp) v.keys.push_back("k" + std::to_string(j)); v.a.push_back(u64(j)); } v.a.back() = str("the last element"); 
    auto sparse = [&]<class P>(P*) { auto enc = z::serialize<P>(v); mc::Bytes b(enc.buf()); typename P::Deserializer d(b.span());
        if (!mp) { x.check(d.isArray() && d.arraySize() == n, "array size differs"); x.check(d[n - 1].asString() == "the last element", "last element differs"); for (size_t j : {size_t(0), size_t(255), size_t(256), size_t(32768), size_t(65533)}) if (j != n - 1) { x.op(); x.check(d[j].asUInt64() == j, "element differs"); } x.check(raises([&]{ (void)d[n]; }), "index n accepted"); }
        else { size_t c = 0; std::set<std::string> ks; for (auto k : d.mapKeys()) { ++c; ks.insert(std::string(k)); } x.check(d.isMap() && c == n && ks.size() == n, "key count differs"); for (size_t j : {size_t(0), size_t(255), size_t(256), size_t(32768), size_t(65533)}) if (j != n - 1) { x.op(); x.check(d["k" + std::to_string(j)].asUInt64() == j, "value differs"); } x.check(d["k" + std::to_string(n - 1)].asString() == "the last element", "last value differs"); x.check(!d.contains("k" + std::to_string(n)), "absent key present"); } };
    if (p == 0) sparse((z::Zera*)0); else if (p == 1) sparse((z::MsgPack*)0); else sparse((z::Flex*)0); }
PART("sized-siblings") { // a value whose size sits on each header boundary, followed by siblings, at two depths
    size_t n = x.pick(header_sizes()), k = x.choose(SIZED), c = x.choose(AROUND), p = x.choose(3); x.go(); if (p == 0 && k == 5 && n > 65535) throw mc::Prune{}; const Val v = around(c, sized(k, n));
    auto run = [&]<class P>(P*) { auto e = encode<P>(v); mc::Bytes b(e); typename P::Deserializer d(b.span()); sparse(x, v, d, mode_of<P>()); }; if (p == 0) run((z::Zera*)0); else if (p == 1) run((z::MsgPack*)0); else run((z::Flex*)0); }
PART("depth-chains") { // nesting chains: all array/map patterns to depth 6
    size_t d = x.choose(6) + 1; size_t pat = x.choose(size_t(1) << d); Val v = x.pick(few());
    for (size_t j = 0; j < d; ++j) v = (pat >> j) & 1 ? map({{"k", v}}) : arr({v});
    all(x, v); }
PART("deep-chains") { // uniform chains to depth 400, and mixed ones of depth 513 and 1001
    static const std::vector<size_t> D = [] { std::vector<size_t> r; for (size_t i = 7; i <= 70; ++i) r.push_back(i); for (size_t i : {96u, 127u, 128u, 129u, 199u, 200u, 255u, 256u, 257u, 300u, 400u, 513u, 1001u}) r.push_back(i); return r; }();
    size_t d = x.pick(D), pat = d > 500 ? 2 : x.choose(3); bool s = d > 200 ? true : x.flip(); Val v = s ? str(fill(13, 1)) : i64(-7);
    for (size_t j = 0; j < d; ++j) v = (pat == 0 ? false : pat == 1 ? true : bool(j % 2)) ? map({{"k", v}}) : arr({v});
    all(x, v); }
PART("depth-siblings") { size_t d = x.choose(60); bool mp = x.flip(); Val v = str(fill(14, 1)); for (size_t j = 0; j < d; ++j) v = mp ? map({{"a", u64(j)}, {"n", v}, {"z", str(fill(13 + j % 3, unsigned(j)))}}) : arr({str(fill(j % 20, unsigned(j))), v, blob(fill(j % 18, unsigned(j)))}); all(x, v); }
PART("string-bytes") { // every byte value at every position class of strings, blobs and keys
    size_t by = x.choose(256); static const size_t L[] = {1, 2, 12, 13, 32}; size_t n = L[x.choose(5)]; size_t where = x.choose(3); size_t kind = x.choose(3); size_t pos = where == 0 ? 0 : where == 1 ? n / 2 : n - 1; std::string s = fill(n, 1); s[pos] = char(by);
    if (kind == 2 && by == 0) { size_t p = x.choose(4); x.go(); Val v = map({{s, i64(1)}, {"other", i64(2)}}); if (p == 0) trip<z::Zera>(x, v); else if (p == 1) trip<z::MsgPack>(x, v); // FlexBuffers keys are NUL-terminated
        else { bool threw = false; x.op(); try { if (p == 2) (void)encode<z::Flex>(v); else { auto e = encode<z::Zera>(v); z::Zera::Deserializer d{std::span<const uint8_t>(e)}; (void)z::translate<z::Flex>(d); } } catch (const z::SerializationError&) { threw = true; } if (!threw) x.fail("a key with a NUL inside was accepted by Flex, which cannot store it"); } return; }
    all(x, kind == 0 ? arr({str(s), str(s)}) : kind == 1 ? arr({blob(s)}) : map({{s, i64(1)}, {"other", str(s)}})); }
PART("two-byte-strings") { size_t hi = x.choose(256); bool bl = x.flip(); std::vector<Val> a; for (int j = 0; j < 256; ++j) { std::string s{char(hi), char(j)}; a.push_back(bl ? blob(s) : str(s)); } all(x, arr(a)); }
PART("zera-inline-limit") { // configured inline limit x string length, mixed with neighbours
    size_t t = x.choose(13); size_t n = x.choose(30); size_t n2 = x.choose(5) * 4; x.go(); Val v = arr({str(fill(n, 1)), map({{"k", str(fill(n2, 2))}}), str(fill(n, 3)), blob(fill(n, 4))});
    z::Zera::RootSerializer rs; rs.set_inline_string_threshold(uint32_t(t)); z::Zera::Serializer w(rs); emit(v, w); auto enc = rs.finish(); mc::Bytes b(enc.buf()); z::Zera::Deserializer d(b.span()); Mode m = mode_of<z::Zera>(); m.backing = &b; compare(x, v, d, m); }
PART("wide-documents") { // envelope and arena beyond 64 KiB
    size_t c = x.choose(4); std::vector<Val> a; for (size_t j = 0; j < 300; ++j) a.push_back(c == 0 ? str(fill(300 + j, unsigned(j))) : c == 1 ? map({{fill(250, unsigned(j)), u64(j)}}) : c == 2 ? blob(fill(301 + j, unsigned(j))) : arr({str(fill(300, 1)), blob(fill(j, 1)), i64(-int64_t(j) * 1000003)}));
    all(x, arr({arr(a), map({{"t", str(fill(100, 1))}})})); }
PART("empty-serialize") { size_t p = x.choose(2); x.go(); if (p == 0) { auto b = z::serialize<z::Zera>(); z::Zera::Deserializer d(b.buf()); x.check(d.isNull(), "empty Zera document is not null"); } else { auto b = z::serialize<z::Flex>(); z::Flex::Deserializer d(b.buf()); x.check(d.isNull(), "empty Flex document is not null"); } x.op(); }
PART_T("huge-payload") { size_t p = x.choose(3); bool bl = x.flip(); size_t n = (size_t(1) << 24) + x.choose(3); x.go(); Val s = bl ? blob(fill(n, 1)) : str(fill(n, 1)); Val v = arr({str("x"), s, str(fill(20, 1))}); if (p == 0) trip<z::Zera>(x, v); else if (p == 1) trip<z::MsgPack>(x, v); else trip<z::Flex>(x, v); }
// Sizes the wire formats cannot express: refused, never stored modulo 2^32. (Sources are untouched zero pages.)
static const char* zeros() { static const char* p = static_cast<const char*>(mmap(nullptr, (size_t(1) << 33) + 8192, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); return p; }
template<class P> static bool refused(mc::X& x, auto f) { try { typename P::RootSerializer rs{}; typename P::Serializer w{rs}; f(w); auto b = rs.finish(); typename P::Deserializer d(b.buf()); const size_t n = d.isArray() ? d.arraySize() : d.isString() ? d.asStringView().size() : d.isBlob() ? d.asBlob().size() : 0; x.fail("accepted; reads back with size " + std::to_string(n)); } catch (const std::bad_alloc&) { return true; } catch (const z::SerializationError&) { return true; } return false; }
PART("sizes-beyond-32-bits") { static const size_t N[] = {size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 32) + 300, size_t(1) << 33, (size_t(1) << 33) + 4096, ~size_t(0), ~size_t(0) >> 1, (size_t(1) << 63) + 2};
    size_t p = x.choose(2), kind = x.choose(5), i = x.choose(8), in = x.choose(2); if ((kind < 3 && i > 4) || (p == 0 && kind > 2)) throw mc::Prune{}; x.go(); x.op(); const size_t n = N[i];
    auto body = [&](auto& w) { if (in) { w.begin_array(2); w.null(); } switch (kind) { case 0: w.string({zeros(), n}); break; case 1: w.binary({reinterpret_cast<const std::byte*>(zeros()), n}); break; case 2: w.begin_map(1); w.key({zeros(), n}); w.null(); w.end_map(); break; case 3: w.begin_array(n); w.null(); w.null(); w.end_array(); break; default: w.begin_map(n); w.key("k"); w.null(); w.end_map(); } if (in) w.end_array(); };
    if (p == 0) refused<z::Zera>(x, body); else refused<z::MsgPack>(x, body); x.outcome("refused"); }
int main(int c, char** v) { return mc::run_main(c, v, "C01"); }
