#include "mpref.hpp"
#include <zerialize/translate.hpp>
using namespace ref;
// A chain of translations from protocol a through b to c; every intermediate owner is destroyed before the result is read.
static Mode any_mode(Mode m) { m.ints = 2; m.ordered = false; return m; }
template<class D> struct Tag { using P = D; };
template<class F> auto with(size_t p, F f) { if (p == 0) return f(Tag<z::Zera>{}); if (p == 1) return f(Tag<z::MsgPack>{}); return f(Tag<z::Flex>{}); }

template<class A, class B> void pair_check(mc::X& x, const Val& v, std::span<const uint8_t> src) {
    std::vector<uint8_t> before(src.begin(), src.end());
    auto* b = new mc::Bytes(src);
    auto* d = new typename A::Deserializer(b->span());
    typename B::Deserializer r = z::translate<B>(*d);
    x.check(std::memcmp(b->p, before.data(), before.size()) == 0, "translation altered the source bytes");
    Mode m = any_mode(mode_of<A>()); compare(x, v, *d, m);            // source still reads the same
    delete d; std::memset(b->p, 0xEE, b->n); delete b;                  // source gone
    compare(x, v, r, any_mode(mode_of<B>()));
}
template<class A, class B, class C> void chain_check(mc::X& x, const Val& v, std::span<const uint8_t> src) {
    auto* b = new mc::Bytes(src); auto* d = new typename A::Deserializer(b->span());
    auto* m = new typename B::Deserializer(z::translate<B>(*d)); delete d; delete b;
    auto r = z::translate<C>(*m); delete m;
    compare(x, v, r, any_mode(mode_of<C>()));
    // the translated document translates back
    auto back = z::translate<A>(r); compare(x, v, back, any_mode(mode_of<A>()));
}
static void pairs(mc::X& x, const Val& v) {
    size_t a = x.choose(3), b = x.choose(3); x.go();
    with(a, [&](auto A) { using PA = typename decltype(A)::P; auto enc = encode<PA>(v); with(b, [&](auto B) { pair_check<PA, typename decltype(B)::P>(x, v, enc); }); });
    if (x.want_sample()) x.sample(std::to_string(a) + "->" + std::to_string(b) + " " + show(v));
    x.outcome(std::to_string(a * 3 + b) + show(v).substr(0, 30));
}
static void chains(mc::X& x, const Val& v) {
    size_t a = x.choose(3), b = x.choose(3), c = x.choose(3); x.go();
    with(a, [&](auto A) { using PA = typename decltype(A)::P; auto enc = encode<PA>(v); with(b, [&](auto B) { with(c, [&](auto C) { chain_check<PA, typename decltype(B)::P, typename decltype(C)::P>(x, v, enc); }); }); });
}
static Val ctx(size_t c, const Val& v) {
    switch (c) {
        case 0: return v; case 1: return arr({v}); case 2: return map({{"k", v}});
        case 3: return arr({arr({v}), map({{"y", v}, {"x", v}}), v});
        case 4: return map({{"z", map({{"", v}, {"deep", arr({v})}})}, {"a", v}});
        default: return arr({str(fill(20, 9)), v, blob(fill(5, 9)), v, map(), arr()});
    }
}
PART("leaf-pairs-of-protocols") { Val v = x.pick(leaves()); size_t c = x.choose(6); pairs(x, ctx(c, v)); }
PART("leaf-chains") { Val v = x.pick(leaves()); size_t c = x.flip() ? 5 : 3; chains(x, ctx(c, v)); }
PART("two-values") { Val a = x.pick(few()), b = x.pick(few()); bool m = x.flip(); pairs(x, m ? map({{"k1", a}, {"k0", b}}) : arr({a, b})); }
PART("trees") { static const std::vector<Val> al = { null(), u64(UINT64_MAX), str(fill(21, 1)), blob(fill(9, 2)) }; int bud = x.thorough ? 6 : 5; Val v = tree(x, al, bud, 3); pairs(x, v); }
PART("ints") { size_t k = x.choose(65); int d = int(x.choose(5)) - 2; size_t kind = x.choose(3);
    uint64_t base = (k == 64 ? 0 : (uint64_t(1) << k)) + uint64_t(int64_t(d)); Val v = kind == 0 ? u64(base) : i64(int64_t(kind == 1 ? base : 0 - base)); chains(x, arr({v, v})); }
PART("doubles") { size_t e = x.choose(2048); bool sg = x.flip(); std::vector<Val> a; for (uint64_t m : {0ull, 1ull, 0xfffffffffffffull, 0x8000000000000ull, 0x20000000ull}) a.push_back(dbl_bits((uint64_t(sg) << 63) | (uint64_t(e) << 52) | m)); pairs(x, arr(a)); }
PART("lengths") { static const std::vector<size_t> L = [] { std::set<size_t> s; for (size_t i = 0; i <= 40; ++i) s.insert(i); for (size_t a : {64u, 128u, 255u, 256u, 257u, 1000u, 4096u, 65534u, 65535u, 65536u, 65537u}) s.insert(a); return std::vector<size_t>(s.begin(), s.end()); }();
    size_t n = L[x.choose(L.size())]; size_t kind = x.choose(3); if (kind == 2 && n > 65535) throw mc::Prune{}; std::string s = fill(n, 3); pairs(x, kind == 0 ? arr({str(s), i64(1), str(s)}) : kind == 1 ? arr({blob(s), i64(1)}) : map({{s, i64(1)}, {"zz~", str(s)}})); }
PART("counts") { static const size_t N[] = {0, 1, 2, 14, 15, 16, 17, 31, 32, 33, 100, 127, 128, 255, 256, 257, 300}; size_t n = N[x.choose(17)]; bool m = x.flip(); Val v; v.k = m ? Map : Arr; for (size_t j = 0; j < n; ++j) { if (m) v.keys.push_back("k" + std::to_string((j * 7919) % 1009)); v.a.push_back(j % 3 == 0 ? i64(int64_t(j) - 5) : j % 3 == 1 ? str(fill(j % 20, unsigned(j))) : blob(fill(j % 9, unsigned(j)))); } pairs(x, m ? map({{"m", v}}) : arr({v, str("after")})); }
PART("large-counts") { size_t n = 65533 + x.choose(4); size_t a = x.choose(3), b = x.choose(3); x.go(); Val v; v.k = Arr; for (size_t j = 0; j < n; ++j) v.a.push_back(u64(j % 50));
    if (a == 1 && b == 1 && !x.thorough) { } // MsgPack indexing is linear: quadratic; done in the thorough tier only
    if (a == 1 && !x.thorough) return;
    with(a, [&](auto A) { using PA = typename decltype(A)::P; auto enc = encode<PA>(v); typename PA::Deserializer d(enc); with(b, [&](auto B) { auto r = z::translate<typename decltype(B)::P>(d); x.check(r.arraySize() == n, "element count changed"); for (size_t j : {size_t(0), size_t(1), n / 2, n - 1}) { x.op(); x.check((r[j].isInt() ? uint64_t(r[j].asInt64()) : r[j].asUInt64()) == j % 50, "element changed"); } }); }); }
PART("sized-siblings") { // translation carries values of every header size, and what follows them
    size_t n = x.pick(header_sizes()), k = x.choose(SIZED), c = x.choose(AROUND), a = x.choose(3), b = x.choose(3); x.go(); if (n > 300 && (k == 2 || k == 3 || k == 4 || (k == 5 && n > 65535))) throw mc::Prune{}; const Val v = around(c, sized(k, n));
    with(a, [&](auto A) { using PA = typename decltype(A)::P; auto e = encode<PA>(v); typename PA::Deserializer d(e); with(b, [&](auto B) { using PB = typename decltype(B)::P; auto r = z::translate<PB>(d); Mode m = any_mode(mode_of<PB>()); sparse(x, v, r, m); }); }); }
PART("depth") { size_t d = levels()[x.choose(levels().size())]; size_t pat = x.choose(3); bool b = x.flip(); if (d > 40 && (b || (pat != 2 && d != 256 && d != 400))) throw mc::Prune{}; pairs(x, nested(pat, d, b ? str(fill(13, 1)) : arr({dbl(0.5), blob("qq")}))); }
PART("sub-values") { // translating a value reached inside a document, and splicing it into another document
    Val v = x.pick(leaves()); size_t a = x.choose(3), b = x.choose(3); bool inmap = x.flip(); x.go();
    Val doc = inmap ? map({{"q", str("quux")}, {"k", arr({v, map({{"r", v}})})}}) : arr({str("pre"), arr({v, map({{"r", v}})}), blob("post")}); Val sub = inmap ? doc.a[1] : doc.a[1];
    with(a, [&](auto A) { using PA = typename decltype(A)::P; auto enc = encode<PA>(doc); mc::Bytes by(enc); typename PA::Deserializer d(by.span());
        auto run = [&](const auto& s) { with(b, [&](auto B) { using PB = typename decltype(B)::P; auto r = z::translate<PB>(s); compare(x, sub, r, any_mode(mode_of<PB>()));
            typename PB::RootSerializer rs; typename PB::Serializer w(rs); w.begin_map(2); w.key("one"); z::write_value(s, w); w.key("two"); z::write_value(s[size_t(1)], w); w.end_map(); auto buf = rs.finish(); typename PB::Deserializer r2(buf.buf()); compare(x, map({{"one", sub}, {"two", sub.a[1]}}), r2, any_mode(mode_of<PB>())); }); };
        if (inmap) run(d["k"]); else run(d[size_t(1)]); }); }
PART("foreign-msgpack") { // source documents using every other legal MessagePack form
    static const std::vector<Val> V = { i64(5), i64(-3), u64(200), i64(70000), dbl(1.5), dbl(-0.0), str("abc"), blob("xy"), str(""), boolean(true), null() };
    Val a = x.pick(V), b = x.pick(V); bool m = x.flip(); mp::Out o; Val v = m ? map({{"k", a}, {"l", b}}) : arr({a, b}); mp::enc(v, o, [&](size_t n) { return n == 1 ? size_t(0) : x.choose(n); }); size_t dst = x.choose(3); x.go();
    with(dst, [&](auto B) { pair_check<z::MsgPack, typename decltype(B)::P>(x, v, o); }); }
PART("key-bytes") { size_t c = x.choose(255) + 1; if (c == 0x6d) throw mc::Prune{}; std::string k(1, char(c)); pairs(x, map({{k, i64(1)}, {"mm", i64(2)}, {k + k, i64(3)}, {"m" + k, i64(4)}})); }
PART("translate-bytes") { Val v = x.pick(leaves()); size_t a = x.choose(3), b = x.choose(3); x.go(); with(a, [&](auto A) { using PA = typename decltype(A)::P; auto enc = encode<PA>(arr({v, v})); typename PA::Deserializer d(enc); with(b, [&](auto B) { using PB = typename decltype(B)::P; auto r = z::translate_bytes<PB, typename PA::Deserializer>(d); compare(x, arr({v, v}), r, any_mode(mode_of<PB>())); }); }); }
int main(int c, char** v) { return mc::run_main(c, v, "C02"); }
