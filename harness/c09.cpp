#include "zref.hpp"
using namespace ref;
using P = z::Zera;
// ---- writer side: every buffer produced is validated by an independent strict decoder -------------------
static void writer(mc::X& x, const Val& v, uint32_t limit, bool default_route) {
    std::vector<uint8_t> out;
    if (default_route) out = encode<P>(v);
    else { P::RootSerializer rs; rs.set_inline_string_threshold(limit); P::Serializer w(rs); emit(v, w); out = copy_of(rs.finish()); }
    zr::Strict s{x, out, default_route ? 12 : limit}; Val got = s.run();
    if (!(got == v)) x.fail("the layout decodes to another value: " + show(got) + " instead of " + show(v));
    // and the whole buffer is accounted for deterministically: writing again gives the same bytes
    if (default_route) { auto again = encode<P>(v); x.op(); x.check(again == out, "writing the same value twice gave different bytes"); }
    if (x.want_sample()) x.sample("writer limit " + std::to_string(limit) + " " + show(v));
    x.outcome(show(v).substr(0, 40));
}
static void wr(mc::X& x, const Val& v) { size_t t = x.choose(14); x.go(); writer(x, v, uint32_t(t), t == 13); }
static Val ctx(size_t c, const Val& v) {
    switch (c) { case 0: return v; case 1: return arr({v}); case 2: return map({{"k", v}}); case 3: return arr({v, str(fill(13, 1)), v, blob(fill(3, 2)), v}); case 4: return map({{"a", arr({v, v})}, {"", map({{"x", v}})}, {"zz", v}}); default: return arr({arr({arr({v})}), map({{"k", map({{"k", v}})}}), blob("b")}); }
}
PART("writer-leaves") { Val v = x.pick(leaves()); size_t c = x.choose(6); wr(x, ctx(c, v)); }
PART("writer-pairs") { const Val& a = x.pick(few()); const Val& b = x.pick(few()); bool m = x.flip(); wr(x, m ? map({{"k", a}, {"l", b}}) : arr({a, b})); }
PART("writer-triples") { const Val& a = x.pick(few()); const Val& b = x.pick(few()); const Val& c = x.pick(few()); x.go(); writer(x, arr({a, b, c}), 12, true); writer(x, map({{"one", a}, {"two", b}, {"three", c}}), 12, true); }
PART("writer-trees") { static const std::vector<Val> al = { i64(-5), str("ab"), str(fill(14, 1)), blob(fill(5, 2)) }; int bud = x.thorough ? 7 : 6; Val v = tree(x, al, bud, 3); x.go(); writer(x, v, 12, true); writer(x, v, 1, false); }
PART("writer-lengths") { size_t n = x.choose(80); size_t k = x.choose(3); wr(x, k == 0 ? arr({str(fill(n, 1)), blob("zz"), str(fill(n, 2))}) : k == 1 ? arr({str(fill(20, 1)), blob(fill(n, 1)), blob(fill(n, 2))}) : map({{fill(n, 1), blob(fill(n, 2))}, {"~", str(fill(n, 3))}})); }
PART("writer-big") { static const size_t N[] = {255, 256, 257, 4095, 4096, 65533, 65534, 65535, 65536, 65537, 70000}; size_t n = N[x.choose(11)]; size_t k = x.choose(5); if (k == 2 && n > 65535) throw mc::Prune{}; x.go(); Val v;
    if (k == 0) v = arr({blob("x"), str(fill(n, 1)), blob(fill(n, 2))}); else if (k == 1) v = arr({blob(fill(n, 1)), str("tail"), blob("y")}); else if (k == 2) v = map({{fill(n, 1), i64(1)}, {"b", blob("q")}});
    else { v.k = k == 3 ? Arr : Map; for (size_t j = 0; j < n; ++j) { if (k == 4) v.keys.push_back("k" + std::to_string(j)); v.a.push_back(j % 100 == 0 ? blob(fill(j % 7, 1)) : i64(int64_t(j))); } }
    writer(x, v, 12, true); writer(x, v, 0, false); }
PART("writer-depth") { size_t d = x.choose(x.thorough ? 420 : 120) + 1; if (!x.thorough && d > 115) { static const size_t D[] = {127, 128, 255, 256, 257}; d = D[d - 116]; } size_t pat = x.choose(4); Val v = pat == 3 ? blob(fill(17, 1)) : str(fill(13, 1)); for (size_t j = 0; j < d; ++j) v = (pat == 0 || (pat >= 2 && j % 2)) ? arr({v, u64(j)}) : map({{"k", v}, {"b", blob("b")}}); x.go(); writer(x, v, 12, true); }
PART("writer-string-runs") { // strings and blobs of every residue following each other in the arena
    size_t a = x.choose(34), b = x.choose(34), c = x.choose(18); x.go(); writer(x, arr({str(fill(a, 1)), blob(fill(b, 2)), str(fill(c, 3)), blob(fill(a, 4))}), 12, true); }
// ---- reader side: every layout of a value reads as that value ---------------------------------------------
static void reader(mc::X& x, const Val& v, const zr::Opt& o) {
    auto b = zr::build(v, o); mc::Bytes m(b.bytes); P::Deserializer d(m.span()); Mode md = mode_of<P>(); md.backing = &m; compare(x, v, d, md);
    P::Deserializer own(b.bytes); compare(x, v, own, mode_of<P>());
    if (x.want_sample()) x.sample("reader " + show(v) + " " + mc::hex(b.bytes, 60)); x.outcome(mc::hex(b.bytes, 120));
}
static zr::Opt opts(mc::X& x, bool all) {
    zr::Opt o; o.root_first = x.flip(); o.parents_first = x.flip(); o.shapes_last = x.flip(); static const size_t G[] = {0, 1, 7, 16}; o.env_gap = G[x.choose(all ? 4 : 2)]; o.arena_gap = G[x.choose(all ? 4 : 2)]; o.arena_reverse = x.flip(); o.share = x.flip(); o.no_inline = x.flip();
    o.pad_blocks = x.choose(all ? 3 : 2); o.trailing = G[x.choose(all ? 3 : 1)]; return o;
}
PART("reader-layouts") {
    static const std::vector<Val> V = [] { std::vector<Val> v = { str(""), str("twelve bytes"), str(fill(13, 1)), blob(""), blob(fill(17, 1)), arr(), map(), u64(UINT64_MAX), dbl_bits(0x7ff8000000000001ull) };
        v.push_back(arr({str("abc"), str("abc"), str(fill(20, 1)), str(fill(20, 1)), blob("abc"), blob("abc")}));
        v.push_back(arr({arr({i64(1), str("s")}), arr({i64(1), str("s")}), map({{"k", blob(fill(33, 2))}}), map({{"k", blob(fill(33, 2))}}), null(), boolean(true)}));
        v.push_back(map({{"", str("")}, {"long key with spaces", arr({blob("1"), str(fill(16, 3))})}, {std::string("\0nul", 4), map()}}));
        v.push_back(map({{"a", map({{"b", map({{"c", arr({blob(fill(5, 5)), str(fill(40, 6)), i64(INT64_MIN)})}})}})}, {"z", arr({arr(), map(), arr({arr()})})}}));
        return v; }();
    const Val& v = x.pick(V); zr::Opt o = opts(x, true); x.go(); reader(x, v, o); }
PART("reader-leaves") { const Val& v = x.pick(leaves()); size_t c = x.choose(6); zr::Opt o; size_t k = x.choose(8); o.root_first = k & 1; o.parents_first = k & 2; o.no_inline = k & 4; x.go(); reader(x, ctx(c, v), o); }
PART("reader-trees") { static const std::vector<Val> al = { i64(-5), str("ab"), str(fill(14, 1)), blob(fill(5, 2)) }; int bud = x.thorough ? 6 : 5; Val v = tree(x, al, bud, 3); x.go(); 
    for (int k = 0; k < 8; ++k) { zr::Opt o; o.root_first = k & 1; o.parents_first = k & 2; o.arena_reverse = k & 4; o.share = k & 1; o.env_gap = k & 2 ? 3 : 0; o.arena_gap = k & 4 ? 5 : 0; o.shapes_last = k & 1; reader(x, v, o); } }
PART("reader-string-lengths") { size_t n = x.choose(70); bool inl = x.flip(); size_t before = x.choose(18); x.go(); zr::Opt o; o.no_inline = !inl; o.arena_gap = before; reader(x, arr({str(fill(n, 1)), blob(fill(n, 2)), map({{fill(n, 3), str(fill(n, 4))}})}), o); }
PART("reader-scalars-wire") { // 64-bit payload words of each scalar tag, unused fields carrying anything
    size_t k = x.choose(65); int d = int(x.choose(5)) - 2; size_t kind = x.choose(3); uint32_t c = x.flip() ? 0xdeadbeefu : 0; x.go(); uint64_t w = (k == 64 ? 0 : uint64_t(1) << k) + uint64_t(int64_t(d));
    Val v = kind == 0 ? i64(int64_t(w)) : kind == 1 ? u64(w) : dbl_bits(w); auto b = zr::build(v); zr::put(b.bytes, 20 + 12, c, 4); mc::Bytes m(b.bytes); P::Deserializer r(m.span()); compare(x, v, r, mode_of<P>()); }
int main(int c, char** v) { return mc::run_main(c, v, "C09"); }
