#include "zref.hpp"
#include <zerialize/translate.hpp>
using namespace ref;
static const std::vector<Val>& docs() {
    static const std::vector<Val> D = [] { std::vector<Val> v = { null(), boolean(true), i64(-2), u64(UINT64_MAX), dbl(1.5), str("in"), str(fill(12, 1)), str(fill(14, 1)), blob("xyz"), blob(""), arr(), map(),
        arr({i64(1), str("ab")}), arr({str(fill(13, 1)), blob("pq")}), map({{"k", i64(1)}}), map({{"k", str(fill(15, 2))}, {"", blob("r")}}), map({{"a", arr({u64(3)})}, {"kk", map({{"k", null()}})}}), arr({arr({arr()}), map({{"x", blob(fill(5, 3))}})}), map({{"aa", i64(1)}, {"ab", i64(2)}, {"k", i64(3)}}) };
        return v; }();
    return D;
}
static const zr::Built& base(size_t i, bool alt) { static std::map<std::pair<size_t, bool>, zr::Built> c; auto it = c.find({i, alt}); if (it == c.end()) { zr::Opt o; o.root_first = o.parents_first = o.shapes_last = alt; o.no_inline = alt; it = c.emplace(std::make_pair(i, alt), zr::build(docs()[i], o)).first; } return it->second; }
static void hit(mc::X& x, std::span<const uint8_t> b, bool tr, bool full = false) {
    zr::walk(x, b, full);
    if (tr && zr::Walk::header(b) == zr::Walk::Good) { mc::Bytes m(b); x.op(); try { z::Zera::Deserializer d(m.span()); auto r = z::translate<z::MsgPack>(d); (void)r; } catch (const std::exception&) {} }
    if (x.want_sample()) x.sample(mc::hex(b, 70));
    x.outcome(mc::hex(b, 100));
}
PART("truncations") { size_t i = x.choose(docs().size()); bool alt = x.flip(); auto& b = base(i, alt); size_t n = x.choose(b.bytes.size() + 1); x.go(); hit(x, std::span(b.bytes).first(n), true, true); }
PART("extensions") { size_t i = x.choose(docs().size()); bool alt = x.flip(); size_t n = x.choose(40); x.go(); auto b = base(i, alt).bytes; b.resize(b.size() + n, 0x55); hit(x, b, true); }
PART("one-byte") { size_t i = x.choose(docs().size()); bool alt = x.flip(); auto& b = base(i, alt); size_t at = x.choose(b.bytes.size()); x.go(); size_t v = x.choose(256); auto c = b.bytes; c[at] = uint8_t(v); hit(x, c, v % 8 == 0); }
static std::vector<uint64_t> hostile(const zr::Built& b, const zr::Field& f, bool wide) {
    const uint64_t old = zr::le(b.bytes, f.at, f.w), al = b.bytes.size() - b.arena, es = b.env_size, sz = b.bytes.size(); const uint64_t mask = f.w == 8 ? ~0ull : (1ull << (8 * f.w)) - 1;
    std::vector<uint64_t> v = {0, 1, 2, old + 1, old - 1, mask};
    if (f.w == 1) v.insert(v.end(), {3, 4, 5, 6, 7, 8, 9, 0x80});
    if (f.w == 2) v.insert(v.end(), {12, 13, es, es - 16, 0x8000});
    if (f.w >= 4) { v.insert(v.end(), {4, 16, es, es - 4, es - 16, al, al + 1, sz, sz - b.arena + 1, 0x0fffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffc}); if (wide) v.insert(v.end(), {es - 12, es - 20, es + 1, es - 15, old + 16, old - 16, old + 4, 20, 32, b.arena, b.arena + 16, 0xffffffec, 0xfffffff4}); }
    if (f.w == 8) v.insert(v.end(), {1ull << 32, (1ull << 32) + old, 1ull << 63, 1ull << 61, 1ull << 60});
    for (auto& x : v) x &= mask; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
PART("one-field") { size_t i = x.choose(docs().size()); bool alt = x.flip(); auto& b = base(i, alt); size_t f = x.choose(b.fields.size()); auto h = hostile(b, b.fields[f], true); uint64_t v = h[x.choose(h.size())]; x.go(); auto c = b.bytes; zr::put(c, b.fields[f].at, v, b.fields[f].w); hit(x, c, true, true); }
PART("two-fields") { size_t i = x.choose(docs().size()); bool alt = x.flip(); if (docs()[i].k == Arr && docs()[i].a.size() == 2 && !x.thorough && alt) throw mc::Prune{}; auto& b = base(i, alt); size_t f = x.choose(b.fields.size()), g = x.choose(b.fields.size()); if (g <= f) throw mc::Prune{}; 
    // magic and version alone are covered by the single-field part
    if (!x.thorough && f < 3) throw mc::Prune{}; x.go();
    auto hf = hostile(b, b.fields[f], x.thorough), hg = hostile(b, b.fields[g], x.thorough); uint64_t v = hf[x.choose(hf.size())], w = hg[x.choose(hg.size())]; auto c = b.bytes; zr::put(c, b.fields[f].at, v, b.fields[f].w); zr::put(c, b.fields[g].at, w, b.fields[g].w); hit(x, c, false); }
PART("header-space") { // root, envelope and arena offsets together, over every buffer length to 96
    size_t n = 20 + x.choose(x.thorough ? 80 : 64); static const uint32_t E[] = {0, 1, 15, 16, 17, 20, 31, 32, 36, 48, 64, 0x7fffffff, 0xffffffec, 0xfffffff0, 0xffffffff}; uint32_t es = E[x.choose(15)]; static const uint32_t R[] = {0, 1, 4, 15, 16, 17, 32, 0xfffffff0, 0xffffffff}; uint32_t ro = R[x.choose(9)]; x.go(); static const uint32_t A[] = {0, 16, 20, 32, 36, 48, 64, 80, 96, 0x7ffffff0, 0xfffffff0, 0xffffffff}; uint32_t ao = A[x.choose(12)];
    std::vector<uint8_t> b(n, 0); zr::put(b, 0, 0x564E455A, 4); zr::put(b, 4, 1, 2); zr::put(b, 6, 1, 2); zr::put(b, 8, ro, 4); zr::put(b, 12, es, 4); zr::put(b, 16, ao, 4); for (size_t j = 20; j < n; ++j) b[j] = uint8_t(j % 7 == 0 ? 5 : j % 3); hit(x, b, true, true); }
PART("header-flags") { size_t f = x.choose(65536); x.go(); auto b = base(2, false).bytes; zr::put(b, 6, f, 2); hit(x, b, false); b = base(2, false).bytes; zr::put(b, 4, f, 2); hit(x, b, false); }
PART("reference-space") { // one root reference: all tags x flags x aux x offsets, over small envelopes and arenas
    size_t tag = x.choose(x.thorough ? 256 : 12); static const uint8_t F[] = {0, 1, 2, 3, 0x80, 0xff}; uint8_t fl = F[x.choose(6)]; static const uint16_t U[] = {0, 1, 2, 3, 10, 12, 13, 0x100, 0x8000, 0xffff}; uint16_t aux = U[x.choose(10)]; size_t tail = x.choose(4); x.go();
    static const uint32_t O[] = {0, 4, 12, 16, 20, 28, 32, 0x7fffffff, 0xfffffffc, 0xffffffff}; uint32_t a = O[x.choose(10)], bb = O[x.choose(10)], c = O[x.choose(10)];
    std::vector<uint8_t> b(64 + tail * 16, 0); zr::put(b, 0, 0x564E455A, 4); zr::put(b, 4, 1, 2); zr::put(b, 6, 1, 2); zr::put(b, 8, 0, 4); zr::put(b, 12, 44, 4); zr::put(b, 16, 64, 4);
    b[20] = uint8_t(tag); b[21] = fl; zr::put(b, 22, aux, 2); zr::put(b, 24, a, 4); zr::put(b, 28, bb, 4); zr::put(b, 32, c, 4); zr::put(b, 36, 1, 4); zr::put(b, 40, tail & 1 ? 16 : 1, 8); b[56] = 1; for (size_t j = 64; j < b.size(); ++j) b[j] = uint8_t(j); hit(x, b, false); }
PART("short-buffers") { // every length below a header, zero and header-like bytes
    size_t n = x.choose(24); size_t k = x.choose(3); x.go(); auto h = base(0, false).bytes; std::vector<uint8_t> b(n, k == 0 ? 0 : 0xff); if (k == 2) std::copy_n(h.begin(), n, b.begin()); hit(x, b, true, true); }
PART("counts") { // arrays and maps claiming any count, next to the true one
    size_t n = x.choose(6); bool m = x.flip(); bool after = x.flip(); Val v = m ? map() : arr(); for (size_t j = 0; j < n; ++j) { if (m) v.keys.push_back(std::string(j, 'k')); v.a.push_back(u64(j)); } zr::Opt o; o.root_first = !after; auto b = zr::build(after ? arr({v, str("after")}) : v, o);
    size_t which = 0; for (auto& f : b.fields) if (std::string(f.what) == "count") ++which; size_t pick = x.choose(which); x.go(); size_t at = 0; for (auto& f : b.fields) if (std::string(f.what) == "count" && pick-- == 0) at = f.at;
    static const uint64_t big[] = {0x0fffffff, 0x10000000, 0x10000001, 0x40000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}; size_t c = x.choose(40 + 8); auto y = b.bytes; zr::put(y, at, c < 40 ? c : big[c - 40], 4); hit(x, y, true, true); }
PART("cycles") { // arrays and maps whose references point anywhere inside the envelope
    size_t kind = x.choose(3); size_t a = x.choose(60), c = x.choose(60); x.go(); Val v = kind == 0 ? arr({arr(), arr()}) : kind == 1 ? map({{"k", map()}, {"l", arr()}}) : arr({map({{"k", arr()}})}); auto b = zr::build(v); std::vector<size_t> as; for (auto& f : b.fields) if (f.what[0] == 'a' && f.what[1] == 0) as.push_back(f.at); zr::put(b.bytes, as[0], a, 4); zr::put(b.bytes, as[1], c, 4); hit(x, b.bytes, true); }
int main(int c, char** v) { return mc::run_main(c, v, "C06"); }
