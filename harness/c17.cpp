// C17: document objects through every history of opening, copying, moving, assigning and destroying.
#include "val.hpp"
#include <optional>
#include <list>
#ifndef PROTO
#define PROTO 0
#endif
#if PROTO == 3
#include <zerialize/protocols/json.hpp>
#elif PROTO == 4
#include <zerialize/protocols/cbor.hpp>
#endif
using namespace ref;
#if PROTO == 0
using P = z::Zera; static Mode md() { return mode_of<P>(); }
#elif PROTO == 1
using P = z::MsgPack; static Mode md() { return mode_of<P>(); }
#elif PROTO == 2
using P = z::Flex; static Mode md() { return mode_of<P>(); }
#elif PROTO == 3
using P = z::JSON; static Mode md() { return {true, 2, false, false}; }
#else
using P = z::CBOR; static Mode md() { return {true, 2, false}; }
#endif
using Bytes = std::vector<uint8_t>;
// documents of every size class: one that fits inline buffers, an ordinary one, a larger one
static const std::vector<Val>& docs() { static const std::vector<Val> V = { ref::i64(7), ref::map({{"a", ref::arr({ref::i64(1), ref::str("two"), ref::blob(fill(20))})}, {"key-longer-than-twelve", ref::str(fill(30))}, {"c", ref::map({{"x", ref::dbl(2.5)}})}}), ref::arr({ref::str(fill(700, 3)), ref::u64(5), ref::str("z")}), ref::str("root string of some length") }; return V; }
static const Bytes& bytes_of(size_t d) { static std::vector<Bytes> B = [] { std::vector<Bytes> b; for (auto& v : docs()) b.push_back(encode<P>(v)); return b; }(); return B[d]; }
// a template, so that what a protocol does not offer is discarded
template<class D> struct H {
static constexpr bool COPIES = std::is_copy_constructible_v<D>;
struct Slot { std::optional<D> d; int val = -1; int src = -1; };          // val: the document it was last given (-1: none or moved from); src: borrowed source
struct World {
    mc::X& x; std::vector<std::unique_ptr<Bytes>> src; Slot s[3];
    // ways of opening; the first two copy or take the bytes, the others borrow them
    static constexpr int WAYS = COPIES ? 6 : 4;
    int opened(int way, size_t doc, D*& out, std::optional<D>& slot, bool assign) {
        auto put = [&](D&& n) { if (assign && slot) *slot = std::move(n); else slot.emplace(std::move(n)); };
        int borrowed = -1; const Bytes& b = bytes_of(doc);
        auto borrow = [&]() -> Bytes& { src.push_back(std::make_unique<Bytes>(b)); borrowed = int(src.size()) - 1; return *src.back(); };
        if constexpr (COPIES) {
            switch (way) {
                case 0: { Bytes v = b; D n(static_cast<const Bytes&>(v)); for (auto& c : v) c = 0xC1; v.clear(); v.shrink_to_fit(); put(std::move(n)); break; }      // copied; the source is changed and goes
                case 1: { Bytes v = b; v.reserve(v.size() + 32); D n(std::move(v)); v = Bytes(3, 9); put(std::move(n)); break; }                                           // taken; the source is reused
                case 2: { Bytes& v = borrow(); put(D(std::span<const uint8_t>(v))); break; }
                case 3: { Bytes v = b; if constexpr (requires { D::copy_from(std::span<const uint8_t>(v)); }) { D n = D::copy_from(std::span<const uint8_t>(v)); for (auto& c : v) c = 0xFF; put(std::move(n)); } else { Bytes& w = borrow(); if constexpr (requires { D(w.data(), w.size()); }) put(D(w.data(), w.size())); else put(D(std::span<const uint8_t>(w))); } break; }
                case 4: { Bytes& w = borrow(); if constexpr (requires { D(reinterpret_cast<const std::byte*>(w.data()), w.size()); }) put(D(reinterpret_cast<const std::byte*>(w.data()), w.size())); else put(D(std::span<const uint8_t>(w))); break; }
                default: { Bytes v = b; std::optional<D> t; t.emplace(static_cast<const Bytes&>(v)); Bytes().swap(v); D n(*t); t.reset(); put(std::move(n)); }                // a copy whose original is gone
            }
        } else { // JSON parses into its own document: the text may go at once
            Bytes v = b; switch (way) { case 0: { D n{std::span<const uint8_t>(v)}; for (auto& c : v) c = '!'; put(std::move(n)); break; } case 1: { D n(v.data(), v.size()); Bytes().swap(v); put(std::move(n)); break; } case 2: { std::string t(v.begin(), v.end()); D n{std::string_view(t)}; t.assign(t.size(), '?'); put(std::move(n)); break; } default: put(D(std::string_view(reinterpret_cast<const char*>(v.data()), v.size()))); }
        }
        return borrowed;
    }
    void check() { for (auto& q : s) if (q.d && q.val >= 0) { x.op(); compare(x, docs()[size_t(q.val)], *q.d, md()); } }
    void release_unused() { for (size_t j = 0; j < src.size(); ++j) { bool used = false; for (auto& q : s) used |= q.d && q.src == int(j); if (!used && src[j]) { std::memset(src[j]->data(), 0xC1, src[j]->size()); src[j].reset(); } } }
};
static constexpr int PR[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
// operations: open into a slot, copy-construct, copy-assign, move-construct, move-assign, self-assign, swap, destroy, pass through containers
static bool step(World& w, size_t op, const std::vector<std::pair<int, size_t>>& opens) {
    auto& s = w.s; const size_t no = opens.size();
    if (op < 3 * no) { auto [way, doc] = opens[op % no]; auto& q = s[op / no]; D* o = nullptr; int b = w.opened(way, doc, o, q.d, true); q.val = int(doc); q.src = b; return true; }
    op -= 3 * no;
    if (op < 6) { auto &a = s[PR[op][0]], &b = s[PR[op][1]]; if (!a.d || a.val < 0) return false; if constexpr (COPIES) { if (b.d) *b.d = *a.d; else b.d.emplace(*a.d); b.val = a.val; b.src = a.src; return true; } else return false; }
    op -= 6;
    if (op < 6) { auto &a = s[PR[op][0]], &b = s[PR[op][1]]; if (!a.d || a.val < 0) return false; if (b.d) *b.d = std::move(*a.d); else b.d.emplace(std::move(*a.d)); b.val = a.val; b.src = a.src; a.val = -1; return true; }
    op -= 6;
    if (op < 3) { auto& a = s[op]; if (!a.d) return false; a.d.reset(); a.val = -1; a.src = -1; return true; }
    op -= 3;
    if (op == 0) { bool any = false; if constexpr (COPIES) for (auto& a : s) if (a.d && a.val >= 0) { D& r = *a.d; *a.d = r; any = true; } return any; }
    if (op == 1) { if (!s[0].d || !s[1].d || s[0].val < 0 || s[1].val < 0) return false; std::swap(*s[0].d, *s[1].d); std::swap(s[0].val, s[1].val); std::swap(s[0].src, s[1].src); return true; }
    bool any = false; std::vector<D> v; std::vector<Slot*> from; for (auto& a : s) if (a.d && a.val >= 0) { v.push_back(std::move(*a.d)); from.push_back(&a); a.d.reset(); any = true; }       // through a growing vector
    for (size_t j = 0; j < from.size(); ++j) from[j]->d.emplace(std::move(v[j])); return any;
}
static constexpr size_t OTHER = 6 + 6 + 3 + 3;
static void history(mc::X& x, size_t n, const std::vector<std::pair<int, size_t>>& opens) {
    std::vector<size_t> ops; const size_t no = opens.size(); ops.push_back(x.choose(3 * no)); for (size_t j = 1; j < n; ++j) ops.push_back(x.choose(3 * no + OTHER)); x.go();
    World w{x}; for (size_t o : ops) { if (!step(w, o, opens)) return; w.release_unused(); w.check(); }
    for (int j = 0; j < 3; ++j) { w.s[j].d.reset(); w.s[j].val = -1; w.release_unused(); w.check(); }
    if (x.want_sample()) { std::string t; for (auto o : ops) t += std::to_string(o) + " "; x.sample("operations " + t); }
}
static void p_histories(mc::X& x) { std::vector<std::pair<int, size_t>> o; for (int k = 0; k < World::WAYS; ++k) o.push_back({k, size_t(k % 2) + 1}); o.push_back({0, 0}); history(x, x.thorough ? 4 : 3, o); }
static void p_histories_deep(mc::X& x) { std::vector<std::pair<int, size_t>> o = {{0, 1}, {1, 2}}; history(x, x.thorough ? 6 : 4, o); }
static void p_histories_two(mc::X& x) { // two owning kinds and one borrowed, two slots only: longest
    size_t n = x.thorough ? 7 : 5; std::vector<size_t> ops; for (size_t j = 0; j < n; ++j) ops.push_back(x.choose(j == 0 ? 3 : 6 + 4 + 2)); x.go(); std::vector<std::pair<int, size_t>> opens = {{0, 1}, {1, 2}, {2, 3}}; World w{x};
    for (size_t o : ops) { size_t full = o < 6 ? o : o < 8 ? 9 + (o == 6 ? 0 : 2) : o < 10 ? 15 + (o == 8 ? 0 : 2) : 21 + (o - 10); if (!step(w, full, opens)) return; w.release_unused(); w.check(); } }
// every way of opening the same bytes gives the same value
static void p_ways(mc::X& x) { const Val& v = x.pick(leaves()); size_t c = x.choose(4); int way = int(x.choose(World::WAYS)); if (PROTO == 3) { for (unsigned char ch : v.s) if (v.k == Str && ch > 127) throw mc::Prune{}; if (v.k == Dbl && ((v.d >> 52) & 0x7ff) == 0x7ff) throw mc::Prune{}; } x.go();
    Val d = c == 0 ? v : c == 1 ? ref::arr({v, ref::str("s"), v}) : c == 2 ? ref::map({{"k", v}, {"other", ref::i64(2)}}) : ref::map({{"m", ref::arr({ref::map({{"deep", v}})})}}); Bytes b = encode<P>(d);
    auto look = [&](const D& q) { x.op(); compare(x, d, q, md()); };
    if constexpr (COPIES) { Bytes t = b;
        switch (way) { case 0: { D q(static_cast<const Bytes&>(t)); std::fill(t.begin(), t.end(), 0xC1); look(q); D r(q), u(std::move(q)); look(r); look(u); break; } case 1: { D q(std::move(t)); t.assign(100, 1); look(q); D r(q), u(std::move(q)); look(r); look(u); break; } case 2: { D q{std::span<const uint8_t>(t)}; look(q); D r(q), u(std::move(q)); look(r); look(u); break; }
            case 3: if constexpr (requires { D(t.data(), t.size()); }) { D q(t.data(), t.size()); look(q); } else if constexpr (requires { D::copy_from(std::span<const uint8_t>(t)); }) { D q = D::copy_from(std::span<const uint8_t>(t)); std::fill(t.begin(), t.end(), 0xC1); look(q); } break;
            case 4: { z::ZBuffer zb(std::move(t)); D q(zb.buf()); look(q); z::ZBuffer zc(std::move(zb)); look(q); break; }
            default: { auto q = std::make_unique<D>(static_cast<const Bytes&>(t)); auto r = std::make_unique<D>(*q); q.reset(); look(*r); std::list<D> l; l.push_back(*r); l.push_back(std::move(*r)); r.reset(); for (auto& e : l) look(e); } } }
    else { Bytes t = b; D q{std::span<const uint8_t>(t)}; std::fill(t.begin(), t.end(), '!'); look(q); D r(std::move(q)); look(r); D u; u = std::move(r); look(u); } }
// sub-values taken before a document object moves, from documents that own their bytes
static void p_sub_values(mc::X& x) { // values taken from a document are read while some object holding the same bytes lives
    size_t how = x.choose(5), way = x.choose(2); x.go(); if constexpr (!COPIES) { D d{std::span<const uint8_t>(bytes_of(1))}; auto c = d["c"]; auto a = d["a"][size_t(1)]; compare(x, docs()[1].a[2], c, md()); D e(std::move(d)); auto f = e["a"]; compare(x, docs()[1].a[0], f, md()); return; } else { const Bytes& b = bytes_of(1); auto mk = [&] { if (way) { Bytes v = b; return D(std::move(v)); } return D(static_cast<const Bytes&>(b)); };
    D d = mk(); auto read = [&](const D& q) { compare(x, docs()[1], q, md()); auto a = q["a"]; auto c = q["c"]; auto t = a[size_t(1)]; { auto tmp = q["c"]["x"]; x.check(tmp.asDouble() == 2.5, "sub-value differs"); } compare(x, docs()[1].a[0], a, md()); compare(x, docs()[1].a[2], c, md()); x.check(t.asStringView() == "two", "sub-value differs"); };
    switch (how) { case 0: read(d); break; case 1: { D e(d); d = mk(); read(e); read(d); break; } case 2: { auto a = d["a"]; auto c = d["c"]; auto k = d["a"][size_t(1)].asStringView(); D e(std::move(d)); read(e); compare(x, docs()[1].a[0], a, md()); compare(x, docs()[1].a[2], c, md()); x.check(k == "two", "string view differs after the document moved"); break; } case 3: { D e = mk(); e = d; { D f = mk(); f = std::move(d); read(f); } read(e); break; } default: { std::vector<D> v; for (int j = 0; j < 5; ++j) v.push_back(mk()); v.erase(v.begin()); v.insert(v.begin(), d); for (auto& q : v) read(q); std::vector<D> u = v; v.clear(); for (auto& q : u) read(q); } } } }
static void p_sizes(mc::X& x) { // owned bytes of every small size: no difference between inline and heap storage of the copy
    size_t n = x.choose(80), k = x.choose(2); x.go(); Val v = k ? ref::str(fill(n)) : ref::arr(std::vector<Val>(n, ref::i64(int64_t(n)))); Bytes b = encode<P>(v); if constexpr (COPIES) { std::optional<D> a(std::in_place, static_cast<const Bytes&>(b)); D c(*a); a.reset(); Bytes().swap(b); compare(x, v, c, md()); D m(std::move(c)); compare(x, v, m, md()); D e(static_cast<const Bytes&>(bytes_of(1))); e = m; { D t(std::move(m)); } compare(x, v, e, md()); } else { D a{std::span<const uint8_t>(b)}; Bytes().swap(b); D m(std::move(a)); compare(x, v, m, md()); } }
};
using T = H<P::Deserializer>;
PART("histories") { T::p_histories(x); }
PART("histories-deep") { T::p_histories_deep(x); }
PART("histories-two") { T::p_histories_two(x); }
PART("ways") { T::p_ways(x); }
PART("sub-values") { T::p_sub_values(x); }
PART("sizes") { T::p_sizes(x); }
int main(int c, char** v) { return mc::run_main(c, v, "C17"); }
