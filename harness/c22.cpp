// C22: hostile nesting, run on a thread with an ordinary 8 MB stack. A stack overflow ends the process, which the driver reports.
#include "val.hpp"
#include <zerialize/protocols/json.hpp>
#include <zerialize/protocols/cbor.hpp>
#include <zerialize/translate.hpp>
#include <pthread.h>
#include <exception>
using namespace ref;
using Buf = std::vector<uint8_t>;
// runs f on a fresh thread of bounded stack and passes exceptions on
template<class F> void bounded(F&& f) { struct C { F* f; std::exception_ptr e; } c{&f, nullptr}; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8u << 20); pthread_t t; if (pthread_create(&t, &a, [](void* p) -> void* { auto* c = static_cast<C*>(p); try { (*c->f)(); } catch (...) { c->e = std::current_exception(); } return nullptr; }, &c)) { std::fprintf(stderr, "no thread\n"); _exit(14); } pthread_join(t, nullptr); pthread_attr_destroy(&a); if (c.e) std::rethrow_exception(c.e); }
enum Shape { Arrays, Maps, Mixed };
static bool is_map(Shape s, size_t level) { return s == Maps || (s == Mixed && level % 2); }
// ---- documents of depth n around a leaf, in a tail position: head [deep, 7] or {"k": deep, "t": 7} ------------------------
static void mp_deep(Buf& b, Shape s, size_t n, int form, bool leaf) { for (size_t j = 0; j < n; ++j) { if (is_map(s, j)) { if (form == 0) b.push_back(0x81); else if (form == 1) b.insert(b.end(), {0xde, 0, 1}); else b.insert(b.end(), {0xdf, 0, 0, 0, 1}); b.insert(b.end(), {0xa1, 'k'}); } else { if (form == 0) b.push_back(0x91); else if (form == 1) b.insert(b.end(), {0xdc, 0, 1}); else b.insert(b.end(), {0xdd, 0, 0, 0, 1}); } } if (leaf) b.push_back(0x05); }
static void cb_deep(Buf& b, Shape s, size_t n, int form, bool leaf) { // form 0 definite, 1 indefinite, 2 definite with wide counts, 3 tags around each level
    for (size_t j = 0; j < n; ++j) { if (form == 3) b.push_back(0xc1); bool m = is_map(s, j); if (form == 1) b.push_back(m ? 0xbf : 0x9f); else if (form == 2) { b.push_back(m ? 0xba : 0x9a); b.insert(b.end(), {0, 0, 0, 1}); } else b.push_back(m ? 0xa1 : 0x81); if (m) b.insert(b.end(), {0x61, 'k'}); } if (leaf) { b.push_back(0x05); if (form == 1) b.insert(b.end(), n, 0xff); } }
template<class W> void w_deep(W& w, Shape s, size_t n) { for (size_t j = 0; j < n; ++j) { if (is_map(s, j)) { w.begin_map(1); w.key("k"); } else w.begin_array(1); } w.int64(5); for (size_t j = n; j-- > 0;) { if (is_map(s, j)) w.end_map(); else w.end_array(); } }
template<class P> Buf written(Shape s, size_t n, int wrap) { typename P::RootSerializer rs; typename P::Serializer w(rs); if (wrap == 1) { w.begin_array(2); w_deep(w, s, n); w.int64(7); w.end_array(); } else if (wrap == 2) { w.begin_map(2); w.key("k"); w_deep(w, s, n); w.key("t"); w.int64(7); w.end_map(); } else w_deep(w, s, n); return copy_of(rs.finish()); }
static Buf mp(Shape s, size_t n, int form, int wrap, bool leaf = true) { Buf b; if (wrap == 1) b.push_back(0x92); else if (wrap == 2) b.insert(b.end(), {0x82, 0xa1, 'k'}); mp_deep(b, s, n, form, leaf); if (wrap == 1) b.push_back(7); else if (wrap == 2) b.insert(b.end(), {0xa1, 't', 7}); return b; }
static Buf cb(Shape s, size_t n, int form, int wrap, bool leaf = true) { Buf b; if (wrap == 1) b.push_back(0x82); else if (wrap == 2) b.insert(b.end(), {0xa2, 0x61, 'k'}); cb_deep(b, s, n, form, leaf); if (wrap == 1) b.push_back(7); else if (wrap == 2) b.insert(b.end(), {0x61, 't', 7}); return b; }
// ---- operations -------------------------------------------------------------------------------------------------------------
template<class F> bool survives(mc::X& x, F&& f) { x.op(); bool ok = false; try { bounded([&] { f(); ok = true; }); } catch (const mc::Fail&) { throw; } catch (const std::bad_alloc&) { x.fail("memory exhausted"); } catch (const std::exception&) {} return ok; }
// walk down at most `steps` levels; at the bottom the leaf must be 5
template<class R> void descend(mc::X& x, const R& r, Shape s, size_t level, size_t n, size_t steps) { // iterative: each step makes a new value from the previous one
    using C = std::decay_t<decltype(r[size_t(0)])>; auto down = [&](const auto& v, size_t l) { if (is_map(s, l)) { if (!v.isMap()) x.fail("a level is not a map"); return v[std::string_view("k")]; } if (!v.isArray() || v.arraySize() != 1) x.fail("a level is not an array of one"); return v[size_t(0)]; };
    if (level >= n) { if (r.asInt64() != 5) x.fail("the innermost value differs"); return; }
    auto c = std::make_unique<C>(down(r, level)); for (size_t l = level + 1; l < n && l < steps; ++l) c = std::make_unique<C>(down(*c, l)); if (n <= steps) { if (c->asInt64() != 5) x.fail("the innermost value differs"); } }
template<class P, class Q> void translate_to(mc::X& x, const typename P::Deserializer& d, Shape s, size_t n, int wrap, size_t must) {
    bool ok = survives(x, [&] { auto t = z::translate<Q>(d); if (n <= 3000) { if (wrap == 1) { descend(x, t[size_t(0)], s, 0, n, 3000); x.check(t[size_t(1)].asInt64() == 7, "translated neighbour differs"); } else if (wrap == 2) { descend(x, t[std::string_view("k")], s, 0, n, 3000); x.check(t[std::string_view("t")].asInt64() == 7, "translated neighbour differs"); } else descend(x, t, s, 0, n, 3000); } });
    if (!ok && n <= must) x.fail("translation of an ordinary depth failed"); }
static const size_t MUST = 400;        // "a few hundred levels"
static const int OPS = 10;
template<class P> void operate(mc::X& x, const Buf& b, Shape s, size_t n, int wrap, int op, bool whole, size_t must) {
    using D = typename P::Deserializer; std::span<const uint8_t> sp(b); bool ok = true;
    auto need = [&](bool o) { if (!o && whole && n <= must) x.fail("an ordinary depth was refused"); };
    std::optional<D> d; ok = survives(x, [&] { d.emplace(sp); }); need(ok); if (!ok) return;
    switch (op) {
        case 0: need(survives(x, [&] { (void)d->isNull(); (void)d->isBool(); (void)d->isInt(); (void)d->isUInt(); (void)d->isFloat(); (void)d->isString(); (void)d->isBlob(); (void)d->isMap(); (void)d->isArray(); if (d->isArray()) (void)d->arraySize(); if (d->isMap()) { size_t c = 0; for (auto k : d->mapKeys()) { (void)k; ++c; } x.check(!whole || c == (wrap == 2 ? 2 : 1), "another number of keys"); } })); break;
        case 1: if (whole) need(survives(x, [&] { if (wrap == 1) descend(x, (*d)[size_t(0)], s, 0, n, 300); else if (wrap == 2) descend(x, (*d)[std::string_view("k")], s, 0, n, 300); else descend(x, *d, s, 0, n, 300); })); else (void)survives(x, [&] { if (d->isArray()) { auto c = (*d)[size_t(0)]; (void)c.isArray(); } else if (d->isMap()) { auto c = (*d)[std::string_view("k")]; (void)c.isMap(); } }); break;
        case 2: if (wrap == 1) need(survives(x, [&] { auto t = (*d)[size_t(1)]; if (whole) x.check(t.asInt64() == 7, "the value behind the nested one differs"); })); else if (wrap == 2) need(survives(x, [&] { auto t = (*d)[std::string_view("t")]; if (whole) x.check(t.asInt64() == 7, "the value behind the nested one differs"); })); break;
        case 3: (void)survives(x, [&] { (void)(*d)[size_t(2)]; }); (void)survives(x, [&] { (void)(*d)[std::string_view("zz")]; }); need(survives(x, [&] { bool c = d->contains("t"); if (whole) x.check(c == (wrap == 2), "contains differs"); (void)d->contains("zz"); })); break;
        case 4: need(survives(x, [&] { (void)d->to_string(); })); break;
        default: { if (!whole) { (void)survives(x, [&] { (void)z::translate<z::Zera>(*d); }); break; }
            switch (op) { case 5: translate_to<P, z::Zera>(x, *d, s, n, wrap, must); break; case 6: translate_to<P, z::MsgPack>(x, *d, s, n, wrap, must); break; case 7: translate_to<P, z::Flex>(x, *d, s, n, wrap, must); break; case 8: translate_to<P, z::CBOR>(x, *d, s, n, wrap, must); break; default: translate_to<P, z::JSON>(x, *d, s, n, wrap, must); } }
    }
}
static const std::vector<size_t>& depths(bool th) { auto mk = [](bool th) { std::set<size_t> s; for (size_t j = 0; j <= 20; ++j) s.insert(j); for (size_t j = 20; j <= 400; j += th ? 1 : 20) s.insert(j); for (size_t p = 32; p <= 1024; p *= 2) for (size_t d = 0; d < 5; ++d) s.insert(p + d - 2); for (size_t j = 994; j <= 1006; ++j) s.insert(j); s.insert({500, 700, 1500, 2000, 3000, 5000, 10000, 20000, 50000, 100000}); if (th) for (size_t j = 900; j < 1100; ++j) s.insert(j); return std::vector<size_t>(s.begin(), s.end()); }; static const auto q = mk(false), t = mk(true); return th ? t : q; }
// translation and walking build a new value per level, and a value of MsgPack or CBOR is found by skipping: cap the quadratic cases
static bool feasible(size_t n, int form, int wrap, int op) { const bool heavy = op == 1 || op >= 4; return !heavy || n <= 5000 || (form == 0 && wrap == 0 && n <= 200000); }
template<class F> void deep(mc::X& x, const std::vector<size_t>& ns, size_t forms, F&& f) { size_t n = ns[x.choose(ns.size())]; Shape s = Shape(x.choose(3)); int form = int(x.choose(forms)); int wrap = int(x.choose(3)); int op = int(x.choose(OPS)); if (!feasible(n, form, wrap, op)) throw mc::Prune{}; x.go(); f(s, n, form, wrap, op); if (x.want_sample()) x.sample("depth " + std::to_string(n) + " shape " + std::to_string(int(s)) + " form " + std::to_string(form) + " operation " + std::to_string(op)); x.outcome(std::to_string(n)); }
static const std::vector<size_t>& huge(bool th) { static const std::vector<size_t> q = {200000, 1000000, 3000000}, t = {200000, 1000000, 3000000, 20000000}; return th ? t : q; }
PART("msgpack") { deep(x, depths(x.thorough), 3, [&](Shape s, size_t n, int form, int wrap, int op) { operate<z::MsgPack>(x, mp(s, n, form, wrap), s, n, wrap, op, true, MUST); }); }
PART("msgpack-huge") { deep(x, huge(x.thorough), 2, [&](Shape s, size_t n, int form, int wrap, int op) { operate<z::MsgPack>(x, mp(s, n, form, wrap), s, n, wrap, op, true, 0); operate<z::MsgPack>(x, mp(s, n, form, wrap, false), s, n, wrap, op, false, 0); }); }
PART("cbor") { deep(x, depths(x.thorough), 4, [&](Shape s, size_t n, int form, int wrap, int op) { operate<z::CBOR>(x, cb(s, n, form, wrap), s, n, wrap, op, form != 3, MUST); }); }
PART("cbor-huge") { deep(x, huge(x.thorough), 4, [&](Shape s, size_t n, int form, int wrap, int op) { operate<z::CBOR>(x, cb(s, n, form, wrap), s, n, wrap, op, form != 3, 0); operate<z::CBOR>(x, cb(s, n, form, wrap, false), s, n, wrap, op, false, 0); }); }
PART("zera") { deep(x, depths(x.thorough), 1, [&](Shape s, size_t n, int, int wrap, int op) { operate<z::Zera>(x, written<z::Zera>(s, n, wrap), s, n, wrap, op, true, MUST); }); }
PART("zera-huge") { deep(x, huge(x.thorough), 1, [&](Shape s, size_t n, int, int wrap, int op) { operate<z::Zera>(x, written<z::Zera>(s, n, wrap), s, n, wrap, op, true, 0); }); }
PART("flex") { deep(x, depths(x.thorough), 1, [&](Shape s, size_t n, int, int wrap, int op) { operate<z::Flex>(x, written<z::Flex>(s, n, wrap), s, n, wrap, op, true, MUST); }); }
PART("flex-huge") { deep(x, huge(false), 1, [&](Shape s, size_t n, int, int wrap, int op) { if (n > 1000000) return; operate<z::Flex>(x, written<z::Flex>(s, n, wrap), s, n, wrap, op, true, 0); }); }
PART("json") { static const std::vector<size_t> N = [] { std::vector<size_t> v; for (size_t j = 0; j <= 400; j += 10) v.push_back(j); for (size_t j = 995; j < 1005; ++j) v.push_back(j); v.insert(v.end(), {1500, 2500}); return v; }(); deep(x, N, 1, [&](Shape s, size_t n, int, int wrap, int op) { operate<z::JSON>(x, written<z::JSON>(s, n, wrap), s, n, wrap, op, true, MUST); }); }
// ---- hostile bytes that only look like nesting ----------------------------------------------------------------------------------
PART("msgpack-bytes") { // a run of one byte, and of two alternating bytes, to a million
    static const uint8_t B[] = {0x91, 0x92, 0x9f, 0x81, 0x82, 0x8f, 0xdc, 0xdd, 0xde, 0xdf, 0xc4, 0xd9, 0xa1, 0xc7, 0xc0, 0x00, 0xff, 0xc1}; uint8_t a = B[x.choose(18)], b = B[x.choose(18)]; static const size_t N[] = {100, 100000, 1000000}; size_t n = N[x.choose(3)]; x.go(); Buf v; for (size_t j = 0; j < n; ++j) v.push_back(j % 2 ? b : a); for (int op = 0; op < 5; ++op) operate<z::MsgPack>(x, v, Arrays, n, op % 3, op, false, 0); if (n <= 100000) operate<z::MsgPack>(x, v, Arrays, n, 0, 5, false, 0); }
PART("cbor-bytes") { static const uint8_t B[] = {0x81, 0x82, 0x98, 0x99, 0x9a, 0x9f, 0xa1, 0xa2, 0xb9, 0xbf, 0xc1, 0xd8, 0x5f, 0x7f, 0x61, 0x41, 0x00, 0xff, 0xf6, 0x1c}; uint8_t a = B[x.choose(20)], b = B[x.choose(20)]; static const size_t N[] = {100, 100000, 1000000}; size_t n = N[x.choose(3)]; x.go(); Buf v; for (size_t j = 0; j < n; ++j) v.push_back(j % 2 ? b : a); for (int op = 0; op < 5; ++op) operate<z::CBOR>(x, v, Arrays, n, op % 3, op, false, 0); if (n <= 100000) operate<z::CBOR>(x, v, Arrays, n, 0, 5, false, 0); }
// ---- Zera buffers whose containers refer to each other -----------------------------------------------------------------------------
struct Graph { size_t n; std::vector<bool> map; std::vector<std::vector<size_t>> to; };   // target n = a leaf
static Buf graph_bytes(const Graph& g) { auto put = [](Buf& b, size_t p, uint64_t v, int n) { for (int j = 0; j < n; ++j) b[p + size_t(j)] = uint8_t(v >> (8 * j)); }; std::vector<size_t> at; size_t q = 16; for (size_t j = 0; j < g.n; ++j) { at.push_back(q); q += 4 + g.to[j].size() * (g.map[j] ? 21 : 16); } Buf env(q, 0);
    auto ref = [&](size_t p, size_t t) { if (t == g.n) { env[p] = 2; put(env, p + 4, 5, 8); } else { env[p] = g.map[t] ? 6 : 5; put(env, p + 4, at[t], 4); } }; ref(0, 0);
    for (size_t j = 0; j < g.n; ++j) { put(env, at[j], g.to[j].size(), 4); size_t p = at[j] + 4; for (size_t e = 0; e < g.to[j].size(); ++e) { if (g.map[j]) { put(env, p, 1, 2); env[p + 4] = uint8_t('k' + e); p += 5; } ref(p, g.to[j][e]); p += 16; } }
    size_t ar = (20 + env.size() + 15) / 16 * 16; Buf b(ar, 0); put(b, 0, 0x564E455A, 4); put(b, 4, 1, 2); put(b, 6, 1, 2); put(b, 8, 0, 4); put(b, 12, env.size(), 4); put(b, 16, ar, 4); std::copy(env.begin(), env.end(), b.begin() + 20); return b; }
static bool cyclic(const Graph& g, size_t j, std::vector<int>& st) { if (j == g.n) return false; if (st[j] == 1) return true; if (st[j] == 2) return false; st[j] = 1; for (size_t t : g.to[j]) if (cyclic(g, t, st)) return true; st[j] = 2; return false; }
static Val expand(const Graph& g, size_t j) { if (j == g.n) return ref::i64(5); Val v; v.k = g.map[j] ? Map : Arr; for (size_t e = 0; e < g.to[j].size(); ++e) { v.a.push_back(expand(g, g.to[j][e])); if (g.map[j]) v.keys.push_back(std::string(1, char('k' + e))); } return v; }
static void graphs(mc::X& x, size_t n, size_t width) { Graph g; g.n = n; for (size_t j = 0; j < n; ++j) { g.map.push_back(x.flip()); size_t w = x.choose(width + 1); std::vector<size_t> t; for (size_t e = 0; e < w; ++e) t.push_back(x.choose(n + 1)); g.to.push_back(t); } x.go();
    Buf b = graph_bytes(g); std::vector<int> st(n, 0); const bool cyc = cyclic(g, 0, st); std::span<const uint8_t> sp(b); z::Zera::Deserializer d(sp); 
    if (!cyc) { Val v = expand(g, 0); compare(x, v, d, mode_of<z::Zera>()); bool ok = survives(x, [&] { auto t = z::translate<z::MsgPack>(d); compare(x, v, t, mode_of<z::MsgPack>()); auto u = z::translate<z::Zera>(d); compare(x, v, u, mode_of<z::Zera>()); }); x.check(ok, "a shared but acyclic document was not translated"); x.outcome("acyclic"); }
    else { x.outcome("cyclic"); auto none = [&](auto* q, const char* to) { using Q = std::remove_pointer_t<decltype(q)>; if (survives(x, [&] { (void)z::translate<Q>(d); })) x.fail(std::string("a self-referring document was translated to ") + to); }; none(static_cast<z::Zera*>(nullptr), "Zera"); none(static_cast<z::MsgPack*>(nullptr), "MsgPack"); none(static_cast<z::Flex*>(nullptr), "Flex"); none(static_cast<z::JSON*>(nullptr), "JSON"); none(static_cast<z::CBOR*>(nullptr), "CBOR");
        // following references for a long time works or is refused
        for (size_t pick = 0; pick < 2; ++pick) (void)survives(x, [&] { using C = std::decay_t<decltype(d[size_t(0)])>; size_t at = 0; std::unique_ptr<C> c; for (int l = 0; l < 400; ++l) { if (at == g.n || g.to[at].empty()) break; size_t e = std::min(pick, g.to[at].size() - 1); std::string k(1, char('k' + e)); auto step = [&](const auto& v) { if (g.map[at]) { if (!v.isMap() || !v.contains(k)) x.fail("a level differs"); return v[std::string_view(k)]; } if (!v.isArray() || v.arraySize() != g.to[at].size()) x.fail("a level differs"); return v[e]; }; auto nx = c ? std::make_unique<C>(step(*c)) : std::make_unique<C>(step(d)); c = std::move(nx); at = g.to[at][e]; (void)c->to_string(); } }); }
    (void)survives(x, [&] { (void)d.to_string(); }); }
PART("zera-graphs-1") { graphs(x, 1, 3); }
PART("zera-graphs-2") { graphs(x, 2, x.thorough ? 3 : 2); }
PART("zera-graphs-3") { graphs(x, 3, x.thorough ? 2 : 1); }
PART("zera-cycles") { // one cycle of every length to 40, entered after a tail
    size_t len = x.choose(40) + 1, tail = x.choose(5), kind = x.choose(3); x.go(); Graph g; g.n = len + tail; for (size_t j = 0; j < g.n; ++j) { g.map.push_back(kind == 1 || (kind == 2 && j % 2)); size_t nx = j + 1 < g.n ? j + 1 : tail; g.to.push_back({nx}); } Buf b = graph_bytes(g); z::Zera::Deserializer d{std::span<const uint8_t>(b)}; if (survives(x, [&] { (void)z::translate<z::MsgPack>(d); })) x.fail("a self-referring document was translated"); if (survives(x, [&] { (void)z::translate<z::JSON>(d); })) x.fail("a self-referring document was translated"); (void)survives(x, [&] { (void)d.to_string(); }); }
int main(int c, char** v) { return mc::run_main(c, v, "C22"); }
