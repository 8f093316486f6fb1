#include "c12.hpp"
// ---- runtime descriptions of arbitrary trees -------------------------------------------------------------
enum Route { Direct, Vec, List, InitList, DynArr, Wrapped, StdMap, UMap, DynMap, Viewed };
struct Any { Val v; Route r = Direct; std::vector<Any> kids; };
static Val as_written(const Any& a);     // the value with its maps in the order the route iterates them
static z::dyn::Value dynamic(const Any& a);
static std::unordered_map<std::string, Any> umap(const Any& a) { std::unordered_map<std::string, Any> m; for (size_t j = 0; j < a.kids.size(); ++j) m.emplace(a.v.keys[j], a.kids[j]); return m; }
template<z::Writer W> void serialize(const Any& a, W& w) {
    using z::serialize;
    if (a.v.k != Arr && a.v.k != Map) { if (a.r == DynArr || a.r == DynMap) serialize(dynamic(a), w); else if (a.r == Viewed) { auto wv = z::dyn::WriterView::make(w); emit(a.v, wv); } else emit(a.v, w); return; }
    switch (a.r) {
        case Vec: { std::vector<Any> c(a.kids.begin(), a.kids.end()); serialize(c, w); break; }
        case List: { std::list<Any> c(a.kids.begin(), a.kids.end()); serialize(c, w); break; }
        case InitList: { if (a.kids.size() == 0) serialize(std::initializer_list<Any>{}, w); else if (a.kids.size() == 1) serialize(std::initializer_list<Any>{a.kids[0]}, w); else if (a.kids.size() == 2) serialize(std::initializer_list<Any>{a.kids[0], a.kids[1]}, w); else serialize(std::initializer_list<Any>{a.kids[0], a.kids[1], a.kids[2]}, w); break; }
        case StdMap: { std::map<std::string, Any> m; for (size_t j = 0; j < a.kids.size(); ++j) m.emplace(a.v.keys[j], a.kids[j]); serialize(m, w); break; }
        case UMap: serialize(umap(a), w); break;
        case DynArr: case DynMap: serialize(dynamic(a), w); break;
        case Wrapped: if constexpr (!std::is_same_v<W, z::dyn::WriterView>) { serialize(z::dyn::serializable(a.v), w); } else emit(a.v, w); break;
        case Viewed: { auto wv = z::dyn::WriterView::make(w); wv.null_fn == nullptr ? void() : void(); if (a.v.k == Arr) { wv.begin_array(a.kids.size()); for (auto& k : a.kids) serialize(k, w); wv.end_array(); } else { wv.begin_map(a.kids.size()); for (size_t j = 0; j < a.kids.size(); ++j) { wv.key(a.v.keys[j]); serialize(a.kids[j], w); } wv.end_map(); } break; }
        default: if (a.v.k == Arr) { w.begin_array(a.kids.size()); for (auto& k : a.kids) serialize(k, w); w.end_array(); } else { w.begin_map(a.kids.size()); for (size_t j = 0; j < a.kids.size(); ++j) { w.key(a.v.keys[j]); serialize(a.kids[j], w); } w.end_map(); }
    }
}
static z::dyn::Value dynamic(const Any& a) {
    using z::dyn::Value;
    switch (a.v.k) { case Null: return Value(); case Bool: return a.v.b; case Int: return a.v.i; case UInt: return a.v.u; case Dbl: return std::bit_cast<double>(a.v.d); case Str: return a.v.s; case Blob: return Value(as_bytes(a.v.s));
        case Arr: { Value::Array c; for (auto& k : a.kids) c.push_back(k.r == DynArr || k.r == DynMap || k.kids.empty() ? dynamic(k) : z::dyn::serializable(k)); return Value(std::move(c)); }
        default: { Value::Map c; for (size_t j = 0; j < a.kids.size(); ++j) c.emplace_back(a.v.keys[j], a.kids[j].r == DynArr || a.kids[j].r == DynMap || a.kids[j].kids.empty() ? dynamic(a.kids[j]) : z::dyn::serializable(a.kids[j])); return Value(std::move(c)); } }
}
static Val as_written(const Any& a) {
    if (a.v.k != Arr && a.v.k != Map) return a.v; Val o; o.k = a.v.k; std::vector<size_t> ord(a.kids.size()); std::iota(ord.begin(), ord.end(), 0);
    if (a.v.k == Map && a.r == StdMap) std::sort(ord.begin(), ord.end(), [&](size_t p, size_t q) { return a.v.keys[p] < a.v.keys[q]; });
    if (a.v.k == Map && a.r == UMap) { ord.clear(); for (auto& [k, c] : umap(a)) for (size_t j = 0; j < a.kids.size(); ++j) if (a.v.keys[j] == k) ord.push_back(j); }
    for (size_t j : ord) { o.a.push_back(a.r == Wrapped ? a.v.a[j] : as_written(a.kids[j])); if (a.v.k == Map) o.keys.push_back(a.v.keys[j]); } return o;
}
static Any any_tree(mc::X& x, const Val& v, size_t depth) {
    static const Route AR[] = {Direct, Vec, List, InitList, DynArr, Wrapped, Viewed}, MR[] = {Direct, StdMap, UMap, DynMap, Wrapped, Viewed}, LR[] = {Direct, DynArr};
    Any a; a.v = v; a.r = v.k == Arr ? AR[x.choose(7)] : v.k == Map ? MR[x.choose(6)] : depth < 1 ? LR[x.choose(2)] : Direct; for (auto& c : v.a) a.kids.push_back(any_tree(x, c, depth + 1)); return a;
}
static void described(mc::X& x, const Any& a, bool raw = false) { Val w = as_written(a); size_t p = x.choose(3); x.go(); if (p == 0) { same(x, w, a, "a mixed description"); bytes<z::Zera>(x, w, a, "a mixed description"); same(x, arr({w}), z::zvec(a), "a mixed description in a builder"); } else if (p == 1) bytes<z::MsgPack>(x, w, a, "a mixed description"); else { bytes<z::Flex>(x, w, a, "a mixed description"); if (!raw) bytes<z::JSON>(x, w, a, "a mixed description"); bytes<z::CBOR>(x, w, a, "a mixed description"); } if (x.want_sample()) x.sample(show(w)); }
PART("trees") { static const std::vector<Val> one = { str(LONG) }, two = { str(LONG), u64(7) }; int bud = 4; Val v = tree(x, x.thorough ? two : one, bud, 3); Any a = any_tree(x, v, 0); if (x.thorough) { described(x, a); return; } x.go(); Val w = as_written(a); same(x, w, a, "a mixed description"); bytes<z::MsgPack>(x, w, a, "a mixed description"); }
PART("shapes") { static const std::vector<Val> V = { map({{"b", arr({str("s"), i64(1)})}, {"a", map({{"y", null()}, {"x", dbl(0.5)}})}}), arr({arr({str("s")}), map({{"z", arr({blob("q")})}, {"c", boolean(true)}}), arr()}), map({{"m", map({{"n", map({{"o", arr({u64(1), u64(2), u64(3)})}})}})}}), arr({map({{"1", arr()}}), map({{"2", map()}}), null()}) }; Any a = any_tree(x, x.pick(V), 1); described(x, a); }
PART("leaves") { const Val& v = x.pick(leaves()); if (v.k == Dbl && (v.d >> 52 & 0x7ff) == 0x7ff) throw mc::Prune{}; Any in; in.v = v; in.r = x.flip() ? DynArr : Direct; Any a; size_t c = x.choose(4); static const Route R[] = {Direct, Vec, DynArr, Viewed}, M[] = {Direct, StdMap, DynMap, UMap}; a.v = c == 0 ? v : arr({v, v}); if (c == 1) { a.kids = {in, in}; a.r = R[x.choose(4)]; } else if (c == 2) { a.v = map({{"k", v}}); a.kids = {in}; a.r = M[x.choose(4)]; } else if (c == 3) { a.v = map({{"k", arr({v})}, {"l", v}}); Any b; b.v = arr({v}); b.kids = {in}; b.r = R[x.choose(4)]; a.kids = {b, in}; a.r = M[x.choose(4)]; } else a = in; described(x, a, v.k == Str && v.s.find('\xff') != std::string::npos); // JSON text cannot hold invalid UTF-8
    }
PART("sizes") { // containers of every size class through every route
    static const size_t N[] = {0, 1, 2, 3, 15, 16, 17, 255, 256, 300}; size_t n = N[x.choose(10)], r = x.choose(7); bool mp = x.flip(); static const Route AR[] = {Vec, List, DynArr, Wrapped, Viewed, Direct, Vec}, MR[] = {StdMap, UMap, DynMap, Wrapped, Viewed, Direct, StdMap}; Any a; a.v.k = mp ? Map : Arr; for (size_t j = 0; j < n; ++j) { Val c = j % 3 ? i64(int64_t(j)) : str(fill(j % 40, 1)); a.v.a.push_back(c); if (mp) a.v.keys.push_back("k" + std::to_string((j * 7919) % 1009)); Any k; k.v = c; a.kids.push_back(k); } a.r = mp ? MR[r] : AR[r]; described(x, a); }
// ---- dynamic values through copies, moves, assignments ----------------------------------------------------
// every short sequence of writer calls, made through the type-erased writer and made directly: names and texts with
// NULs and views cut out of longer text included
namespace { struct Calls { std::vector<size_t> c; }; const char CUT[] = "abcdefgh"; const std::string NUL("a\0b\0", 4);
template<class W> void call(size_t k, W& w) {
    static const double Ds[] = {0.0, -0.0, 1.5, std::bit_cast<double>(0x7ff8000000000001ull), -std::numeric_limits<double>::infinity(), 5e-324};
    static const std::string_view Ss[] = {{}, "", std::string_view(CUT + 1, 3), std::string_view(CUT, 8), NUL, std::string_view(NUL).substr(1, 1), LONG, std::string_view(LONG).substr(3, 20), "\xff\xfe"};
    static const int64_t Is[] = {0, -1, 127, 128, INT64_MIN, INT64_MAX, 1ll << 32}; static const uint64_t Us[] = {0, 255, 1ull << 32, 1ull << 63, UINT64_MAX}; static const size_t Ns[] = {0, 1, 7, size_t(1) << 33};
    if (k < 9) w.string(Ss[k]); else if (k < 18) w.key(Ss[k - 9]); else if (k < 27) w.binary({reinterpret_cast<const std::byte*>(Ss[k - 18].data()), Ss[k - 18].size()}); else if (k < 34) w.int64(Is[k - 27]); else if (k < 39) w.uint64(Us[k - 34]); else if (k < 45) w.double_(Ds[k - 39]);
    else if (k < 49) w.begin_array(Ns[k - 45]); else if (k < 53) w.begin_map(Ns[k - 49]); else if (k == 53) w.end_array(); else if (k == 54) w.end_map(); else if (k == 55) w.null(); else w.boolean(k == 56);
}
template<z::Writer W> void serialize(const Calls& c, W& w) { for (size_t k : c.c) call(k, w); } }
PART("erased-calls") { const size_t len = 1 + x.choose(x.thorough ? 3 : 2); Calls c; for (size_t j = 0; j < len; ++j) c.c.push_back(x.choose(58)); const size_t how = x.choose(4); x.go(); x.op(); std::string a, b; { z::Rec r(a); for (size_t k : c.c) call(k, r); }
    { z::Rec r(b); switch (how) { case 0: serialize(c, r); break; case 1: serialize(z::dyn::serializable(c), r); break; case 2: { auto v = z::dyn::WriterView::make(r); for (size_t k : c.c) call(k, v); break; } default: { auto v = z::dyn::WriterView::make(r); serialize(z::dyn::serializable(c), v); } } }
    if (a != b) x.fail("calls made through the type-erased writer arrive changed"); }
PART("dyn-histories") { using z::dyn::Value; const size_t len = x.thorough ? 4 : 3; 
    std::vector<std::array<size_t, 3>> h; for (size_t j = 0; j < len; ++j) h.push_back({x.choose(6), x.choose(3), x.choose(3)}); x.go();
    std::array<Value, 3> s = { z::dyn::map({{"k", LONG}, {"l", z::dyn::array({1, 2.5, nullptr})}}), z::dyn::serializable(user::Point{LONG, 1, {4}}), Value(bv(LONG)) }; std::array<std::optional<Val>, 3> m = { map({{"k", str(LONG)}, {"l", arr({i64(1), dbl(2.5), null()})}}), point(LONG, 1, {i64(4)}), blob(LONG) };
    for (auto& [o, a, b] : h) { switch (o) { case 0: s[a] = s[b]; m[a] = m[b]; break; case 1: if (a == b) break; s[a] = std::move(s[b]); m[a] = m[b]; m[b].reset(); break; case 2: if (!m[a] || !m[b]) break; { Value t = z::dyn::array({s[a], s[b]}); Val u = arr({*m[a], *m[b]}); s[a] = std::move(t); m[a] = u; } break; case 3: if (!m[b]) break; { Value t = z::dyn::map({{"w", std::move(s[b])}}); Val u = map({{"w", *m[b]}}); m[b].reset(); s[a] = t; m[a] = u; } break; case 4: { std::swap(s[a], s[b]); std::swap(m[a], m[b]); break; } default: if (!m[b]) break; s[a] = z::dyn::serializable(s[b]); m[a] = m[b]; }
        for (size_t j = 0; j < 3; ++j) if (m[j]) same(x, *m[j], s[j], "a dynamic value after copies and moves"); }
    for (size_t j = 0; j < 3; ++j) if (m[j]) bytes<z::Zera>(x, *m[j], s[j], "a dynamic value after copies and moves"); }
PART("protocol-bytes") { // builders, stored and reused, in every protocol
    size_t k = x.choose(8); x.go(); std::string named = LONG; std::vector<int> nv{1, 2, 3}; user::Point pt{LONG, 1, {2}};
    switch (k) { case 0: everywhere(x, arr({i64(1), str(LONG), arr({i64(1), i64(2), i64(3)})}), z::zvec(1, named, nv), "zvec"); break; case 1: everywhere(x, map({{"a", str(LONG)}, {"b", arr({dbl(0.5), null()})}}), z::zmap<"a", "b">(named, z::zvec(0.5, nullptr)), "zmap"); break; case 2: everywhere(x, arr({point(LONG, 1, {i64(2)}), map({{"p", point(LONG, 1, {i64(2)})}})}), z::zvec(pt, z::zmap<"p">(pt)), "a user type"); break; case 3: everywhere(x, map({{"x", arr({str(LONG), boolean(true)})}}), z::dyn::map({{"x", z::dyn::array({LONG, true})}}), "a dynamic value"); break;
        case 4: { auto b = z::zvec(std::string(LONG), std::vector<std::string>{LONG, "q"}, user::Point{LONG, 2, {}}); everywhere(x, arr({str(LONG), arr({str(LONG), str("q")}), point(LONG, 2, {})}), b, "a stored builder of temporaries"); break; } case 5: everywhere(x, arr(), z::zvec(), "an empty array"); everywhere(x, map(), z::zmap<>(), "an empty map"); break; case 6: everywhere(x, arr({map({{"v", arr({arr(), map()})}})}), z::zvec(z::zmap<"v">(z::zvec(z::zvec(), z::zmap<>()))), "empty containers"); break; default: everywhere(x, map({{"d", arr({blob(LONG), str("s")})}}), z::zmap<"d">(z::dyn::array({bv(LONG), "s"})), "a dynamic value in a builder"); }
    x.check(named == LONG && nv == std::vector<int>({1, 2, 3}) && pt == user::Point{LONG, 1, {2}}, "an argument passed by name was consumed"); }
int main(int c, char** v) { return mc::run_main(c, v, "C12"); }
