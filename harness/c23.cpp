// C23: a failure at any point of an operation - any allocation, or a user-defined serialize() - is reported to the
// caller, leaks nothing and corrupts nothing.
#include "val.hpp"
#include "faults.hpp"
#include <list>
#include <optional>
#include <unordered_map>
#include <zerialize/dynamic.hpp>
#include <zerialize/translate.hpp>
#include <zerialize/zbuilders.hpp>
#include <zerialize/protocols/json.hpp>
#include <zerialize/protocols/cbor.hpp>
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
using namespace ref;
using Bytes = std::vector<uint8_t>;
// ---- exploring the fault points of an operation ----------------------------------------------------------------
// `op` runs with the allocator armed and returns its result; `good` judges a result that was returned; `kept` judges
// whatever existed before. The fault-free run gives the number of allocations; each of them fails in turn, alone and
// together with all later ones, and together with one of the next few (a failure while handling a failure).
static std::map<std::string, long> points;
template<class Op, class Good, class Kept> static void explore(mc::X& x, const char* what, Op op, Good good, Kept kept) {
    const std::string id = x.part() + ":" + x.name(); auto it = points.find(id);
    if (it == points.end()) {
        for (int warm = 0; warm < 2; ++warm) { auto r = op(); if (!good(r)) x.fail(std::string(what) + ": wrong result without any failure"); }
        flt::arm(-1, false); { auto r = op(); flt::disarm(); } it = points.emplace(id, flt::seen).first;
    }
    const long n = it->second; if (n == 0) { x.go(); return; }
    const long at = long(x.choose(size_t(n))); const size_t mode = x.choose(x.thorough ? 10 : 3); const bool all = mode == 0; x.go(); x.op();
    const size_t before = __sanitizer_get_current_allocated_bytes(); bool raised = false, right = true;
    { std::optional<std::remove_cvref_t<decltype(op())>> r; flt::arm(at, all, mode > 1 ? long(mode) - 1 : 0);
      try { r.emplace(op()); } catch (const std::exception&) { raised = true; } flt::disarm();
      if (r) right = good(*r); }
    const size_t after = __sanitizer_get_current_allocated_bytes(); const std::string where = std::string(what) + ", allocation " + std::to_string(at) + " of " + std::to_string(n) + (all ? " and later" : mode > 1 ? " and " + std::to_string(at + long(mode) - 1) : "") + ": ";
    if (!flt::hit) x.fail(where + "the failure point was not reached (the operation is not repeatable)");
    if (!raised && !right) x.fail(where + "returned a wrong result instead of an error");
    if (after > before) x.fail(where + std::to_string(after - before) + " bytes leaked");
    if (!kept()) x.fail(where + "something that existed before was changed");
    flt::hit = 0; { auto r = op(); if (!good(r)) x.fail(where + "repeating it gives a wrong result"); }
    if (x.want_sample()) x.sample(where + (raised ? "raised" : "still right"));
    x.outcome(raised ? "raised" : "right");
}
template<class Op, class Good> static void explore(mc::X& x, const char* what, Op op, Good good) { explore(x, what, op, good, [] { return true; }); }
// ---- reading everything ------------------------------------------------------------------------------------------
template<class R> static Val take(const R& r) {
    if (r.isNull()) return null(); if (r.isBool()) return boolean(r.asBool()); if (r.isInt()) return i64(r.asInt64()); if (r.isUInt()) return u64(r.asUInt64()); if (r.isFloat()) return dbl(r.asDouble());
    if (r.isString()) { auto s = r.asString(); if (s != r.asStringView()) return str("two answers"); return str(std::move(s)); }
    if (r.isBlob()) { auto b = r.asBlob(); return blob(std::string(reinterpret_cast<const char*>(b.data()), b.size())); }
    if (r.isMap()) { Val v = map(); for (std::string_view k : r.mapKeys()) { if (!r.contains(k)) v.keys.push_back("absent"); v.keys.emplace_back(k); v.a.push_back(take(r[k])); } return v; }
    Val v = arr(); const size_t n = r.arraySize(); for (size_t i = 0; i < n; ++i) v.a.push_back(take(r[i])); return v;
}
static const std::vector<Val>& docs() { static const std::vector<Val> V = [] {
    std::vector<Val> v = { null(), i64(-3), str("short"), str(fill(60, 1)), blob(fill(50, 2)), arr(), arr({u64(1), str(fill(30, 3)), dbl(2.5), boolean(true)}), map({{"k", blob(fill(3, 4))}, {fill(40, 5), str(fill(5))}, {"z", map({{"in", arr({null(), blob("")})}})}}) };
    for (auto& e : v) if (e.k == Str) for (auto& c : e.s) c = char('a' + (unsigned char)c % 26);
    auto text = [](size_t n, char c) { return std::string(n, c); };
    v[6] = arr({u64(1), str(text(30, 'q')), dbl(2.5), boolean(true)}); v[7] = map({{"k", blob(fill(3, 4))}, {text(40, 'w'), str("short")}, {"z", map({{"in", arr({null(), blob("")})}})}});
    Val deep = str(text(20, 'd')); for (int i = 0; i < 6; ++i) deep = i & 1 ? map({{"a" + std::to_string(i), deep}, {"b", i64(i)}}) : arr({deep, blob(fill(17, unsigned(i)))}); v.push_back(deep);
    Val wide = map(); for (int i = 0; i < 20; ++i) { wide.keys.push_back("key" + std::to_string(i)); wide.a.push_back(str(text(size_t(i) * 3, 'x'))); } v.push_back(wide);
    v.push_back(arr({str(text(9000, 'L')), blob(fill(9000, 3)), str(text(20, 'e'))})); return v; }(); return V; }
template<class P> static const Bytes& bytes_of(size_t d) { static std::vector<Bytes> B = [] { std::vector<Bytes> b; for (auto& v : docs()) b.push_back(encode<P>(v)); return b; }(); return B[d]; }
template<class P> static const Val& value_of(size_t d) { static std::vector<Val> B = [] { std::vector<Val> b; for (size_t i = 0; i < docs().size(); ++i) { const Bytes c = bytes_of<P>(i); typename P::Deserializer r{std::span<const uint8_t>(c)}; b.push_back(take(r)); } return b; }(); return B[d]; }
template<class F> static void protocol(size_t p, F f) { switch (p) { case 0: f.template operator()<z::Zera>(); break; case 1: f.template operator()<z::MsgPack>(); break; case 2: f.template operator()<z::Flex>(); break; case 3: f.template operator()<z::JSON>(); break; default: f.template operator()<z::CBOR>(); } }
static bool eq(const z::ZBuffer& b, const Bytes& w) { return b.size() == w.size() && (w.empty() || !std::memcmp(b.data(), w.data(), w.size())); }
template<class D> static D open(const Bytes& b, size_t way) {
    if constexpr (std::is_constructible_v<D, const Bytes&>) { if (way == 0) return D(b); if (way == 1) { Bytes c(b); return D(std::move(c)); } }
    return D(std::span<const uint8_t>(b)); }

PART("write") { size_t p = x.choose(5), d = x.choose(docs().size()); protocol(p, [&]<class P>() { const Bytes& want = bytes_of<P>(d);
    explore(x, P::Name, [&] { return z::serialize<P>(docs()[d]); }, [&](const z::ZBuffer& b) { return eq(b, want); }); }); }
PART("write-and-copy") { size_t p = x.choose(5), d = x.choose(docs().size()); protocol(p, [&]<class P>() { const Bytes& want = bytes_of<P>(d);
    explore(x, P::Name, [&] { auto b = z::serialize<P>(docs()[d]); (void)b.to_string(); (void)b.to_debug_string(); return b.to_vector_copy(); }, [&](const Bytes& b) { return b == want; }); }); }
PART("open-and-read") { size_t p = x.choose(5), d = x.choose(docs().size()), way = x.choose(3); protocol(p, [&]<class P>() { using D = typename P::Deserializer; const Bytes& b = bytes_of<P>(d); const Bytes copy = b; const Val& want = value_of<P>(d);
    explore(x, P::Name, [&] { auto r = open<D>(b, way); return take(r); }, [&](const Val& v) { return v == want; }, [&] { return b == copy; }); }); }
PART("read-with-open-document") { size_t p = x.choose(5), d = x.choose(docs().size()), way = x.choose(3); protocol(p, [&]<class P>() { using D = typename P::Deserializer; const Val& want = value_of<P>(d); const D r = open<D>(bytes_of<P>(d), way);
    explore(x, P::Name, [&] { return take(r); }, [&](const Val& v) { return v == want; }, [&] { return take(r) == want; }); }); }
PART("failed-lookups") { size_t p = x.choose(5), d = x.choose(docs().size()), q = x.choose(6); protocol(p, [&]<class P>() { using D = typename P::Deserializer; const Val& want = value_of<P>(d); const D r = open<D>(bytes_of<P>(d), 2); const std::string absent(50, '?');
    auto err = [](auto f) { try { f(); } catch (const std::bad_alloc&) { throw; } catch (const z::DeserializationError&) { return 1; } return 0; };
    auto ask = [&] { switch (q) { case 0: return err([&] { (void)r[absent]; }); case 1: return err([&] { (void)r[size_t(1000)]; }); case 2: return err([&] { (void)r.asInt8(); }); case 3: return err([&] { (void)r.asString(); }); case 4: return err([&] { (void)r.mapKeys(); }); default: return err([&] { (void)r.asBlob(); }); } };
    const int right = ask(); explore(x, P::Name, ask, [&](int v) { return v == right; }, [&] { return take(r) == want; }); }); }
PART("print") { size_t p = x.choose(5), d = x.choose(docs().size()); protocol(p, [&]<class P>() { using D = typename P::Deserializer; const Val& want = value_of<P>(d); const D r = open<D>(bytes_of<P>(d), 0); const std::string text = r.to_string();
    // the text itself is for people and may hold a placeholder for what could not be printed
    explore(x, P::Name, [&] { return r.to_string(); }, [&](const std::string& s) { return flt::hit || s == text; }, [&] { return take(r) == want; }); }); }
// copies and assignments between open documents: the source keeps its value, the target has the old or the new one
PART("copy-and-assign") { size_t p = x.choose(5), a = x.choose(4), b = x.choose(4), wa = x.choose(3), wb = x.choose(3), op = x.choose(3); static const size_t S[] = {1, 3, 7, 8}; a = S[a]; b = S[b];
    protocol(p, [&]<class P>() { using D = typename P::Deserializer; auto go = [&]<class E>(std::type_identity<E>) { if constexpr (!std::is_copy_constructible_v<E>) throw mc::Prune{}; else {
        const Val &va = value_of<P>(a), &vb = value_of<P>(b); std::optional<E> da, db; auto fresh = [&] { da.reset(); db.reset(); da.emplace(open<E>(bytes_of<P>(a), wa)); db.emplace(open<E>(bytes_of<P>(b), wb)); };
        fresh(); auto kept = [&] { const Val t = take(*db); const bool ok = take(*da) == va && (t == vb || t == va); fresh(); return ok; };
        if (op == 0) explore(x, P::Name, [&] { E c(*da); return take(c); }, [&](const Val& v) { return v == va; }, [&] { bool ok = take(*db) == vb; return kept() && ok; });
        else if (op == 1) explore(x, P::Name, [&] { *db = *da; return 1; }, [&](int) { return take(*db) == va; }, kept);
        else explore(x, P::Name, [&] { std::vector<E> w; w.push_back(*da); w.push_back(*db); w.insert(w.begin(), *da); return std::pair(take(w[0]), take(w[1])); }, [&](const auto& v) { return v.first == va && v.second == va; }, kept); } };
        go(std::type_identity<D>{}); }); }
PART("translate") { size_t p = x.choose(5), q = x.choose(5), d = x.choose(docs().size()), way = x.choose(2) * 2; protocol(p, [&]<class P>() { protocol(q, [&]<class Q>() {
    const Val& src = value_of<P>(d); const auto r = open<typename P::Deserializer>(bytes_of<P>(d), way); static std::map<size_t, Val> W; if (!W.count(d)) W.emplace(d, take(z::translate<Q>(r))); const Val& want = W.at(d);
    explore(x, (std::string(P::Name) + " to " + Q::Name).c_str(), [&] { return z::translate<Q>(r); }, [&](const auto& t) { return take(t) == want; }, [&] { return take(r) == src; }); }); }); }
// tensors: written, found inside a document, viewed, copied
template<class P, class M> static void tensor(mc::X& x, const M& m, auto view) {
    const Bytes want = copy_of(z::serialize<P>(z::zmap<"t", "n">(m, 1)));
    explore(x, P::Name, [&] { return z::serialize<P>(z::zmap<"t", "n">(m, 1)); }, [&](const z::ZBuffer& b) { return eq(b, want); }); (void)view; }
template<class P> static void read_tensor(mc::X& x, auto m, auto use) { const Bytes b = copy_of(z::serialize<P>(z::zmap<"pad", "t">(std::string("ppp"), m))); const auto r = open<typename P::Deserializer>(b, 0); const auto want = use(r["t"]);
    explore(x, P::Name, [&] { return use(r["t"]); }, [&](const auto& v) { return v == want; }, [&] { return use(r["t"]) == want; }); }
template<class F> static void with_tensor(size_t k, F f) { switch (k) { case 0: { xt::xarray<double> a = {{1.5, 2, 3}, {4, 5, 6}}; f(a); break; } case 1: { xt::xarray<int16_t> a = xt::arange<int16_t>(0, 300); f(a); break; } case 2: { xt::xarray<float, xt::layout_type::column_major> a = {{1, 2}, {3, 4}, {5, 6}}; f(a); break; }
    case 3: { Eigen::MatrixXd a(3, 2); a << 1, 2, 3, 4, 5, 6; f(a); break; } case 4: { Eigen::Matrix<float, 2, 2> a; a << 1, 2, 3, 4; f(a); break; } default: { xt::xarray<uint8_t> a = xt::xarray<uint8_t>::from_shape({0, 4}); f(a); } } }
PART("write-tensor") { size_t p = x.choose(5), k = x.choose(6); protocol(p, [&]<class P>() { with_tensor(k, [&](const auto& m) { tensor<P>(x, m, 0); }); }); }
template<class T> static std::vector<T> flat(const T* p, size_t n) { return {p, p + n}; }
PART("read-tensor") { size_t p = x.choose(5), k = x.choose(6), how = x.choose(3); protocol(p, [&]<class P>() { with_tensor(k, [&](const auto& m) { using M = std::remove_cvref_t<decltype(m)>;
    if constexpr (requires { m.rows(); }) { using T = typename M::Scalar; constexpr int R = M::RowsAtCompileTime, C = M::ColsAtCompileTime; read_tensor<P>(x, m, [&](const auto& r) { if (how == 0) { auto a = z::eigen::asEigenMatrix<T, R, C>(r); return flat<T>(a.data(), size_t(a.size())); }
        auto v = z::eigen::asEigenMatrixView<T, R, C>(r); if (how == 2) { auto c = v; auto w = std::move(c); v = w; } return flat<T>(v.map().data(), size_t(v.map().size())); }); }
    else { using T = typename M::value_type; read_tensor<P>(x, m, [&](const auto& r) { if (how == 0) { auto a = z::xtensor::asXTensor<T>(r); return flat<T>(a.data(), a.size()); }
        auto v = z::xtensor::asXTensorView<T>(r); if (how == 2) { auto c = v; auto w = std::move(c); v = w; } auto t = v.tensor(); return flat<T>(t.data(), t.size()); }); } }); }); }
// builders and dynamic values
static z::dyn::Value dynamic(size_t k) { using V = z::dyn::Value; switch (k) { case 0: return V(std::string(40, 's')); case 1: return z::dyn::array({V(1), V(std::string(30, 't')), V(2.5)}); case 2: return z::dyn::map({{std::string(25, 'k'), V(std::vector<std::byte>(33))}, {"b", z::dyn::array({V(nullptr), V(true)})}}); default: return z::dyn::serializable(std::vector<std::string>{std::string(40, 'v'), "w"}); } }
PART("dynamic-values") { size_t p = x.choose(5), k = x.choose(4), how = x.choose(3); protocol(p, [&]<class P>() { const Bytes want = copy_of(z::serialize<P>(dynamic(k))); const z::dyn::Value held = dynamic(k);
    explore(x, P::Name, [&] { if (how == 0) return z::serialize<P>(dynamic(k)); if (how == 1) { z::dyn::Value c(held); z::dyn::Value d; d = c; return z::serialize<P>(d); } z::dyn::Value c(held); c = z::dyn::Value(3); c = held; return z::serialize<P>(std::move(c)); }, [&](const z::ZBuffer& b) { return eq(b, want); }, [&] { return eq(z::serialize<P>(held), want); }); }); }
PART("builders") { size_t p = x.choose(5), k = x.choose(4); protocol(p, [&]<class P>() { const std::string name(40, 'n'); const std::vector<std::string> l{"a", std::string(30, 'b')}; const std::map<std::string, std::vector<double>> mp{{std::string(30, 'c'), {1, 2}}, {"d", {}}};
    auto make = [&] { switch (k) { case 0: return z::serialize<P>(z::zvec(name, std::string(50, 't'), l, 7)); case 1: return z::serialize<P>(z::zmap<"a", "b">(z::zvec(mp, name), std::list<std::string>{name, name})); case 2: { auto b = z::zmap<"x">(z::zvec(std::vector<std::string>(l), std::string(name))); (void)z::serialize<P>(b); return z::serialize<P>(b); } default: { auto b = z::zvec(std::unordered_map<std::string, std::string>{{name, name}}); auto c = b; return z::serialize<P>(std::move(c)); } } };
    const Bytes want = copy_of(make()); explore(x, P::Name, make, [&](const z::ZBuffer& b) { return eq(b, want); }); }); }
// buffers that adopt foreign memory: released exactly once, or left to the caller when adopting fails
PART("adopt") { size_t kind = x.choose(3), big = x.choose(3), mv = x.choose(4); static int freed; static void* got; static char mem[8]; struct Fat { long pad[6] = {1, 2, 3, 4, 5, 6}; };
    auto run = [&] { freed = 0; got = nullptr; auto mk = [&]() -> z::ZBuffer { auto d = [&]<class C>(std::type_identity<C>) { return [](C* p) { ++freed; got = p; }; }; auto fat = [&]<class C>(std::type_identity<C>) { return [f = Fat{}](C* p) { if (f.pad[5] == 6) ++freed; got = p; }; };
            auto go = [&]<class C>(std::type_identity<C> t) { if (big == 0) return z::ZBuffer((C*)mem, 8, d(t)); if (big == 1) return z::ZBuffer((C*)mem, 8, fat(t)); std::function<void(C*)> f = fat(t); return z::ZBuffer((C*)mem, 8, std::move(f)); };
            return kind == 0 ? go(std::type_identity<uint8_t>{}) : kind == 1 ? go(std::type_identity<char>{}) : go(std::type_identity<void>{}); };
        auto b = mk(); if (mv == 1) { z::ZBuffer c(std::move(b)); b = std::move(c); } if (mv == 2) { z::ZBuffer c; c = std::move(b); return c.to_vector_copy(); } if (mv == 3) { std::vector<z::ZBuffer> v; v.push_back(std::move(b)); v.emplace_back(); return v[0].to_vector_copy(); } return b.to_vector_copy(); };
    explore(x, "adopt", run, [&](const Bytes& b) { return b.size() == 8 && freed == 1 && got == (void*)mem; }, [&] { return freed <= 1; }); }
PART("base64") { size_t n = x.choose(40); const std::string s = fill(n, 7); explore(x, "base64", [&] { auto t = z::base64Encode(as_bytes(s)); auto b = z::base64Decode(t); return std::string(reinterpret_cast<const char*>(b.data()), b.size()); }, [&](const std::string& r) { return r == s; }); }
// Writing that is abandoned half way, then the writer destroyed, at every call of every document.
struct Stop : std::exception { int id; explicit Stop(int i) : id(i) {} };
namespace user { struct Bomb { int id; bool armed = true; std::string ballast = std::string(40, 'b'); }; template<z::Writer W> void serialize(const Bomb& b, W& w) { if (b.armed) throw Stop(b.id); w.string(b.ballast); } }
template<class F> static void thrown(mc::X& x, const char* what, int id, F f) { x.op(); for (int i = 0; i < 2; ++i) { try { f(); } catch (const Stop&) {} } const size_t before = __sanitizer_get_current_allocated_bytes(); const long docs = yystand::live_docs(); bool same = false, other = false; try { f(); } catch (const Stop& s) { same = s.id == id; } catch (...) { other = true; } const size_t after = __sanitizer_get_current_allocated_bytes();
    if (other) x.fail(std::string(what) + ": the user's exception was replaced by another"); if (!same) x.fail(std::string(what) + ": the user's exception did not reach the caller"); if (after > before || yystand::live_docs() != docs) x.fail(std::string(what) + ": " + std::to_string(after - before) + " bytes leaked"); }
PART("user-exceptions") { size_t p = x.choose(5), how = x.choose(12); x.go(); protocol(p, [&]<class P>() { using z::zvec; using z::zmap; user::Bomb b{int(how) + 100}; const std::string s(40, 's'); auto go = [&](const char* w, auto f) { thrown(x, w, b.id, f); };
    switch (how) { case 0: go("root", [&] { (void)z::serialize<P>(b); }); break; case 1: go("first of an array", [&] { (void)z::serialize<P>(zvec(b, s)); }); break; case 2: go("last of an array", [&] { (void)z::serialize<P>(zvec(s, zvec(1, s), b)); }); break; case 3: go("map value", [&] { (void)z::serialize<P>(zmap<"a", "b", "c">(s, b, 3)); }); break;
        case 4: go("nested", [&] { (void)z::serialize<P>(zmap<"a", "b">(zvec(s, zmap<"in">(zvec(1, b))), 2)); }); break; case 5: go("vector", [&] { std::vector<user::Bomb> v(3, b); v[0].armed = v[1].armed = false; (void)z::serialize<P>(v); }); break; case 6: go("map", [&] { std::map<std::string, user::Bomb> m{{"a", b}, {s, b}}; m["a"].armed = false; (void)z::serialize<P>(m); }); break; case 7: go("list in a builder", [&] { std::list<user::Bomb> l{b}; (void)z::serialize<P>(zvec(s, l)); }); break;
        case 8: go("dynamic", [&] { (void)z::serialize<P>(z::dyn::serializable(b)); }); break; case 9: go("dynamic in a map", [&] { (void)z::serialize<P>(z::dyn::map({{"k", z::dyn::array({z::dyn::Value(s), z::dyn::serializable(b)})}})); }); break; case 10: go("stored builder", [&] { auto q = zmap<"x">(zvec(std::string(s), user::Bomb(b))); (void)z::serialize<P>(q); }); break; default: go("array", [&] { std::array<user::Bomb, 2> a{b, b}; (void)z::serialize<P>(zvec(a, 1)); }); } }); }
// the calls of a document, stopped after each of them
template<class W> struct Cut { W& w; size_t left; void tick() { if (left-- == 0) throw Stop(7); } void null() { tick(); w.null(); } void boolean(bool b) { tick(); w.boolean(b); } void int64(int64_t v) { tick(); w.int64(v); } void uint64(uint64_t v) { tick(); w.uint64(v); } void double_(double v) { tick(); w.double_(v); } void string(std::string_view s) { tick(); w.string(s); } void binary(std::span<const std::byte> b) { tick(); w.binary(b); } void key(std::string_view k) { tick(); w.key(k); } void begin_array(size_t n) { tick(); w.begin_array(n); } void end_array() { tick(); w.end_array(); } void begin_map(size_t n) { tick(); w.begin_map(n); } void end_map() { tick(); w.end_map(); } };
static size_t calls(const Val& v) { size_t n = 1; if (v.k == Arr || v.k == Map) { ++n; for (auto& c : v.a) n += calls(c) + (v.k == Map); } return n; }
PART("abandoned-writing") { size_t p = x.choose(5), d = x.choose(docs().size()), k = x.choose(calls(docs()[d])); x.go(); protocol(p, [&]<class P>() { thrown(x, P::Name, 7, [&] { typename P::RootSerializer rs{}; typename P::Serializer w{rs}; Cut<typename P::Serializer> c{w, k}; emit(docs()[d], c); }); }); }
int main(int c, char** v) { return mc::run_main(c, v, "C23"); }
