// C24: reading a document in place is lazy. Documents lie in pages of their own; the pages to be left alone are made
// inaccessible, every access to one is recorded (and then allowed), and every allocation is counted.
#include "tens.hpp"
#include <signal.h>
#include <sys/mman.h>
using D = P::Deserializer;
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); }
namespace watch { static long allocs = 0; static uint8_t* base = nullptr; static size_t size = 0; static long touched = 0; static size_t first = 0; constexpr size_t Pg = 4096; }
extern "C" void* malloc(size_t n) { ++watch::allocs; return __libc_malloc(n); }
extern "C" void* calloc(size_t a, size_t b) { ++watch::allocs; return __libc_calloc(a, b); }
extern "C" void* realloc(void* p, size_t n) { ++watch::allocs; return __libc_realloc(p, n); }
void* operator new(size_t n) { ++watch::allocs; if (void* p = __libc_malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __libc_free(p); }
void operator delete[](void* p) noexcept { __libc_free(p); }
void operator delete(void* p, size_t) noexcept { __libc_free(p); }
void operator delete[](void* p, size_t) noexcept { __libc_free(p); }
static void on_fault(int sig, siginfo_t* si, void*) {
    auto a = reinterpret_cast<uintptr_t>(si->si_addr), b = reinterpret_cast<uintptr_t>(watch::base);
    if (!watch::base || a < b || a >= b + watch::size) { signal(sig, SIG_DFL); return; } // not ours: crash as usual
    if (!watch::touched++) watch::first = size_t(a - b);
    mprotect(watch::base + (a - b) / watch::Pg * watch::Pg, watch::Pg, PROT_READ);
}
// the document's own pages: the bytes start `mis` bytes into the first one
struct Pages {
    uint8_t* p; size_t n, mis; std::vector<std::pair<size_t, size_t>> shut; // page ranges
    Pages(const std::vector<uint8_t>& d, size_t m) : n(d.size()), mis(m) {
        static bool once = [] { struct sigaction sa {}; sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); return true; }(); (void)once;
        watch::size = (m + n + 1 + watch::Pg - 1) / watch::Pg * watch::Pg; void* q = mmap(nullptr, watch::size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (q == MAP_FAILED) throw std::runtime_error("mmap"); watch::base = static_cast<uint8_t*>(q); p = watch::base + m; std::memcpy(p, d.data(), n);
    }
    Pages(const Pages&) = delete;
    ~Pages() { munmap(watch::base, watch::size); watch::base = nullptr; }
    std::span<const uint8_t> span() const { return {p, n}; }
    // every whole page inside an occurrence of `what` in the document
    size_t payload(const std::string& what) { size_t k = 0; for (uint8_t* q = p; (q = static_cast<uint8_t*>(memmem(q, size_t(p + n - q), what.data(), what.size()))); q += what.size()) { ++k; size_t a = size_t(q - watch::base), b = a + what.size(); a = (a + watch::Pg - 1) / watch::Pg; b /= watch::Pg; if (a < b) shut.push_back({a, b}); } return k; }
    void all() { shut = {{0, watch::size / watch::Pg}}; }
    void arm() { for (auto [a, b] : shut) mprotect(watch::base + a * watch::Pg, (b - a) * watch::Pg, PROT_NONE); watch::touched = 0; }
    void open() { mprotect(watch::base, watch::size, PROT_READ | PROT_WRITE); }
};
static const std::string BIG = fill(13001, 1), BLOB = fill(12777, 2), LONGKEY = "a key that is far too long for any small string";
constexpr bool FREE = PROTO != 4; // CBOR key comparison may copy keys
// runs one reading operation that may look at no watched page and allocate nothing
template<class F> auto lazy(mc::X& x, const char* w, F&& f, bool may_alloc = false, long pages = 0) {
    x.op(); const long t = watch::touched, a = watch::allocs; auto r = f(); const long da = watch::allocs - a, dt = watch::touched - t;
    if (da && !may_alloc) x.fail(std::string(w) + " allocates memory"); if (dt > pages) x.fail(std::string(w) + (pages ? " looks at " + std::to_string(dt) + " pages of a document of " + std::to_string(watch::size / watch::Pg) : " reads the contents of a string or blob (at offset " + std::to_string(watch::first) + ")")); return r;
}
template<class R> void nav(mc::X& x, const R& r, const Val& v, const Pages& pg) {
    const int kinds = lazy(x, "a type test", [&] { return r.isNull() + 2 * r.isBool() + 4 * r.isInt() + 8 * r.isUInt() + 16 * r.isFloat() + 32 * r.isString() + 64 * r.isBlob() + 128 * r.isArray() + 256 * r.isMap(); }); if (!kinds) x.fail("no type test answers true");
    auto inside = [&](const void* p, size_t n) { auto q = static_cast<const uint8_t*>(p); return q >= pg.p && q + n <= pg.p + pg.n; };
    switch (v.k) {
        case Null: break;
        case Bool: if (lazy(x, "asBool", [&] { return r.asBool(); }) != v.b) x.fail("bool"); break;
        case Int: if (lazy(x, "asInt64", [&] { return r.asInt64(); }) != v.i) x.fail("int"); break;
        case UInt: if (lazy(x, "asUInt64", [&] { return r.asUInt64(); }) != v.u) x.fail("uint"); break;
        case Dbl: if (std::bit_cast<uint64_t>(lazy(x, "asDouble", [&] { return r.asDouble(); })) != v.d) x.fail("double"); break;
        case Str: { auto s = lazy(x, "asStringView", [&] { return r.asStringView(); }); if (s.size() != v.s.size() || (s.size() && !inside(s.data(), s.size()))) x.fail("string view"); break; }
        case Blob: { auto s = lazy(x, "asBlob", [&] { return r.asBlob(); }); if (s.size() != v.s.size() || (s.size() && !inside(s.data(), s.size()))) x.fail("blob view"); break; }
        case Arr: { if (lazy(x, "arraySize", [&] { return r.arraySize(); }) != v.a.size()) x.fail("array size"); for (size_t j = 0; j < v.a.size(); ++j) { auto c = lazy(x, "indexing", [&] { return r[j]; }); nav(x, c, v.a[j], pg); } break; }
        case Map: {
            size_t n = 0, len = 0, want = 0; for (auto& k : v.keys) want += k.size(); lazy(x, "listing the keys", [&] { for (std::string_view k : r.mapKeys()) { ++n; len += k.size(); } return 0; }, !FREE); if (n != v.keys.size() || len != want) x.fail("key listing");
            for (auto& k : v.keys) { if (!lazy(x, "contains", [&] { return r.contains(k); }, !FREE)) x.fail("contains"); } if (lazy(x, "contains", [&] { return r.contains("absent"); }, !FREE)) x.fail("contains an absent key");
            for (size_t j = 0; j < v.a.size(); ++j) { auto c = lazy(x, "lookup", [&] { return r[std::string_view(v.keys[j])]; }, !FREE); nav(x, c, v.a[j], pg); } break;
        }
    }
}
template<class D = ::D> void whole(mc::X& x, const Val& v, size_t mis, size_t bigs) {
    Pages pg(encode<P>(v), mis); const size_t k = pg.payload(BIG) + pg.payload(BLOB); if (k != bigs) x.fail("not every payload was found in the document (" + std::to_string(k) + " of " + std::to_string(bigs) + ")"); pg.arm();
    { D d = lazy(x, "opening", [&] { return D(pg.span()); }); nav(x, d, v, pg); auto again = [&](D& e) { if constexpr (std::is_copy_constructible_v<D>) { D c = lazy(x, "copying an in-place document", [&] { return D(e); }); nav(x, c, v, pg); } D m = lazy(x, "moving an in-place document", [&] { return D(std::move(e)); }); nav(x, m, v, pg); };
      D e = lazy(x, "opening", [&] { return D(pg.span()); }); again(e); if constexpr (requires { D(pg.p, pg.n); }) { D g = lazy(x, "opening", [&] { return D(pg.p, pg.n); }); again(g); } }
    pg.open(); D d(pg.span()); if (x.want_sample()) x.sample(std::to_string(bigs) + " payloads, " + std::to_string(pg.n) + " bytes");
}
static size_t bigs(const Val& v) { size_t n = v.s == BIG || v.s == BLOB; for (auto& c : v.a) n += bigs(c); return n; }
static const std::vector<Val>& lv() { static const std::vector<Val> l = {ref::str(BIG), ref::blob(BLOB), ref::null(), ref::boolean(true), ref::i64(-70000), ref::u64(1ull << 40), ref::dbl(1.5), ref::str("s"), ref::str(fill(40)), ref::blob("b"), ref::blob("")}; return l; }
static const std::vector<Val>& fw() { static const std::vector<Val> l = {ref::str(BIG), ref::blob(BLOB), ref::i64(3)}; return l; }
static void rekey(Val& v) { size_t j = 0; for (auto& k : v.keys) { if (j++ % 2 == 0) k = LONGKEY + k; } for (auto& c : v.a) rekey(c); }
PART("trees") { int b = x.thorough ? 7 : 6; Val v = tree(x, fw(), b, 3); const bool lk = x.flip(); const size_t mis = x.choose(2) * 5; x.go(); if (lk) rekey(v); whole(x, v, mis, bigs(v)); }
PART("leaves") { const Val &a = x.pick(lv()), &b = x.pick(lv()), &c = x.pick(lv()); const size_t s = x.choose(4); x.go(); Val v = s == 0 ? ref::arr({a, b, c}) : s == 1 ? ref::map({{"k", a}, {LONGKEY, b}, {"z", c}}) : s == 2 ? ref::arr({a, ref::arr({b}), ref::map({{LONGKEY, c}})}) : ref::map({{LONGKEY, ref::map({{"i", a}, {"j", b}})}, {"x", ref::arr({c})}}); whole(x, v, 0, bigs(v)); }
PART("sizes") { static const size_t L[] = {65535, 65536, 200000, 1000000, 5000000}; const size_t l = L[x.choose(5)]; const bool s = x.flip(); const size_t c = x.choose(3), mis = x.choose(3) * 7; x.go(); const std::string by = fill(l, 5); Val v = s ? ref::str(by) : ref::blob(by); Val doc = c == 0 ? v : c == 1 ? ref::arr({v, ref::i64(1), v}) : ref::map({{"a", v}, {LONGKEY, v}});
    Pages pg(encode<P>(doc), mis); if (pg.payload(by) != size_t(c ? 2 : 1)) x.fail("not every payload was found in the document"); pg.arm(); D d = lazy(x, "opening", [&] { return D(pg.span()); }); nav(x, d, doc, pg); }
// ---- bounded work: every page is watched -----------------------------------------------------------------------------
PART("opening") { static const size_t N[] = {0, 1, 100, 1000, 10000, 100000, 300000}; const size_t n = N[x.choose(x.thorough ? 7 : 6)], kind = x.choose(6), mis = x.choose(3) * 1364; x.go();
    Val v; if (kind == 0) { v = ref::arr(); for (size_t j = 0; j < n; ++j) v.a.push_back(ref::i64(int64_t(j) * 7)); } else if (kind == 1) { v = ref::arr(); for (size_t j = 0; j < n; ++j) v.a.push_back(ref::str(fill(j % 50))); } else if (kind == 2) { v.k = Map; for (size_t j = 0; j < n; ++j) { v.keys.push_back("k" + std::to_string(j)); v.a.push_back(ref::u64(j)); } } else if (kind == 3) v = ref::str(fill(n * 20)); else if (kind == 4) v = ref::blob(fill(n * 20)); else { v = ref::arr(); for (size_t j = 0; j < n; ++j) v.a.push_back(ref::arr({ref::i64(1), ref::map({{"k", ref::str("v")}})})); }
    Pages pg(encode<P>(v), mis); pg.all(); pg.arm();
    D d = lazy(x, "opening", [&] { return D(pg.span()); }, false, 4);
    lazy(x, "a type test of the root", [&] { return d.isNull() + d.isBool() + d.isInt() + d.isUInt() + d.isFloat() + d.isString() + d.isBlob() + d.isArray() + d.isMap(); }, false, 4);
    if (v.k == Arr) { if (lazy(x, "arraySize", [&] { return d.arraySize(); }, false, 4) != n) x.fail("array size"); }
    else if (v.k == Str) { if (lazy(x, "asStringView", [&] { return d.asStringView().size(); }, false, 4) != n * 20) x.fail("string size"); }
    else if (v.k == Blob) { if (lazy(x, "asBlob", [&] { return d.asBlob().size(); }, false, 4) != n * 20) x.fail("blob size"); }
    if constexpr (PROTO == 0 || PROTO == 2) if (v.k == Arr && n) for (size_t j : {size_t(0), n / 3, n / 2, n - 1}) { pg.arm(); auto c = lazy(x, "indexing", [&] { return d[j]; }, false, 6); if (kind == 0 && lazy(x, "asInt64", [&] { return c.asInt64(); }, false, 4) != int64_t(j) * 7) x.fail("element"); if (kind == 1 && lazy(x, "asStringView", [&] { return c.asStringView().size(); }, false, 4) != j % 50) x.fail("element"); }
    if constexpr (PROTO == 2) if (v.k == Map && n) for (size_t j : {size_t(0), n / 3, n - 1}) { pg.arm(); const std::string k = "k" + std::to_string(j); if (!lazy(x, "contains", [&] { return d.contains(k); }, false, 60)) x.fail("contains"); pg.arm(); if (lazy(x, "lookup", [&] { return d[std::string_view(k)].asUInt64(); }, false, 60) != j) x.fail("lookup"); }
    pg.open();
}
// ---- tensor views in place ---------------------------------------------------------------------------------------------
template<class T> void tview(mc::X& x) { static const size_t R[] = {60, 61, 128}; const size_t rows = R[x.choose(3)], cols = 57 + x.choose(3), pre = x.choose(17), mis = x.choose(16); x.go(); const std::string by = fill(rows * cols * sizeof(T), 9);
    Pages pg(encode<P>(ref::arr({ref::str(fill(pre)), ref::arr({ref::i64(z::tensor_dtype_index<T>), ref::arr({ref::u64(rows), ref::u64(cols)}), ref::blob(by)})})), mis); if (pg.payload(by) != 1) x.fail("payload not found"); pg.arm(); D d(pg.span()); auto e = d[size_t(1)];
    { x.op(); auto v = z::xtensor::asXTensorView<T>(e); if (v.viewInfo().zero_copy) { if (watch::touched) x.fail("an in-place tensor view reads the elements"); auto a = v.tensor(); (void)v.shape(); auto v2 = v; auto v3 = std::move(v2); auto a3 = v3.tensor(); (void)a3; if (watch::touched) x.fail("handling an in-place tensor view reads the elements"); T el = a(rows - 1, 0), w; std::memcpy(&w, by.data() + (rows - 1) * cols * sizeof(T), sizeof(T)); if (std::memcmp(&el, &w, sizeof(T))) x.fail("element"); if (watch::touched > 2) x.fail("reading one element reads others"); x.outcome("in place"); } else x.outcome("copied"); }
    pg.arm(); { x.op(); auto v = z::eigen::asEigenMatrixView<T, Eigen::Dynamic, Eigen::Dynamic>(e); if (v.viewInfo().zero_copy) { if (watch::touched) x.fail("an in-place matrix view reads the elements"); auto m = v.map(); auto v2 = v; (void)v2.map(); if (watch::touched) x.fail("handling an in-place matrix view reads the elements"); T el = m(0, long(cols) - 1), w; std::memcpy(&w, by.data() + (cols - 1) * rows * sizeof(T), sizeof(T)); if (std::memcmp(&el, &w, sizeof(T))) x.fail("element"); if (watch::touched > 2) x.fail("reading one element reads others"); } }
    pg.open(); }
PART("views of bytes") { tview<uint8_t>(x); }
PART("views of doubles") { tview<double>(x); }
PART("views of int32") { tview<int32_t>(x); }
int main(int c, char** v) { return mc::run_main(c, v, "C24"); }
