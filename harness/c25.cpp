// C25: what is written is a function of the value. Every fresh block of memory, every released block and the stack below the
// call are filled with a chosen byte; earlier, failed, abandoned and concurrent work, the global locale, the thread and the
// process vary; the bytes (or the error) must be the same each time, and so must everything read back from them.
#include "tens.hpp"
#include <zerialize/translate.hpp>
#include <zerialize/protocols/json.hpp>
#include <zerialize/protocols/cbor.hpp>
#include <malloc.h>
#include <sys/wait.h>
#include <thread>
#include <locale>
#include <clocale>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); }
namespace mem { static int fill = -1; static thread_local long fail = 0; // fail: the n-th next allocation fails
    inline bool refuse() { return fail > 0 && --fail == 0; }
    inline void* fresh(void* p) { if (p && fill >= 0) std::memset(p, fill, malloc_usable_size(p)); return p; }
    inline void gone(void* p) { if (p && fill >= 0) std::memset(p, fill ^ 0x3c, malloc_usable_size(p)); __libc_free(p); } }
extern "C" void* malloc(size_t n) { return mem::refuse() ? nullptr : mem::fresh(__libc_malloc(n)); }
extern "C" void* calloc(size_t a, size_t b) { return mem::refuse() ? nullptr : __libc_calloc(a, b); }
extern "C" void* realloc(void* p, size_t n) { if (mem::refuse()) return nullptr; const size_t o = p ? malloc_usable_size(p) : 0; void* q = __libc_realloc(p, n); if (q && mem::fill >= 0) { const size_t u = malloc_usable_size(q); if (u > o) std::memset(static_cast<char*>(q) + o, mem::fill, u - o); } return q; }
extern "C" void free(void* p) { mem::gone(p); }
void* operator new(size_t n) { if (mem::refuse()) throw std::bad_alloc(); if (void* p = mem::fresh(__libc_malloc(n ? n : 1))) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { mem::gone(p); }
void operator delete[](void* p) noexcept { mem::gone(p); }
void operator delete(void* p, size_t) noexcept { mem::gone(p); }
void operator delete[](void* p, size_t) noexcept { mem::gone(p); }
__attribute__((noinline)) static void paint(int c) { unsigned char b[32 * 1024]; std::memset(b, c, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
using Bytes = std::vector<uint8_t>;
// the bytes a producer makes, or the error it raises
struct Out { Bytes b; std::string err; bool operator==(const Out&) const = default; };
static std::string show(const Out& o) { return o.err.empty() ? mc::hex(o.b, 90) : "error " + o.err; }
template<class F> Out attempt(F&& f) { try { return {f(), ""}; } catch (const std::exception& e) { return {{}, std::string("raised: ") + e.what()}; } }
static z::dyn::Value dyn_of(const Val& v) {
    switch (v.k) {
        case Null: return z::dyn::Null{}; case Bool: return v.b; case Int: return v.i; case UInt: return v.u; case Dbl: return std::bit_cast<double>(v.d); case Str: return z::dyn::Value(std::string(v.s));
        case Blob: return z::dyn::Value::blob(as_bytes(v.s)); case Arr: { z::dyn::Value::Array a; for (auto& c : v.a) a.push_back(dyn_of(c)); return z::dyn::Value::array(std::move(a)); }
        default: { z::dyn::Value::Map m; for (size_t j = 0; j < v.a.size(); ++j) m.emplace_back(v.keys[j], dyn_of(v.a[j])); return z::dyn::Value::map(std::move(m)); } } }
template<class Q> Bytes translated(const Val& v) { const Bytes e = encode<Q>(v); typename Q::Deserializer s{std::span<const uint8_t>(e)}; typename P::RootSerializer rs; typename P::Serializer w(rs); z::write_value(s, w); return copy_of(rs.finish()); }
static const size_t MAKERS = 8;
static Bytes make(size_t how, const Val& v) {
    switch (how) {
        case 0: return encode<P>(v);
        case 1: return copy_of(z::serialize<P>(dyn_of(v)));
        case 2: return copy_of(z::serialize<P>(z::zvec(z::dyn::serializable(Val(v)), z::zmap<"k", "a longer key than fits inline">(v, dyn_of(v)))));
        case 3: return translated<z::Zera>(v); case 4: return translated<z::MsgPack>(v); case 5: return translated<z::Flex>(v); case 6: return translated<z::JSON>(v); default: return translated<z::CBOR>(v);
    } }
// everything reading the bytes answers, as text
template<class R> void told(const R& r, std::string& o, int depth = 0) {
    auto add = [&](char t, std::string_view s) { o += t; o += std::to_string(s.size()); o += ':'; o += s; }; auto ask = [&](const char* n, auto&& f) { o += n; try { o += f(); } catch (const z::DeserializationError&) { o += '!'; } };
    for (bool b : {r.isNull(), r.isBool(), r.isInt(), r.isUInt(), r.isFloat(), r.isString(), r.isBlob(), r.isArray(), r.isMap()}) o += b ? '1' : '0';
    ask("b", [&] { return std::string(r.asBool() ? "t" : "f"); }); ask("i", [&] { return std::to_string(r.asInt64()); }); ask("j", [&] { return std::to_string(r.asInt8()); }); ask("u", [&] { return std::to_string(r.asUInt64()); }); ask("v", [&] { return std::to_string(r.asUInt16()); }); ask("d", [&] { return std::to_string(std::bit_cast<uint64_t>(r.asDouble())); });
    if (r.isString()) { ask("s", [&] { return std::string(r.asString()); }); ask("S", [&] { return std::string(r.asStringView()); }); }
    if (r.isBlob()) { auto b = r.asBlob(); add('B', {reinterpret_cast<const char*>(std::data(b)), std::size(b)}); }
    else if (r.isArray()) { const size_t n = r.arraySize(); o += '['; o += std::to_string(n); for (size_t j = 0; j < n; ++j) told(r[j], o, depth + 1); ask("past", [&] { (void)r[n]; return std::string("?"); }); o += ']'; }
    else if (r.isMap()) { o += '{'; for (std::string_view k : r.mapKeys()) { add('k', k); o += r.contains(k) ? '+' : '-'; told(r[k], o, depth + 1); } ask("absent", [&] { (void)r["no such key"]; return std::string("?"); }); o += '}'; }
    if (depth == 0) add('p', r.to_string()); }
static std::string told(const Bytes& b) { const Bytes c(b); std::string o; try { typename P::Deserializer d{std::span<const uint8_t>(c)}; told(d, o); } catch (const std::exception& e) { o += std::string("raised ") + e.what(); } return o; }
// ---- environments -----------------------------------------------------------------------------------------------------------
struct Odd { }; template<z::Writer W> void serialize(const Odd&, W& w) { w.begin_array(3); w.string("half an array, and then nothing more of it"); w.begin_map(2); w.key("a key"); throw std::runtime_error("odd"); }
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1\2"; } };
static const Val& other() { static const Val v = map({{"other", arr({str(fill(700, 9)), blob(fill(333, 8)), dbl(1e300), i64(INT64_MIN), u64(UINT64_MAX)})}, {"k", str("s")}, {"", boolean(true)}, {fill(90, 3), arr()}}); return v; }
static const size_t PASTS = 11;
// what happened before: nothing, other work, work refused, work abandoned, memory exhausted, on another thread, during other work, in another locale, elsewhere in memory
template<class F> auto after(size_t past, F&& f) -> decltype(f()) {
    switch (past) {
        case 0: return f();
        case 1: { const Bytes b = encode<P>(other()); std::string s = told(b); return f(); }
        case 2: { for (int j = 0; j < 30; ++j) try { (void)z::serialize<P>(Odd{}); } catch (const std::runtime_error&) {} return f(); }
        case 3: { for (int j = 0; j < 30; ++j) { typename P::RootSerializer rs; typename P::Serializer w(rs); w.begin_map(2); w.key("left open"); w.begin_array(9); w.string(other().keys[3]); for (int d = 0; d < j; ++d) w.begin_array(1); } return f(); }
        case 4: { for (long n : {1l, 2l, 3l, 5l, 8l, 13l}) { mem::fail = n; try { (void)encode<P>(other()); } catch (const std::bad_alloc&) {} catch (const std::exception&) {} mem::fail = 0; } return f(); }
        case 5: { std::optional<decltype(f())> r; std::thread t([&] { const int c = mem::fill; if (c >= 0) paint(c); r.emplace(f()); }); t.join(); return *r; }
        case 6: { typename P::RootSerializer rs; typename P::Serializer w(rs); w.begin_map(1); w.key("open around"); w.begin_array(2); w.string("first"); auto r = f(); w.null(); w.end_array(); w.end_map(); (void)rs.finish(); return r; }
        case 7: { const std::locale was = std::locale::global(std::locale(std::locale(), new Comma)); auto r = f(); std::locale::global(was); return r; }
        case 8: { std::vector<std::unique_ptr<char[]>> junk; for (size_t n : {1u, 24u, 40u, 100u, 1000u, 5000u, 40000u, 300000u}) junk.emplace_back(new char[n]); junk[1].reset(); junk[3].reset(); junk[5].reset(); return f(); }
        case 10: { if (P::Name == std::string_view(z::Flex::Name)) return f(); // FlexBuffers does not promise to survive malformed bytes
            static const std::vector<Bytes> bad = [] { std::vector<Bytes> r; for (size_t pat : {0u, 1u}) for (size_t d : {20u, 300u}) { if (pat && d > 20) continue; const Bytes b = encode<P>(nested(pat, d, str("deep"))); for (size_t cut : {1u}) if (cut < b.size()) r.emplace_back(b.begin(), b.end() - long(cut)); for (size_t at : {b.size() - 1}) { if (d > 20) continue; Bytes c = b; c[at] = 0xff; r.push_back(c); } } return r; }();
            mem::fill = -1; for (auto& b : bad) try { typename P::Deserializer d{std::span<const uint8_t>(b)}; for (int t = 0; t < 3; ++t) try { if (t == 0) { if (d.isMap()) for (std::string_view k : d.mapKeys()) (void)d[k]; else (void)d[1]; } else if (t == 1) { if (d.isMap()) (void)d.contains("no such key"); else (void)d.arraySize(); } else if (d.isMap()) (void)d["no such key"]; else (void)d[0]; } catch (const std::exception&) {} } catch (const std::exception&) {} return f(); }
        default: { try { const Bytes g = {0x5a, 0x45, 0xff, 0x81, 0x7f, 0x00, 0xc1}; (void)told(g); } catch (const std::exception&) {} for (auto t : {"Q", "QUI*", "=", ""}) try { (void)z::base64Decode(t); } catch (const std::exception&) {} return f(); }
    } }
static const int FILLS[] = {0x00, 0xa5, 0xff, 0x20};
template<class F> auto in_env(int c, size_t past, F&& f) { return after(past, [&] { mem::fill = c; paint(c); auto r = f(); mem::fill = -1; return r; }); }
template<class F> void same(mc::X& x, const std::string& what, F&& f, bool read = true) {
    const Out ref = attempt(f); std::string said; if (read && ref.err.empty()) said = told(ref.b);
    for (int c : FILLS) for (size_t past = 0; past < PASTS; ++past) {
        x.op(); const Out o = in_env(c, past, [&] { return attempt(f); });
        if (!(o == ref)) x.fail(what + ": written as " + show(ref) + " once and as " + show(o) + " with memory full of " + std::to_string(c) + ", past " + std::to_string(past));
        if (read && past != 7 && ref.err.empty()) { x.op(); const std::string s = in_env(c, past, [&] { return told(ref.b); }); if (s != said) x.fail(what + ": reading the same bytes told something else with memory full of " + std::to_string(c) + ", past " + std::to_string(past)); }
    }
    if (x.want_sample()) x.sample(what + " " + show(ref)); x.outcome(show(ref)); }
static Val wrap(const Val& v, size_t c) { switch (c) { case 0: return v; case 1: return arr({v}); case 2: return map({{"k", v}}); case 3: return arr({str("p"), v, i64(-7)}); case 4: return map({{"a", v}, {"b", arr({v})}, {"zz", boolean(true)}}); default: return arr({map({{"x", arr({v, v})}}), v}); } }
static std::string name(size_t how, const Val& v) { return std::string(P::Name) + " maker " + std::to_string(how) + " of " + ref::show(v); }
PART("leaves") { const Val& v = x.pick(leaves()); size_t c = x.choose(6), how = x.choose(MAKERS); x.go(); const Val w = wrap(v, c); same(x, name(how, w), [&] { return make(how, w); }); }
PART("pairs") { const Val& a = x.pick(few()); const Val& b = x.pick(few()); bool m = x.flip(); size_t how = x.choose(x.thorough ? MAKERS : 2); x.go(); const Val w = m ? map({{"m", a}, {"k", b}}) : arr({a, b}); same(x, name(how, w), [&] { return make(how, w); }, x.thorough); }
PART("trees") { static const std::vector<Val> al = {null(), i64(-5), dbl(0.1), str("s"), str(fill(21, 1)), blob(fill(9, 2))}; int bud = x.thorough ? 5 : 4; const Val v = tree(x, al, bud, 3); size_t how = x.choose(x.thorough ? 3 : 1); x.go(); same(x, name(how, v), [&] { return make(how, v); }); }
PART("sizes") { size_t n = x.pick(header_sizes()); if (n > 300 && !x.thorough) throw mc::Prune{}; size_t k = x.choose(SIZED), c = x.choose(AROUND), how = x.choose(x.thorough ? 3 : 1); x.go(); const Val w = around(c, sized(k, n)); same(x, name(how, w), [&] { return make(how, w); }, n < (x.thorough ? 300 : 18)); }
PART("runs") { size_t n = x.choose(x.thorough ? 200 : 70), k = x.choose(4); x.go(); const Val w = k == 0 ? arr({str(fill(n, 1)), blob("zz"), str(fill(n + 1, 2))}) : k == 1 ? arr({blob(fill(n, 1)), str(fill(13, 3)), blob(fill(n + 1, 2)), i64(-1)}) : k == 2 ? map({{fill(n, 1), str(fill(n, 2))}, {"~", blob(fill(n, 3))}}) : arr({arr({str(fill(n, 1))}), dbl(0.5), map({{"q", blob(fill(n, 2))}})}); same(x, name(0, w), [&] { return make(0, w); }); }
PART("growth") { // documents that make buffers grow again and again
    static const size_t N[] = {100, 1000, 4090, 4096, 5000, 9000, 70000}; size_t n = N[x.choose(7)], k = x.choose(3); x.go(); Val w = arr(); if (k == 0) for (size_t j = 0; j < n / 20; ++j) w.a.push_back(j % 3 ? str(fill(j % 40, unsigned(j))) : blob(fill(j % 37, unsigned(j)))); else if (k == 1) w = map({{"a", str(fill(n, 1))}, {"b", blob(fill(n / 2, 2))}, {"c", i64(1)}}); else for (size_t j = 0; j < n / 50; ++j) w.a.push_back(map({{"i", u64(j)}, {fill(5 + j % 30, 2), dbl(double(j) * 0.5)}}));
    same(x, name(0, w), [&] { return make(0, w); }, n <= 5000); }
PART("tensors") { size_t t = x.choose(TYPES), sh = x.choose(7), form = x.choose(3); bool emb = x.flip(); static const std::vector<Shape> S = {{}, {0}, {1}, {3}, {2, 3}, {1, 7}, {2, 2, 3}}; const Shape s = S[sh];
    type_switch(t, [&](auto tag) { using T = decltype(tag); x.go(); auto go = [&](const auto& m) { same(x, std::string(P::Name) + " tensor of type " + std::to_string(CODE[t]) + " shape " + show(s) + " form " + std::to_string(form), [&] { return emb ? copy_of(z::serialize<P>(z::zmap<"before", "t">("text", m))) : copy_of(z::serialize<P>(m)); }); };
        if (form == 2) { if (s.size() != 2) throw mc::Prune{}; if constexpr (!std::is_same_v<T, half>) { Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> m(static_cast<Eigen::Index>(s[0]), static_cast<Eigen::Index>(s[1])); for (size_t j = 0; j < count(s); ++j) copy_elem(m.data()[j], elem<T>(j)); go(m); } }
        else { xt::xarray<T> a = xt::xarray<T>::from_shape(s); for (size_t j = 0; j < count(s); ++j) copy_elem(a.data()[j], elem<T>(j)); if (form == 0) go(a); else { if (s.size() != 2) throw mc::Prune{}; go(xt::eval(xt::transpose(a))); } } }); }
PART("base64") { size_t n = x.choose(x.thorough ? 400 : 130), salt = x.choose(3); x.go(); const std::string s = fill(n, unsigned(salt)); std::string ref = z::base64Encode(as_bytes(s)); auto back = z::base64Decode(ref); for (int c : FILLS) for (size_t past = 0; past < PASTS; ++past) { x.op(2); if (in_env(c, past, [&] { return z::base64Encode(as_bytes(s)); }) != ref) x.fail("base64 text of the same bytes differs"); if (in_env(c, past, [&] { return z::base64Decode(ref); }) != back) x.fail("decoded bytes of the same text differ"); } x.outcome(ref); }
PART("abandoned") { // nothing of an abandoned document shows in the next one, wherever it was abandoned
    const Val& v = x.pick(few()); size_t stop = x.choose(14), how = x.choose(3); x.go(); const Out ref = attempt([&] { return make(how, v); }); x.op();
    { typename P::RootSerializer rs; typename P::Serializer w(rs); size_t k = 0; auto go = [&](auto&& f) { if (k++ < stop) f(); }; go([&] { w.begin_map(3); }); go([&] { w.key("abandoned key of some length"); }); go([&] { w.begin_array(4); }); go([&] { w.string("abandoned text of some length"); }); go([&] { w.binary(as_bytes(other().keys[3])); }); go([&] { w.begin_map(1); }); go([&] { w.key("in"); }); go([&] { w.double_(0.25); }); go([&] { w.end_map(); }); go([&] { w.uint64(77); }); go([&] { w.end_array(); }); go([&] { w.key("k"); }); go([&] { w.null(); }); }
    const Out o = attempt([&] { return make(how, v); }); if (!(o == ref)) x.fail(name(how, v) + ": written as " + show(ref) + " and, after an abandoned document, as " + show(o)); x.outcome(show(ref)); }
// the same memory holding one value and then another: answers follow the contents
PART("same-place") { const Val& a = x.pick(leaves()); const Val& b = x.pick(few()); size_t c = x.choose(x.thorough ? 6 : 3); x.go(); const Val va = wrap(a, c), vb = wrap(b, c); if (!attempt([&] { return encode<P>(va); }).err.empty()) throw mc::Prune{}; Bytes ea = encode<P>(va), eb = encode<P>(vb); const std::string ta = told(ea), tb = told(eb); const size_t la = ea.size(), lb = eb.size();
    Bytes room(std::max(la, lb)); auto put = [&](const Bytes& e) { std::memcpy(room.data(), e.data(), e.size()); std::string o; typename P::Deserializer d{std::span<const uint8_t>(room.data(), e.size())}; told(d, o); x.op(); return o; };
    for (int j = 0; j < 2; ++j) { if (put(ea) != ta) x.fail(std::string(P::Name) + ": " + ref::show(va) + " read otherwise where " + ref::show(vb) + " was"); if (put(eb) != tb) x.fail(std::string(P::Name) + ": " + ref::show(vb) + " read otherwise where " + ref::show(va) + " was"); } x.outcome(ta.substr(0, 60)); }
PART("same-payload") { size_t n = x.choose(x.thorough ? 300 : 80), k = x.choose(3), at = x.choose(3); x.go(); if (n == 0) throw mc::Prune{}; std::string s = fill(n, 1); const size_t i = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; // a string, key or blob changed in place between two calls
    auto go = [&] { x.op(); typename P::RootSerializer rs; typename P::Serializer w(rs); if (k == 0) w.string(s); else if (k == 1) w.binary(as_bytes(s)); else { w.begin_map(1); w.key(s); w.uint64(1); w.end_map(); } return copy_of(rs.finish()); };
    auto fresh = [&](const std::string& t) { const std::string u = t + "!"; return encode<P>(k == 0 ? str(t) : k == 1 ? blob(t) : map({{t, u64(1)}})); };
    for (char ch : {'a', 'Z', 'a', '0'}) { s[i] = ch; if (go() != fresh(s)) x.fail(std::string(P::Name) + ": what is written is not the present contents of a " + (k == 0 ? "string" : k == 1 ? "blob" : "key") + " of " + std::to_string(n) + " bytes changed in place"); } x.outcome(std::to_string(n)); }
PART("exhausted") { // nor of one whose allocation failed, at whichever point
    const Val& v = x.pick(few()); size_t how = x.choose(MAKERS); x.go(); const Out ref = attempt([&] { return make(how, v); });
    for (long n = 1; n < 400; ++n) { mem::fail = n; bool hit = false; try { (void)make(how, other()); } catch (const std::bad_alloc&) {} catch (const std::exception&) {} hit = mem::fail == 0; mem::fail = 0; x.op(); const Out o = attempt([&] { return make(how, v); }); if (!(o == ref)) x.fail(name(how, v) + ": written as " + show(ref) + " and, after a failed allocation, as " + show(o)); if (!hit) break; } x.outcome(show(ref)); }
// ---- in a fresh process, at other addresses, as its first act -------------------------------------------------------------------
static std::vector<Val> small() { std::vector<Val> r; for (auto& v : leaves()) if (v.s.size() < 3000 && v.a.size() < 100) r.push_back(v); r.push_back(other()); return r; }
static std::string fresh_answer(size_t i, size_t how) { static const auto all = small(); const Val w = wrap(all[i], 4); const Out o = attempt([&] { return make(how, w); }); return o.err.empty() ? mc::hex(o.b, 1 << 20) + "|" + told(o.b) : o.err; }
PART("fresh-process") { static const auto all = small(); size_t i = x.choose(all.size()), how = x.choose(MAKERS); x.go(); const std::string want = fresh_answer(i, how); x.op();
    int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe"); const std::string a = std::to_string(i), b = std::to_string(how); const pid_t p = vfork(); if (p == 0) { dup2(fd[1], 1); close(fd[0]); execl("/proc/self/exe", "c25", "--fresh", a.c_str(), b.c_str(), nullptr); _exit(99); }
    close(fd[1]); std::string got; char buf[4096]; for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) got.append(buf, size_t(n)); close(fd[0]); int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) throw std::runtime_error("fresh process failed"); if (got != want) x.fail(name(how, all[i]) + ": another process answers " + got.substr(0, 150) + " instead of " + want.substr(0, 150)); x.outcome(want.substr(0, 80)); }
int main(int c, char** v) { if (c == 4 && !std::strcmp(v[1], "--fresh")) { const std::string s = fresh_answer(std::stoul(v[2]), std::stoul(v[3])); size_t o = 0; while (o < s.size()) { ssize_t n = write(1, s.data() + o, s.size() - o); if (n <= 0) return 1; o += size_t(n); } return 0; } return mc::run_main(c, v, "C25"); }
