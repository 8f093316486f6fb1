// C15: where the bytes handed out by a reader or a tensor view really are, and what the view says about it.
#include "tens.hpp"
namespace zx = z::xtensor; namespace ze = z::eigen;
using D = P::Deserializer;
constexpr int Dy = Eigen::Dynamic;
constexpr bool SPANS = PROTO != 3;     // JSON blobs are decoded text: never the document's own memory
using Reason = z::tensor::TensorViewReason;
#if PROTO != 3
// ---- strings, keys and blobs lie in the caller's bytes -----------------------------------------------------
template<class R> void inside(mc::X& x, const R& r, const mc::Bytes& by, int depth) {
    auto in = [&](const void* p, size_t n, const char* w) { x.op(); if (n && !by.holds(p, n)) x.fail(std::string(w) + " does not lie in the caller's bytes"); };
    if (r.isString()) { auto s = r.asStringView(); in(s.data(), s.size(), "a string"); auto t = r.asStringView(); if (t.size() && t.data() != s.data()) x.fail("two reads of a string give different addresses"); }
    else if (r.isBlob()) { auto b = r.asBlob(); in(b.data(), b.size(), "a blob"); if (PROTO == 0 && b.size() && (reinterpret_cast<const uint8_t*>(b.data()) - by.p) % 16) x.fail("a blob is not 16-byte aligned relative to the buffer"); }
    else if (r.isArray()) { for (size_t j = 0; j < r.arraySize(); ++j) inside(x, r[j], by, depth + 1); }
    else if (r.isMap()) for (std::string_view k : r.mapKeys()) { in(k.data(), k.size(), "a key"); inside(x, r[k], by, depth + 1); }
}
template<class D = ::D> void open_at(mc::X& x, const Val& v, size_t mis) { auto e = encode<P>(v); mc::Bytes by(e, mis); D r(by.span()); inside(x, r, by, 0); if constexpr (requires { D(by.p, by.n); }) { D q(by.p, by.n); inside(x, q, by, 0); } }
PART("leaves") { const Val& v = x.pick(leaves()); size_t c = x.choose(5), mis = x.choose(16); x.go(); Val d = c == 0 ? v : c == 1 ? ref::arr({ref::str("p"), v, v}) : c == 2 ? ref::map({{"k", v}, {fill(20), v}}) : c == 3 ? ref::arr({ref::map({{"k", ref::arr({v})}}), ref::blob("x"), v}) : ref::map({{"a", ref::str(fill(3))}, {"b", ref::map({{"q", v}})}, {fill(13, 4), v}}); open_at(x, d, mis); }
PART("runs") { // string, blob, string, blob of all small lengths: every relative alignment
    size_t a = x.choose(x.thorough ? 40 : 34), b = x.choose(x.thorough ? 40 : 34), c = x.choose(6); static const size_t C[] = {0, 1, 7, 12, 13, 16}; x.go(); Val d = ref::arr({ref::str(fill(a)), ref::blob(fill(b)), ref::str(fill(C[c])), ref::blob(fill(a + 1)), ref::map({{fill(a + 1, 2), ref::blob(fill(5))}, {fill(b + 2, 3), ref::str(fill(b))}, {"z", ref::blob(fill(33))}})}); open_at(x, d, 0); open_at(x, d, 5); x.outcome(std::to_string(a) + "," + std::to_string(b)); if (x.want_sample()) x.sample("string " + std::to_string(a) + ", blob " + std::to_string(b)); }
PART("trees") { int b = x.thorough ? 5 : 4; Val v = tree(x, few(), b, 3); x.go(); open_at(x, v, 0); open_at(x, v, 11); }
PART("large") { static const size_t L[] = {255, 256, 257, 4095, 4096, 65535, 65536, 65537, 200000}; size_t l = L[x.choose(9)], k = x.choose(3), mis = x.choose(4); x.go(); Val v = ref::arr({ref::str(fill(k * 5 + 9)), k == 0 ? ref::str(fill(l)) : k == 1 ? ref::blob(fill(l)) : ref::map({{fill(l), ref::blob(fill(40))}}), ref::blob(fill(17))}); if (k == 2 && l > 65535) throw mc::Prune{}; open_at(x, v, mis * 5); }
#endif
// ---- tensor views -----------------------------------------------------------------------------------------------
template<class T> std::string payload(size_t n) { std::string s(n * sizeof(T), 0); for (size_t j = 0; j < n; ++j) { T e = elem<T>(j); std::memcpy(&s[j * sizeof(T)], static_cast<const void*>(&e), sizeof(T)); } return s; }
static Val tensor_val(int code, const Shape& s, const std::string& bytes) { std::vector<Val> d; for (auto n : s) d.push_back(ref::u64(n)); return ref::arr({ref::i64(code), ref::arr(d), ref::blob(bytes)}); }
// address of the elements as the view exposes them
template<class T> const void* where(const zx::XTensorView<T>& v) { auto t = v.tensor(); return &*t.data(); }
template<class T, int R, int C, int O> const void* where(const ze::EigenMatrixView<T, R, C, O>& v) { return v.map().data(); }
template<class T> std::string read_all(const zx::XTensorView<T>& v) { auto a = v.array(); std::string s(a.size() * sizeof(T), 0); if (a.size()) std::memcpy(s.data(), static_cast<const void*>(a.data()), s.size()); return s; }
template<class T, int R, int C, int O> std::string read_all(const ze::EigenMatrixView<T, R, C, O>& v) { auto a = v.matrix(); std::string s(size_t(a.size()) * sizeof(T), 0); if (a.size()) std::memcpy(s.data(), static_cast<const void*>(a.data()), s.size()); return s; }
template<class V> std::string exposed(const V& v, size_t n) { return n ? std::string(static_cast<const char*>(where(v)), n) : std::string(); }
struct Doc { std::unique_ptr<mc::Bytes> by; std::string bytes; const void* blob = nullptr; size_t align = 1; };
static Doc doc(int code, const Shape& s, const std::string& bytes, size_t pre, size_t mis) { Doc d; d.bytes = bytes; auto e = encode<P>(ref::arr({ref::str(fill(pre)), tensor_val(code, s, bytes), ref::str("post")})); d.by = std::make_unique<mc::Bytes>(e, mis); D r(d.by->span());
    if constexpr (SPANS) { auto b = r[size_t(1)][size_t(2)].asBlob(); d.blob = b.data(); } return d; }
template<class V> void truthful(mc::X& x, const V& v, const Doc& d, size_t al) {
    const auto& i = v.viewInfo(); const size_t n = d.bytes.size(); x.op(6);
    if (i.required_alignment != al) x.fail("required alignment is not that of the element type");
    if (i.byte_size != n) x.fail("reported byte size differs");
    if (read_all(v) != d.bytes || exposed(v, n) != d.bytes) x.fail("elements differ");
    if (n == 0) { if (i.zero_copy != (i.reason == Reason::Ok)) x.fail("reason does not match zero_copy"); return; }
    const void* w = where(v); const bool own = d.by->holds(w, n);
    if (reinterpret_cast<uintptr_t>(w) % al) x.fail("elements exposed at a misaligned address");
    if (i.zero_copy != own) x.fail(i.zero_copy ? "zero-copy reported but the elements are elsewhere" : "copy reported but the elements are the document's");
    if constexpr (SPANS) {
        const bool can = reinterpret_cast<uintptr_t>(d.blob) % al == 0;
        if (i.zero_copy != can) x.fail(can ? "an aligned payload was copied" : "a misaligned payload was reported as zero-copy");
        if (own && w != d.blob) x.fail("the view exposes another part of the document");
        if (i.address != reinterpret_cast<uintptr_t>(d.blob)) x.fail("reported address is not the payload's");
        if (i.reason != (can ? Reason::Ok : Reason::Misaligned)) x.fail("reported reason is wrong");
    } else if (i.zero_copy || i.reason != Reason::NotSpanBacked) x.fail("reported reason is wrong for decoded text");
}
template<class V> void lifetime(mc::X& x, V v, Doc& d, size_t al) { // v was made from d: overwrite, then release the document
    const size_t n = d.bytes.size(); if (!n) return; const bool zc = v.viewInfo().zero_copy; std::string flipped = d.bytes; for (auto& c : flipped) c = char(~c);
    V copy = v; V moved = std::move(v); if (exposed(copy, n) != d.bytes || exposed(moved, n) != d.bytes) x.fail("copied or moved view exposes other elements"); if (!zc && where(copy) == where(moved)) x.fail("two owning views share their copy");
    if (!zc) { if (d.by->holds(where(copy), n)) x.fail("a copy lies in the document"); }
    else if (where(copy) != d.blob || where(moved) != d.blob) x.fail("a copied zero-copy view no longer exposes the document");
    x.op(4);
    if constexpr (SPANS) { for (size_t j = 0; j < n; ++j) { auto* p = const_cast<uint8_t*>(static_cast<const uint8_t*>(d.blob)) + j; *p = uint8_t(~*p); } }
    if (exposed(copy, n) != (zc ? flipped : d.bytes)) x.fail(zc ? "zero-copy view does not show the document" : "copy changed with the document");
    if (!zc) { d.by.reset(); if (exposed(copy, n) != d.bytes || exposed(moved, n) != d.bytes || read_all(copy) != d.bytes) x.fail("copy lost with the document"); V again = copy; copy = moved; if (exposed(again, n) != d.bytes || exposed(copy, n) != d.bytes) x.fail("assigned copy differs"); }
    else { copy = moved; if (read_all(copy) != flipped) x.fail("zero-copy view does not show the document"); }
}
template<class T, class Make> void both(mc::X& x, int code, const Shape& s, size_t pre, size_t mis, Make mk) { auto bytes = payload<T>(::count(s)); { Doc d = doc(code, s, bytes, pre, mis); D r(d.by->span()); auto v = mk(r[size_t(1)]); truthful(x, v, d, alignof(T)); auto c = v; truthful(x, c, d, alignof(T)); auto m = std::move(v); truthful(x, m, d, alignof(T)); } Doc d = doc(code, s, bytes, pre, mis); std::optional<decltype(mk(std::declval<D&>()[size_t(1)]))> v; { D r(d.by->span()); v.emplace(mk(r[size_t(1)])); } if (SPANS || v) lifetime(x, std::move(*v), d, alignof(T));
    if (PROTO == 0 && mis == 0 && ::count(s)) { Doc q = doc(code, s, bytes, pre, 0); D r(q.by->span()); if (!mk(r[size_t(1)]).viewInfo().zero_copy) x.fail("a Zera tensor in an aligned buffer was copied"); } }
static const std::vector<Shape>& some() { static const std::vector<Shape> S = { {}, {1}, {3}, {5}, {2, 3}, {2, 2, 2}, {0}, {0, 3}, {16, 5} }; return S; }
template<class F> void atypes(size_t k, F&& f) { switch (k) { case 0: f(uint8_t{}, 4); break; case 1: f(int16_t{}, 1); break; case 2: f(float{}, 10); break; case 3: f(double{}, 11); break; default: f(std::complex<float>{}, 12); } }
PART("xtensor-views") { size_t k = x.choose(5); const Shape& s = x.pick(some()); size_t pre = x.choose(x.thorough ? 34 : 20), mis = x.choose(x.thorough ? 16 : 8); x.go(); atypes(k, [&]<class T>(T, int code) { both<T>(x, code, s, pre, mis, [](const auto& r) { return zx::asXTensorView<T>(r); }); }); }
PART("eigen-views") { static const size_t S[][2] = {{1, 1}, {2, 3}, {3, 2}, {5, 1}, {0, 3}, {7, 4}}; size_t k = x.choose(3), s = x.choose(6), pre = x.choose(20), mis = x.choose(8); x.go(); auto go = [&]<class T>(T, int code) { both<T>(x, code, {S[s][0], S[s][1]}, pre, mis, [](const auto& r) { return ze::asEigenMatrixView<T, Dy, Dy>(r); }); if (s == 1) both<T>(x, code, {2, 3}, pre, mis, [](const auto& r) { return ze::asEigenMatrixView<T, 2, 3>(r); }); }; if (k == 0) go(uint8_t{}, 4); else if (k == 1) go(float{}, 10); else go(std::complex<double>{}, 13); }
PART("alignments") { // all buffer alignments x payload positions
    size_t k = x.choose(4), mis = x.choose(16), pre = x.choose(17); x.go(); atypes(k, [&]<class T>(T, int code) { both<T>(x, code, {2, 3}, pre, mis, [](const auto& r) { return zx::asXTensorView<T>(r); }); }); }
// ---- histories of view objects ----------------------------------------------------------------------------------
PART("histories") { // 2 documents (one aligned, one not), 3 view variables, every copy/move/assign/destroy history
    using T = double; using V = zx::XTensorView<T>; const size_t N = x.thorough ? 5 : 4; std::vector<size_t> ops; for (size_t j = 0; j < N; ++j) ops.push_back(x.choose(12)); x.go();
    Doc d[2]; for (size_t pre = 0; pre < 40 && (!d[0].by || !d[1].by); ++pre) { Doc q = doc(11, {3}, payload<T>(3), pre, 3); bool al = SPANS ? reinterpret_cast<uintptr_t>(q.blob) % 8 == 0 : pre % 2; if (!d[al].by) d[al] = std::move(q); } bool have[2] = {bool(d[0].by), bool(d[1].by)}; if (!have[0] && !have[1]) x.fail("no document"); if (!have[0]) d[0] = doc(11, {3}, payload<T>(3), 1, 3); if (!have[1]) d[1] = doc(11, {3}, payload<T>(3), 2, 3);
    std::optional<V> v[3]; int of[3] = {-1, -1, -1}; auto mk = [&](int i) { D r(d[i].by->span()); return zx::asXTensorView<T>(r[size_t(1)]); };
    auto chk = [&] { for (int j = 0; j < 3; ++j) if (of[j] >= 0) truthful(x, *v[j], d[of[j]], alignof(T)); };
    auto put = [&](int j, V w, int o) { if (v[j]) *v[j] = std::move(w); else v[j].emplace(std::move(w)); of[j] = o; };
    put(0, mk(0), 0); put(1, mk(1), 1); chk();
    for (size_t o : ops) { switch (o) {
        case 0: case 1: case 2: { int s = int(o), t = (s + 1) % 3; if (of[s] < 0) break; V c = *v[s]; put(t, std::move(c), of[s]); break; }
        case 3: case 4: case 5: { int s = int(o) - 3, t = (s + 2) % 3; if (of[s] < 0) break; if (v[t]) *v[t] = std::move(*v[s]); else v[t].emplace(std::move(*v[s])); of[t] = of[s]; of[s] = -1; break; }
        case 6: case 7: case 8: { int s = int(o) - 6, t = (s + 1) % 3; if (of[s] < 0) break; if (v[t]) *v[t] = *v[s]; else v[t].emplace(*v[s]); of[t] = of[s]; break; }
        case 9: v[0].reset(); of[0] = -1; break; case 10: put(2, mk(0), 0); break; default: if (of[1] >= 0) { V& self = *v[1]; *v[1] = self; } }
        chk(); }
}
int main(int c, char** v) { return mc::run_main(c, v, "C15"); }
