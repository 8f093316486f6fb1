// C14: whatever document is presented as a tensor, it is accepted only when it is one.
#include "tens.hpp"
namespace zx = z::xtensor; namespace ze = z::eigen;
using D = P::Deserializer;
constexpr int Dy = Eigen::Dynamic;
#ifdef MAPFORM   // the same documents, with the three pieces stored under their names
constexpr bool M = true;
#else
constexpr bool M = false;
#endif
enum Want { Refuse, Accept, Either };
struct Verdict { Want w = Refuse; std::vector<uint64_t> shape; std::string bytes; };
// The specification: what a document must be in order to be read as a tensor of element code `code`, width `w`.
static Verdict judge(const Val& given, int code, size_t w, int rank, int fr, int fc, bool matrix) {
    Verdict r; bool open = false; Val v = given;
    if (M) { v = ref::arr(); if (given.k != Map) return r; size_t pieces = 0; for (const char* k : {"dtype", "shape", "data"}) for (size_t j = 0; j < given.keys.size(); ++j) if (given.keys[j] == k) { v.a.push_back(given.a[j]); ++pieces; break; } if (pieces < 3) return r; }
    if (v.k != Arr || v.a.size() < 3) return r;
    if (v.a.size() > 3) open = true;                                   // extra elements: not claimed
    const Val &t = v.a[0], &s = v.a[1], &b = v.a[2];
    if (t.k == Int ? t.i != code : t.k == UInt ? t.u != uint64_t(code) : true) return r;
    if (t.k == UInt) open = true;                                      // an unsigned code: not claimed
    if (s.k != Arr || b.k != Blob) return r;
    unsigned __int128 n = w; bool zero = false, over = false;
    for (auto& d : s.a) {
        if (d.k == Int ? d.i < 0 : d.k != UInt) return r;
        uint64_t q = d.k == Int ? uint64_t(d.i) : d.u; if (q > 0xffffffffull) open = true;
        r.shape.push_back(q); if (q == 0) { zero = true; continue; } n *= q; if (n >> 63) over = true, n = (unsigned __int128)1 << 63;
    }
    if (zero) { if (over) open = true; n = 0; } else if (over) return r;
    if (n != b.s.size()) return r;
    if (rank >= 0 && r.shape.size() != size_t(rank)) return r;
    if (matrix) { if (r.shape.size() != 2) return r; if (fr >= 0 && r.shape[0] != uint64_t(fr)) return r; if (fc >= 0 && r.shape[1] != uint64_t(fc)) return r; }
    r.bytes = b.s; r.w = open ? Either : Accept; return r;
}
template<class A> std::vector<uint64_t> shp(const A& a) { std::vector<uint64_t> s; for (size_t j = 0; j < a.shape().size(); ++j) s.push_back(uint64_t(a.shape()[j])); return s; }
template<class F> void outcome(mc::X& x, const Verdict& v, const char* what, F&& f) { x.op(); bool t = refuses([&]{ f(); }); if (t && v.w == Accept) x.fail(std::string(what) + " refused a matching tensor"); if (!t && v.w == Refuse) x.fail(std::string(what) + " accepted a document that is not such a tensor"); }
// isTensor looks at the code and at the kinds of the pieces: it must hold for a tensor, and not for one of another code
template<class T, class R> void ask_is(mc::X& x, const Val& doc, const R& r, int code, const Verdict& v) {
    x.op(); bool yes = false; const bool t = refuses([&] { yes = z::isTensor<T, M>(r); }); if (v.w == Accept && (t || !yes)) x.fail("isTensor denies a matching tensor"); if (!yes) return;
    auto piece = [&](const char* k, size_t j) -> const Val* { if (!M) return doc.k == Arr && j < doc.a.size() ? &doc.a[j] : nullptr; if (doc.k == Map) for (size_t i = 0; i < doc.keys.size(); ++i) if (doc.keys[i] == k) return &doc.a[i]; return nullptr; };
    const Val *c = piece("dtype", 0), *s = piece("shape", 1), *b = piece("data", 2); auto is = [&](const Val* p, ref::K k) { return p && (p->k == k || (PROTO == 3 && (p->k == Arr || p->k == Blob))); }; // in JSON a blob is an array
    if (!c || !is(s, Arr) || !is(b, Blob) || (c->k == Int ? c->i != code : c->k != UInt || c->u != uint64_t(code))) x.fail("isTensor answers true for what is not a tensor of that type");
}
template<class T, int K, class R> void ask_x(mc::X& x, const Val& doc, const R& r, int code) {
    Verdict v = judge(doc, code, sizeof(T), K, -1, -1, false);
    ask_is<T>(x, doc, r, code, v);
    auto same = [&](const std::vector<uint64_t>& s, const void* p, size_t n) { if (s != v.shape) x.fail("accepted with another shape"); if (n * sizeof(T) != v.bytes.size() || (n && std::memcmp(p, v.bytes.data(), v.bytes.size()))) x.fail("accepted with other elements"); };
    outcome(x, v, "asXTensor", [&] { auto a = zx::asXTensor<T, K, M>(r); if (v.w == Refuse) return; same(shp(a), a.data(), a.size()); });
    outcome(x, v, "asXTensorView", [&] { auto a = zx::asXTensorView<T, K, M>(r); if (v.w == Refuse) return; if (shp(a) != v.shape) x.fail("view of another shape"); auto t = a.tensor(); same(shp(t), &*t.data(), t.size()); auto c = a.array(); same(shp(c), c.data(), c.size()); });
}
template<class T, int R0, int C0, class R> void ask_e(mc::X& x, const Val& doc, const R& r, int code) {
    Verdict v = judge(doc, code, sizeof(T), -1, R0, C0, true);
    ask_is<T>(x, doc, r, code, v);
    auto same = [&](const auto& m) { if (uint64_t(m.rows()) != v.shape[0] || uint64_t(m.cols()) != v.shape[1]) x.fail("accepted with other dimensions"); if (size_t(m.size()) * sizeof(T) != v.bytes.size() || (m.size() && std::memcmp(m.data(), v.bytes.data(), v.bytes.size()))) x.fail("accepted with other elements"); };
    outcome(x, v, "asEigenMatrix", [&] { auto a = ze::asEigenMatrix<T, R0, C0, M>(r); if (v.w == Refuse) return; same(a); });
    outcome(x, v, "asEigenMatrixView", [&] { auto a = ze::asEigenMatrixView<T, R0, C0, M>(r); if (v.w == Refuse) return; if (a.rows() != v.shape[0] || a.cols() != v.shape[1]) x.fail("view of other dimensions"); same(a.map()); same(a.matrix()); });
}
// 15 requests: element type x rank / fixed size
static const size_t REQ = 15;
static const int RCODE[REQ] = {4, 4, 1, 10, 10, 10, 10, 10, 13, 13, 10, 10, 10, 4, 11};
static const size_t RW[REQ] = {1, 1, 2, 4, 4, 4, 4, 4, 16, 16, 4, 4, 4, 1, 8};
template<class R> void request(mc::X& x, size_t q, const Val& d, const R& r) {
    switch (q) {
        case 0: return ask_x<uint8_t, -1>(x, d, r, 4); case 1: return ask_x<uint8_t, 2>(x, d, r, 4); case 2: return ask_x<int16_t, -1>(x, d, r, 1);
        case 3: return ask_x<float, -1>(x, d, r, 10); case 4: return ask_x<float, 0>(x, d, r, 10); case 5: return ask_x<float, 1>(x, d, r, 10); case 6: return ask_x<float, 2>(x, d, r, 10); case 7: return ask_x<float, 3>(x, d, r, 10);
        case 8: return ask_x<std::complex<double>, -1>(x, d, r, 13); case 9: return ask_x<std::complex<double>, 1>(x, d, r, 13);
        case 10: return ask_e<float, Dy, Dy>(x, d, r, 10); case 11: return ask_e<float, 2, 3>(x, d, r, 10); case 12: return ask_e<float, Dy, 3>(x, d, r, 10); case 13: return ask_e<uint8_t, Dy, Dy>(x, d, r, 4); default: return ask_e<double, 2, Dy>(x, d, r, 11);
    }
}
// the map form of a triple; `order` picks one of the six orders of its keys and where further entries go
static Val named(const Val& t, size_t order) {
    if (t.k != Arr) return t; static const char* const K[] = {"dtype", "shape", "data"}; static const size_t O[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; Val m = ref::map();
    auto add = [&](std::string k, const Val& v) { m.keys.push_back(std::move(k)); m.a.push_back(v); };
    if (t.a.size() > 3 && order % 2) for (size_t j = 3; j < t.a.size(); ++j) add("dtyp" + std::to_string(j), t.a[j]);
    for (size_t j : O[order % 6]) if (j < t.a.size()) add(K[j], t.a[j]);
    if (t.a.size() > 3 && order % 2 == 0) for (size_t j = 3; j < t.a.size(); ++j) add("shape" + std::to_string(j), t.a[j]);
    return m; }
static void present(mc::X& x, size_t q, const Val& given, bool emb) {
    size_t order = q + emb; for (auto& e : given.a) order += e.s.size() * 3 + e.a.size() + size_t(e.k); // every part meets several orders
    const Val d = M ? named(given, order % 6) : given;
    if (emb) { auto b = z::serialize<P>(ref::arr({ref::str("pre"), ref::map({{"t", d}, {"u", ref::i64(1)}})})); mc::Bytes by(b.buf()); D r(by.span()); request(x, q, d, r[size_t(1)]["t"]); }
    else { auto b = z::serialize<P>(d); mc::Bytes by(b.buf()); D r(by.span()); request(x, q, d, r); }
}
static Val dim(uint64_t n, bool u) { return u ? ref::u64(n) : ref::i64(int64_t(n)); }
static Val shape_val(const Shape& s, bool u = true) { std::vector<Val> v; for (auto d : s) v.push_back(dim(d, u)); return ref::arr(v); }
// ---- well-formed shapes against every payload length near what is needed ------------------------------------
PART("lengths") {
    size_t q = x.choose(REQ), rank = x.choose(x.thorough ? 5 : 4); Shape s; for (size_t j = 0; j < rank; ++j) s.push_back(x.choose(rank > 2 && !x.thorough ? 3 : 4)); bool u = x.flip(), emb = x.flip(); x.go(); size_t n = ::count(s) * RW[q];
    std::set<size_t> L; for (int d = -9; d <= 9; ++d) if (int(n) + d >= 0) L.insert(n + d); for (size_t w : {1, 2, 4, 8, 16}) { L.insert(::count(s) * w); L.insert(n + w); } L.insert(0); L.insert(2 * n); L.insert(n / 2);
    for (size_t l : L) present(x, q, ref::arr({ref::i64(RCODE[q]), shape_val(s, u), ref::blob(fill(l, 3))}), emb);
    x.outcome(std::to_string(q) + ::show(s)); if (x.want_sample()) x.sample("request " + std::to_string(q) + " shape " + ::show(s) + " x " + std::to_string(L.size()) + " payload lengths");
}
// ---- element type codes ----------------------------------------------------------------------------------------
PART("codes") {
    size_t q = x.choose(REQ), c = x.choose(64); size_t sh = x.choose(3), l = x.choose(5); bool emb = x.flip(); x.go();
    const int k = RCODE[q]; std::vector<Val> C; for (int j = -2; j <= 16; ++j) C.push_back(ref::i64(j)); for (int64_t b : {8, 16, 32}) { C.push_back(ref::i64(k + (int64_t(1) << b))); C.push_back(ref::i64(k - (int64_t(1) << b))); C.push_back(ref::i64(k | (int64_t(1) << b << 8))); } C.push_back(ref::i64(k + (int64_t(1) << 40))); C.push_back(ref::i64(127)); C.push_back(ref::i64(128)); C.push_back(ref::i64(-128)); C.push_back(ref::i64(INT64_MIN + k)); C.push_back(ref::i64(INT64_MAX)); C.push_back(ref::i64(-k));
    for (uint64_t u : {uint64_t(k), uint64_t(k) + 256, uint64_t(k) + 65536, (uint64_t(1) << 32) + k, (uint64_t(1) << 63) + k}) C.push_back(ref::u64(u)); C.push_back(ref::dbl(k)); C.push_back(ref::str(std::to_string(k))); C.push_back(ref::str("float")); C.push_back(ref::boolean(true)); C.push_back(ref::null()); C.push_back(ref::arr({ref::i64(k)})); C.push_back(ref::blob(std::string(1, char(k)))); C.push_back(ref::map({{"k", ref::i64(k)}}));
    if (c >= C.size()) throw mc::Prune{};
    static const std::vector<Shape> S = { {2, 3}, {0, 3}, {2} }; static const size_t W[] = {1, 2, 4, 8, 16};
    present(x, q, ref::arr({C[c], shape_val(S[sh]), ref::blob(fill(::count(S[sh]) * W[l]))}), emb);
}
// ---- hostile dimensions: every position of every list of <=3 (4) dimensions ------------------------------------
static const std::vector<Val>& dims() { static const std::vector<Val> V = { ref::i64(2), ref::u64(3), ref::i64(0), ref::i64(1), ref::i64(-1), ref::i64(-2), ref::i64(INT64_MIN), ref::u64(0xffffffffull), ref::i64(0xffffffffll), ref::u64(1ull << 32), ref::i64(1ll << 32), ref::i64(1ll << 31), ref::i64((1ll << 32) + 2), ref::u64((1ull << 32) + 3), ref::u64(1ull << 31), ref::u64(UINT64_MAX), ref::u64(UINT64_MAX - 1), ref::u64((1ull << 63) + 2), ref::i64(INT64_MAX), ref::dbl(2.0), ref::dbl(2.5), ref::str("2"), ref::boolean(true), ref::null(), ref::arr({ref::i64(2)}), ref::blob(std::string(1, '\2')), ref::map({{"d", ref::i64(2)}}) }; return V; }
static const std::vector<size_t>& payloads() { static const std::vector<size_t> L = {0, 1, 2, 4, 6, 8, 12, 16, 24, 32, 48, 96}; return L; }
PART("dimensions") { size_t q = x.choose(REQ), n = x.choose(x.thorough ? 4 : 3); std::vector<Val> s; for (size_t j = 0; j < n; ++j) s.push_back(dims()[x.choose(dims().size())]); x.go(); for (size_t l : payloads()) present(x, q, ref::arr({ref::i64(RCODE[q]), ref::arr(s), ref::blob(fill(l))}), false); }
PART("dimensions-embedded") { size_t q = x.choose(REQ), p = x.choose(3), h = x.choose(dims().size()); x.go(); std::vector<Val> s(3, ref::u64(2)); s[p] = dims()[h]; for (size_t l : payloads()) present(x, q, ref::arr({ref::i64(RCODE[q]), ref::arr(s), ref::blob(fill(l))}), true); }
// ---- products that wrap around to a small number -----------------------------------------------------------------
PART("wrapping") {
    // 2^64+4 = 4*(2^62+1), 2^62+1 = 5*5581*8681*49477*384773, 2^64+32 = 32*3*2833*37171*1824726041
    static const std::vector<Shape> S = {
        {1u << 31, 1u << 31, 4}, {1u << 31, 1u << 31, 2}, {1u << 31, 1u << 31}, {1u << 31, 1u << 30}, {1u << 30, 1u << 30, 16}, {1u << 30, 1u << 30}, {65536, 65536, 65536, 65536}, {65536, 65536, 65536, 16384}, {65536, 65536, 65536, 8192}, {65536, 65536, 65536, 4096}, {1u << 31, 2}, {1u << 30, 4}, {1u << 28, 16}, {65536, 65536}, {65536, 16384}, {65536, 65536, 1}, {1u << 29, 8}, {1u << 31, 2, 1}, {65536, 32768, 2},
        {4, 5 * 5581u, 8681u * 49477u, 384773}, {20 * 5581u, 8681u * 49477u, 384773}, {5 * 5581u * 8681u, 49477, 384773}, {5581u * 384773u, 5u * 8681u * 49477u}, {5581u * 384773u, 5u * 8681u * 49477u, 2}, {5581u * 384773u, 5u * 8681u * 49477u, 4}, {5 * 5581u * 8681u, 49477, 384773, 2}, {32 * 3 * 2833, 37171, 1824726041}, {3 * 2833, 37171, 1824726041}, {2 * 3 * 2833, 37171, 1824726041}, {4 * 3 * 2833, 37171, 1824726041}, {8 * 3 * 2833, 37171, 1824726041}, {16 * 3 * 2833, 37171, 1824726041}, {3 * 2833u, 37171, 1824726041, 2},
        {0xffffffffu, 0xffffffffu}, {0xffffffffu, 0xffffffffu, 0xffffffffu}, {0xffffffffu, 1}, {0xffffffffu, 0}, {0, 0xffffffffu}, {0, 0xffffffffu, 0xffffffffu}, {0xffffffffu, 0xffffffffu, 0}, {0xffffffffu, 0xffffffffu, 0xffffffffu, 0}, {0, 0xffffffffu, 0xffffffffu, 0xffffffffu}, {1u << 31, 0, 1u << 31, 1u << 31}, {1u << 16, 1u << 16, 1u << 16, 1u << 16, 0} };
    size_t q = x.choose(REQ); const Shape& s = S[x.choose(S.size())]; size_t l = x.choose(24); if (l > 20) l = l == 21 ? 32 : l == 22 ? 64 : 4096; x.go(); present(x, q, ref::arr({ref::i64(RCODE[q]), shape_val(s), ref::blob(fill(l))}), l % 2); }
// ---- documents of another build ------------------------------------------------------------------------------------
PART("kinds") { // every component replaced by values of every kind
    size_t q = x.choose(REQ), p = x.choose(3); const auto& L = leaves(); std::vector<Val> R(L.begin(), L.end()); R.push_back(ref::arr()); R.push_back(ref::map()); R.push_back(ref::arr({ref::i64(2), ref::i64(3)})); R.push_back(ref::map({{"0", ref::i64(2)}, {"1", ref::i64(3)}})); R.push_back(ref::str(fill(6 * RW[q]))); R.push_back(ref::blob(fill(6 * RW[q]))); R.push_back(ref::arr({ref::arr({ref::i64(2), ref::i64(3)})}));
    size_t c = x.choose(R.size()); bool emb = x.flip(); 
    if (PROTO == 3) for (unsigned char ch : R[c].s) if (R[c].k == Str && ch > 127) throw mc::Prune{};   // JSON strings are UTF-8
    if (PROTO == 3 && R[c].k == Dbl && ((R[c].d >> 52) & 0x7ff) == 0x7ff) throw mc::Prune{};          // JSON has no NaN or infinity
    x.go(); std::vector<Val> e = {ref::i64(RCODE[q]), shape_val({2, 3}), ref::blob(fill(6 * RW[q]))}; e[p] = R[c]; present(x, q, ref::arr(e), emb); }
PART("forms") { // arrays of other sizes and orders, maps, scalars, nested tensors
    size_t q = x.choose(REQ); bool emb = x.flip(); Val t = ref::i64(RCODE[q]), s = shape_val({2, 3}), b = ref::blob(fill(6 * RW[q])); Val whole = ref::arr({t, s, b});
    std::vector<Val> F = { whole, t, s, b, ref::arr(), ref::arr({t}), ref::arr({t, s}), ref::arr({t, b}), ref::arr({s, b}), ref::arr({b, s, t}), ref::arr({s, t, b}), ref::arr({t, b, s}), ref::arr({whole}), ref::arr({whole, whole, whole}), ref::arr({t, s, b, t}), ref::arr({t, s, b, b}), ref::arr({t, t, s, b}), ref::map({{"dtype", t}, {"shape", s}, {"data", b}}), ref::map({{"0", t}, {"1", s}, {"2", b}}), ref::map(), ref::null(), ref::str(fill(3)), ref::arr({t, ref::arr({s}), b}), ref::arr({t, s, ref::arr({b})}), ref::arr({t, s, ref::null()}), ref::arr({t, s, ref::str(b.s)}), ref::arr({t, ref::arr({ref::i64(6)}), b}), ref::arr({t, ref::arr({ref::i64(3), ref::i64(2)}), b}), ref::arr({t, ref::arr(), ref::blob(fill(RW[q]))}), ref::arr({t, ref::arr(), ref::blob("")}), ref::arr({t, ref::arr({ref::i64(0)}), ref::blob("")}) };
    size_t c = x.choose(F.size()); x.go(); present(x, q, F[c], emb); }
PART("triples") { // every array of <=4 elements over the pieces of a tensor
    size_t n = x.choose(5); size_t q = x.choose(4); static const size_t Q[] = {0, 3, 6, 10}; q = Q[q]; std::vector<Val> A = { ref::i64(RCODE[q]), ref::i64(0), shape_val({2, 3}), ref::arr(), ref::blob(fill(6 * RW[q])), ref::blob(fill(RW[q])), ref::map({{"a", ref::i64(1)}}), ref::null() }; std::vector<Val> e; for (size_t j = 0; j < n; ++j) e.push_back(A[x.choose(A.size())]); x.go(); present(x, q, ref::arr(e), false); }
#if PROTO != 2 && PROTO != 3 && !defined(MAPFORM)
// ---- every byte of a tensor document ------------------------------------------------------------------------------
template<class R> bool lift(const R& r, Val& v, int depth) { // read the document through the generic reader; false if any of it is refused
    if (depth > 4) return false;
    try {
        if (r.isArray()) { size_t n = r.arraySize(); if (n > 64) return false; v = ref::arr(); for (size_t j = 0; j < n; ++j) { Val c; if (!lift(r[j], c, depth + 1)) return false; v.a.push_back(c); } }
        else if (r.isBlob()) { auto b = r.asBlob(); v = ref::blob(std::string(reinterpret_cast<const char*>(std::data(b)), std::size(b))); }
        else if (r.isInt()) v = ref::i64(r.asInt64()); else if (r.isUInt()) v = ref::u64(r.asUInt64());
        else if (r.isFloat()) v = ref::dbl(r.asDouble()); else if (r.isBool()) v = ref::boolean(r.asBool()); else if (r.isString()) v = ref::str(std::string(r.asStringView())); else if (r.isMap()) v = ref::map(); else v = ref::null();
    } catch (const z::DeserializationError&) { return false; }
    return true;
}
PART("bytes") {
    static const size_t Q[] = {0, 3, 6, 10, 11, 8}; size_t q = Q[x.choose(6)]; auto enc = encode<P>(ref::arr({ref::i64(RCODE[q]), shape_val({2, 3}), ref::blob(fill(6 * RW[q]))})); size_t at = x.choose(enc.size()); if (at >= enc.size()) throw mc::Prune{}; x.go();
    for (unsigned v = 0; v < 256; ++v) { auto e = enc; e[at] = uint8_t(v); mc::Bytes by(e); bool opened = false; try { D r(by.span()); opened = true; Val d; if (lift(r, d, 0)) { if (d.k == Arr && !d.a.empty() && d.a[0].k == Int && r[size_t(0)].isUInt()) d.a.push_back(ref::null()); request(x, q, d, r); } else { (void)refuses([&]{ (void)zx::asXTensor<float>(r); }); (void)refuses([&]{ (void)zx::asXTensor<uint8_t>(r); }); (void)refuses([&]{ (void)ze::asEigenMatrix<float, Dy, Dy>(r); }); } } catch (const z::DeserializationError&) { if (opened) throw; } x.op(); }
}
#endif
#ifdef MAPFORM
// which keys are there, in which order, next to which others
PART("keys") { size_t q = x.choose(REQ), order = x.choose(6), drop = x.choose(4), near = x.choose(8), at = x.choose(4); bool emb = x.flip(); static const char* const N[] = {nullptr, "", "dtyp", "dtypes", "Shape", "dat", "data0", "shapes"}; if (!N[near] && at) throw mc::Prune{}; x.go();
    Val m = named(ref::arr({ref::i64(RCODE[q]), shape_val({2, 3}), ref::blob(fill(6 * RW[q]))}), order); std::vector<Val> piece = m.a;
    if (drop) { const char* k[] = {"", "dtype", "shape", "data"}; for (size_t j = 0; j < m.keys.size(); ++j) if (m.keys[j] == k[drop]) { m.keys.erase(m.keys.begin() + long(j)); m.a.erase(m.a.begin() + long(j)); break; } }
    if (N[near] && at <= m.keys.size()) { m.keys.insert(m.keys.begin() + long(at), N[near]); m.a.insert(m.a.begin() + long(at), at < 3 ? piece[at] : ref::null()); }
    present(x, q, m, emb); }
#endif
int main(int c, char** v) { return mc::run_main(c, v, "C14"); }
