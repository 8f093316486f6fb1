#include "protos.hpp"
using namespace ref;
template<class P, class R> static void matrix(mc::X& x, const Val& v, const R& r, Mode m) {
    const bool both = text_blobs<P> && v.k == Blob;
    Cmp c{x, m, {}}; if (!both) c.preds(r, v.k, m.ints == 1 && v.k == Int && v.i < 0 ? 0 : m.ints);
    auto must = [&](bool right, const char* nm, auto f) { x.op(); bool t = raises(f); if (!right && !t) x.fail(std::string(nm) + " returned on a value of another kind (" + show(v) + ")"); };
    const bool isint = v.k == Int || v.k == UInt;
    must(v.k == Bool, "asBool", [&]{ (void)r.asBool(); });
    must(isint, "asInt8", [&]{ (void)r.asInt8(); }); must(isint, "asInt16", [&]{ (void)r.asInt16(); }); must(isint, "asInt32", [&]{ (void)r.asInt32(); }); must(isint, "asInt64", [&]{ (void)r.asInt64(); });
    must(isint, "asUInt8", [&]{ (void)r.asUInt8(); }); must(isint, "asUInt16", [&]{ (void)r.asUInt16(); }); must(isint, "asUInt32", [&]{ (void)r.asUInt32(); }); must(isint, "asUInt64", [&]{ (void)r.asUInt64(); });
    must(v.k == Dbl, "asDouble", [&]{ (void)r.asDouble(); }); must(v.k == Dbl, "asFloat", [&]{ (void)r.asFloat(); });
    must(v.k == Str, "asString", [&]{ (void)r.asString(); }); must(v.k == Str, "asStringView", [&]{ (void)r.asStringView(); });
    must(v.k == Blob, "asBlob", [&]{ (void)r.asBlob(); });
    must(v.k == Arr || both, "arraySize", [&]{ (void)r.arraySize(); });
    must(v.k == Map, "mapKeys", [&]{ for (auto k : r.mapKeys()) (void)k; });
    // indices outside, including ones whose byte offset would wrap
    const size_t n = v.k == Arr ? v.a.size() : both ? 3 : 0;
    for (size_t idx : {n, n + 1, n + 15, size_t(255), size_t(256), size_t(65536), size_t(INT32_MAX), size_t(1) << 31, size_t(UINT32_MAX), size_t(1) << 32, (size_t(1) << 32) + n / 2, size_t(1) << 59, size_t(1) << 60, (size_t(1) << 60) + n / 2, size_t(1) << 61, size_t(1) << 63, (size_t(1) << 63) + n / 2, SIZE_MAX / 16, SIZE_MAX - 1, SIZE_MAX})
        if (idx >= n) must(false, "operator[](index)", [&]{ (void)r[idx]; });
    if (v.k != Arr && !both) must(false, "operator[](0)", [&]{ (void)r[size_t(0)]; });
    // keys that are not there
    std::vector<std::string> probes = {"", "a", "k", "kk", "z", "zz", "missing", "0", std::string("k\0", 2), std::string(1, '\0'), "\xff", fill(300, 1), fill(65536, 2)};
    for (auto& k : v.keys) { probes.push_back(k + "x"); if (!k.empty()) probes.push_back(k.substr(0, k.size() - 1)); }
    if (v.k == Str) probes.push_back(v.s);
    for (auto& k : probes) {
        const bool there = v.k == Map && std::find(v.keys.begin(), v.keys.end(), k) != v.keys.end();
        if (!there) must(false, "operator[](key)", [&]{ (void)r[std::string_view(k)]; });
        x.op(); if (r.contains(k) != there) x.fail(there ? "contains() false for a stored key" : "contains() true for an absent key or a non-map");
    }
    compare(x, v, r, m);   // failed accesses have no side effects
}
template<class P> static void positions(mc::X& x, const Val& v, size_t pos) {
    const Mode m = mode_of<P>(); if (!storable<P>(v)) return;
    if (text_blobs<P> && v.k == Arr && v.a.size() == 3 && v.a[0] == str("~b")) return; // reads as a blob
    auto open = [&](const Val& doc, auto nav) { auto e = encode<P>(doc); mc::Bytes b(e); typename P::Deserializer d(b.span()); nav(d); };
    switch (pos) {
        case 0: open(v, [&](auto& d) { matrix<P>(x, v, d, m); }); break;
        case 1: open(arr({v}), [&](auto& d) { matrix<P>(x, v, d[size_t(0)], m); }); break;
        case 2: open(arr({i64(1), v, i64(2)}), [&](auto& d) { matrix<P>(x, v, d[size_t(1)], m); }); break;
        case 3: open(map({{"k", v}}), [&](auto& d) { matrix<P>(x, v, d["k"], m); }); break;
        case 4: open(map({{"zz", str("left")}, {"k", v}, {"a", str("right")}}), [&](auto& d) { matrix<P>(x, v, d["k"], m); }); break;
        case 5: open(map({{"k", arr({map({{"k", v}})})}}), [&](auto& d) { auto t = d["k"]; auto s = t[size_t(0)]; matrix<P>(x, v, s["k"], m); }); break;
        case 6: open(arr({map({{"zz", arr({v, v})}}), str("s")}), [&](auto& d) { auto t = d[size_t(0)]; auto s = t["zz"]; matrix<P>(x, v, s[size_t(1)], m); }); break;
        default: { auto e = encode<P>(arr({v})); typename P::Deserializer d(std::vector<uint8_t>(e.begin(), e.end())); matrix<P>(x, v, d[size_t(0)], m); }
    }
    if (x.want_sample()) x.sample(std::string(P::Name) + " pos" + std::to_string(pos) + " " + show(v));
    x.outcome(std::string(P::Name) + show(v));
}
static void go(mc::X& x, const Val& v) { size_t pos = x.choose(8), p = x.choose(NP); x.go(); proto(p, [&]<class P> { positions<P>(x, v, pos); }); }
PART("leaves") { go(x, x.pick(leaves())); }
PART("containers") { static const std::vector<Val> V = [] { std::vector<Val> v = { arr(), map() };
    for (auto& l : few()) { v.push_back(arr({l})); v.push_back(arr({l, l, l})); v.push_back(map({{"k", l}})); v.push_back(map({{"b", l}, {"", l}, {"a", l}})); }
    Val big; big.k = Arr; for (int j = 0; j < 40; ++j) big.a.push_back(i64(j)); v.push_back(big);
    Val bm; bm.k = Map; for (int j = 0; j < 40; ++j) { bm.keys.push_back("k" + std::to_string(j)); bm.a.push_back(i64(j)); } v.push_back(bm);
    v.push_back(arr({i64(int(1)), arr({u64(2), u64(3)}), blob(fill(48, 1))})); // the shape of a tensor
    v.push_back(arr({str("~b"), str("AAAA"), str("base64")}));                 // the shape of a JSON blob
    return v; }(); go(x, x.pick(V)); }
PART("ints") { size_t k = x.choose(64); size_t kind = x.choose(3); Val v = kind == 0 ? u64(uint64_t(1) << k) : i64(kind == 1 ? int64_t(uint64_t(1) << k) : int64_t(0 - (uint64_t(1) << k))); go(x, v); }
PART("lengths") { static const size_t L[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 255, 256, 257, 65535, 65536}; size_t n = L[x.choose(26)]; bool b = x.flip(); go(x, b ? blob(fill(n, 1)) : str(fill(n, 1))); }
PART("every-index") { // each index of arrays of length 0..20, inside and outside
    size_t n = x.choose(21), p = x.choose(NP); x.go(); Val v = arr(); for (size_t j = 0; j < n; ++j) v.a.push_back(j % 2 ? str(fill(j, 1)) : u64(j * 1000)); 
    auto run = [&]<class P> { auto e = encode<P>(map({{"v", v}})); mc::Bytes b(e); typename P::Deserializer d(b.span()); auto a = d["v"]; for (size_t j = 0; j < n + 10; ++j) { if (j < n) compare(x, v.a[j], a[j], mode_of<P>()); else { x.op(); x.check(raises([&]{ (void)a[j]; }), "index past the end accepted"); } } };
    proto(p, run); }
int main(int c, char** v) { return mc::run_main(c, v, "C04"); }
