#include "mpref.hpp"
#include "protos.hpp"
using namespace ref;
struct N { bool neg; uint64_t u; };   // mathematical value: neg ? int64(u) (<0) : u
template<class T> static bool fits(N n) { if (n.neg) return std::is_signed_v<T> && int64_t(n.u) >= int64_t(std::numeric_limits<T>::min()); return n.u <= uint64_t(std::numeric_limits<T>::max()); }
// must: the accessor has to succeed when the value fits; otherwise exact-or-raise
template<class T, class F> static void acc(mc::X& x, N n, bool must, const char* nm, F f) {
    x.op(); T got{}; bool threw = false; try { got = f(); } catch (const z::DeserializationError&) { threw = true; }
    const bool fit = fits<T>(n);
    if (threw) { if (must && fit) x.fail(std::string(nm) + " refused a value it can represent"); return; }
    if (!fit) x.fail(std::string(nm) + " returned a value although the stored one does not fit");
    if (uint64_t(int64_t(got)) != n.u && !(std::is_unsigned_v<T> && uint64_t(got) == n.u)) x.fail(std::string(nm) + " returned a different value");
    if (n.neg != (std::is_signed_v<T> && int64_t(got) < 0)) x.fail(std::string(nm) + " changed the sign");
}
template<class R> static void all8(mc::X& x, N n, bool smust, bool umust, const R& r) {
    acc<int8_t>(x, n, smust, "asInt8", [&]{ return r.asInt8(); }); acc<int16_t>(x, n, smust, "asInt16", [&]{ return r.asInt16(); }); acc<int32_t>(x, n, smust, "asInt32", [&]{ return r.asInt32(); }); acc<int64_t>(x, n, smust, "asInt64", [&]{ return r.asInt64(); });
    acc<uint8_t>(x, n, umust, "asUInt8", [&]{ return r.asUInt8(); }); acc<uint16_t>(x, n, umust, "asUInt16", [&]{ return r.asUInt16(); }); acc<uint32_t>(x, n, umust, "asUInt32", [&]{ return r.asUInt32(); }); acc<uint64_t>(x, n, umust, "asUInt64", [&]{ return r.asUInt64(); });
    if (r.isInt() && !fits<int64_t>(n)) x.fail("isInt for a value above INT64_MAX"); if (r.isUInt() && n.neg) x.fail("isUInt for a negative value");
    if (!r.isInt() && !r.isUInt()) x.fail("integer is neither isInt nor isUInt");
    if (!raises([&]{ (void)r.asDouble(); }) || !raises([&]{ (void)r.asFloat(); })) x.fail("a float accessor returned an integer");
}
static N num(const Val& v) { return v.k == Int ? N{v.i < 0, uint64_t(v.i)} : N{false, v.u}; }
template<class P> static void written(mc::X& x, const Val& v, size_t ctx) {
    const bool flex = !std::is_same_v<P, z::Zera> && !std::is_same_v<P, z::MsgPack>; const bool sm = v.k == Int || !flex, um = v.k == UInt || !flex;
    if (ctx == 0) { auto e = encode<P>(v); mc::Bytes b(e); typename P::Deserializer d(b.span()); all8(x, num(v), sm, um, d); }
    else if (ctx == 1) { auto e = encode<P>(arr({str("s"), v, u64(1)})); mc::Bytes b(e); typename P::Deserializer d(b.span()); all8(x, num(v), sm, um, d[size_t(1)]); }
    else { auto e = encode<P>(map({{"z", u64(UINT64_MAX)}, {"k", v}})); mc::Bytes b(e); typename P::Deserializer d(b.span()); all8(x, num(v), sm, um, d["k"]); }
}
static Val value(mc::X& x, size_t span) { // kind x (2^k + d), k = 0..64
    size_t kind = x.choose(3), k = x.choose(65); int64_t d = int64_t(x.choose(2 * span + 1)) - int64_t(span);
    uint64_t base = (k == 64 ? 0 : (uint64_t(1) << k)) + uint64_t(d); return kind == 0 ? u64(base) : i64(int64_t(kind == 1 ? base : 0 - base));
}
PART("powers") { Val v = value(x, x.thorough ? 40 : 4); size_t p = x.choose(NP), c = x.choose(3); x.go(); proto(p, [&]<class P> { written<P>(x, v, c); }); if (x.want_sample()) x.sample(show(v)); x.outcome(show(v)); }
PART("dense") { // every integer in [-66100, 66100] (quick: within 300 of each 8/16-bit limit)
    const size_t nblk = x.thorough ? 2066 : 26; size_t blk = x.choose(nblk); bool un = x.flip(); size_t p = x.choose(NP); x.go();
    static const int64_t starts[26] = {-65600,-65536,-32960,-32896,-32832,-32768,-32704,-320,-256,-192,-128,-64,0,64,128,192,256,32640,32704,32768,32832,65408,65472,65536,65600,32576};
    int64_t s = x.thorough ? -66100 + int64_t(blk) * 64 : starts[blk];
    for (int64_t n = s; n < s + 64; ++n) { if (un && n < 0) continue; Val v = un ? u64(uint64_t(n)) : i64(n); proto(p, [&]<class P> { written<P>(x, v, 0); }); } }
#ifndef ADAPTERS
PART("msgpack-every-width") { Val v = value(x, x.thorough ? 20 : 3); mp::Out o; mp::enc(v, o, [&](size_t n) { return x.choose(n); }); bool nested = x.flip(); x.go();
    if (!nested) { mc::Bytes b(o); z::MsgPack::Deserializer d(b.span()); all8(x, num(v), true, true, d); }
    else { mp::Out q{0x93, 0xa1, 'x'}; q.insert(q.end(), o.begin(), o.end()); q.push_back(0xc0); mc::Bytes b(q); z::MsgPack::Deserializer d(b.span()); all8(x, num(v), true, true, d[size_t(1)]); } }
static std::vector<uint8_t> zera_int(const Val& v) { // hand-built: header, root ValueRef16
    std::vector<uint8_t> o; auto le = [&](uint64_t q, int n) { for (int i = 0; i < n; ++i) o.push_back(uint8_t(q >> (8 * i))); };
    le(0x564E455A, 4); le(1, 2); le(1, 2); le(0, 4); le(16, 4); le(48, 4); const uint64_t u = v.k == Int ? uint64_t(v.i) : v.u;
    o.push_back(v.k == Int ? 2 : 8); o.push_back(0); le(0, 2); le(u & 0xffffffffu, 4); le(u >> 32, 4); le(0, 4); while (o.size() < 48) o.push_back(0); return o; }
PART("zera-wire") { Val v = value(x, x.thorough ? 20 : 3); x.go(); auto o = zera_int(v); mc::Bytes b(o); z::Zera::Deserializer d(b.span()); all8(x, num(v), true, true, d); }
PART("flex-wire") { // root, vector at each minimum width, indirect, typed and fixed typed vectors, map value
    Val v = value(x, x.thorough ? 10 : 2); size_t form = x.choose(9); x.go(); const bool s = v.k == Int; flexbuffers::Builder f; const int64_t i = v.i; const uint64_t u = v.u;
    auto put = [&] { if (s) f.Int(i); else f.UInt(u); };
    switch (form) { case 0: put(); break; case 1: case 2: case 3: case 4: { auto st = f.StartVector(); f.ForceMinimumBitWidth(flexbuffers::BitWidth(form - 1)); f.String("q"); put(); f.EndVector(st, false, false); break; }
        case 5: { auto st = f.StartVector(); f.String("q"); if (s) f.IndirectInt(i); else f.IndirectUInt(u); f.EndVector(st, false, false); break; }
        case 6: { auto st = f.StartVector(); if (s) { f.Int(0); f.Int(i); } else { f.UInt(0); f.UInt(u); } f.EndVector(st, true, false); break; }
        case 7: if (s) { int64_t q[3] = {1, i, 2}; f.FixedTypedVector(q, 3); } else { uint64_t q[3] = {1, u, 2}; f.FixedTypedVector(q, 3); } break;
        default: { auto st = f.StartMap(); f.Key("k"); put(); f.Key("w"); f.Double(1.5); f.EndMap(st); } }
    f.Finish(); auto bytes = f.GetBuffer(); mc::Bytes b(bytes); z::Flex::Deserializer d(b.span());
    if (form == 0) all8(x, num(v), s, !s, d); else if (form == 8) all8(x, num(v), s, !s, d["k"]); else all8(x, num(v), s, !s, d[size_t(1)]); }
#endif
int main(int c, char** v) { return mc::run_main(c, v, "C03"); }
