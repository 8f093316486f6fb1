// Independent CBOR reference (from RFC 8949): an encoder that can choose any well-formed form for each item, and a
// bounds-checked structural decoder used as the oracle for hostile bytes.
#pragma once
#include "val.hpp"
#include <optional>
#include <zerialize/protocols/cbor.hpp>

namespace ref { template<> inline Mode mode_of<z::CBOR>() { return {true, 1, true}; } }
namespace cb {
using ref::Val; using Out = std::vector<uint8_t>;
inline void be(Out& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o.push_back(uint8_t(v >> (8 * i))); }
inline uint64_t rd(std::span<const uint8_t> b, size_t p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = (v << 8) | b[p + size_t(i)]; return v; }
// IEEE 754 binary16 -> binary64 bits by exact integer arithmetic (NaN: any NaN)
inline uint64_t half_bits(uint16_t h) {
    const uint64_t s = uint64_t(h >> 15) << 63; const int e = (h >> 10) & 31; uint64_t f = h & 1023;
    if (e == 31) return s | 0x7ff0000000000000ull | (f << 42);
    if (e) return s | (uint64_t(e - 15 + 1023) << 52) | (f << 42);
    if (!f) return s;
    int x = -14; while (!(f & 1024)) { f <<= 1; --x; }
    return s | (uint64_t(x + 1023) << 52) | ((f & 1023) << 42);
}
inline std::optional<uint16_t> to_half(uint64_t d) { static const std::map<uint64_t, uint16_t> m = [] { std::map<uint64_t, uint16_t> r; for (unsigned h = 0; h < 65536; ++h) if (((h >> 10) & 31) != 31 || !(h & 1023)) r[half_bits(uint16_t(h))] = uint16_t(h); return r; }(); auto i = m.find(d); if (i == m.end()) return {}; return i->second; }

template<class Ch> int pickform(std::initializer_list<bool> ok, Ch&& choose) { std::vector<int> f; int j = 0; for (bool b : ok) { if (b) f.push_back(j); ++j; } return f[choose(f.size())]; }
// widths: 0 immediate, 1/2/4/8 bytes
template<class Ch> void head(Out& o, int major, uint64_t v, Ch&& choose) { const uint8_t m = uint8_t(major << 5); switch (pickform({v < 24, v < 256, v < 65536, v <= 0xffffffffu, true}, choose)) { case 0: o.push_back(uint8_t(m | v)); break; case 1: o.push_back(m | 24); be(o, v, 1); break; case 2: o.push_back(m | 25); be(o, v, 2); break; case 3: o.push_back(m | 26); be(o, v, 4); break; default: o.push_back(m | 27); be(o, v, 8); } }
// strings: definite, or indefinite as 0, 1, 2 or 3 chunks (possibly empty ones)
template<class Ch> void text(Out& o, int major, const std::string& s, Ch&& choose, bool chunks) {
    int f = pickform({true, chunks && s.empty(), chunks, chunks, chunks}, choose);
    if (f == 0) { head(o, major, s.size(), choose); o.insert(o.end(), s.begin(), s.end()); return; }
    o.push_back(uint8_t(major << 5 | 31)); std::vector<size_t> cut; if (f == 2) cut = {0, s.size()}; if (f == 3) cut = {0, s.size() / 2, s.size()}; if (f == 4) cut = {0, 0, s.size() ? 1u : 0u, s.size()};
    for (size_t j = 0; j + 1 < cut.size(); ++j) { size_t n = cut[j + 1] - cut[j]; head(o, major, n, choose); o.insert(o.end(), s.begin() + long(cut[j]), s.begin() + long(cut[j] + n)); }
    o.push_back(0xff);
}
// every well-formed form of each item; choose(n) picks one (0 = the shortest). chunks: allow indefinite strings
template<class Ch> void enc(const Val& v, Out& o, Ch&& choose, bool chunks) {
    using namespace ref;
    switch (v.k) {
        case Null: o.push_back(0xf6); return;
        case Bool: o.push_back(v.b ? 0xf5 : 0xf4); return;
        case Int: if (v.i < 0) head(o, 1, uint64_t(-1 - v.i), choose); else head(o, 0, uint64_t(v.i), choose); return;
        case UInt: head(o, 0, v.u, choose); return;
        case Dbl: { const double d = std::bit_cast<double>(v.d); bool f32 = false; uint32_t fb = 0; if (!std::isnan(d) && (std::isinf(d) || std::fabs(d) <= 3.4028234663852886e38)) { float f = float(d); f32 = std::bit_cast<uint64_t>(double(f)) == v.d; fb = std::bit_cast<uint32_t>(f); } auto h = to_half(v.d);
            int f = pickform({true, f32, h.has_value()}, choose); if (f == 0) { o.push_back(0xfb); be(o, v.d, 8); } else if (f == 1) { o.push_back(0xfa); be(o, fb, 4); } else { o.push_back(0xf9); be(o, *h, 2); } return; }
        case Str: text(o, 3, v.s, choose, chunks); return;
        case Blob: text(o, 2, v.s, choose, chunks); return;
        case Arr: case Map: { const bool m = v.k == Map; const bool ind = choose(2) == 1; if (ind) o.push_back(m ? 0xbf : 0x9f); else head(o, m ? 5 : 4, v.a.size(), choose);
            for (size_t j = 0; j < v.a.size(); ++j) { if (m) text(o, 3, v.keys[j], choose, chunks); enc(v.a[j], o, choose, chunks); } if (ind) o.push_back(0xff); return; }
    }
}
// ---- structural decoding of arbitrary bytes
enum Kd { Bad, U, N, BS, TS, A, M, Tag, F16, F32, F64, Boolean, Nil, Simple, Break };
struct Item { Kd k = Bad; bool head = false, indef = false; uint64_t v = 0; size_t body = 0; bool whole = false; std::string data; size_t end = 0; }; // whole: scalar/string payload present; data: joined string bytes; end: end of scalar/string
inline Item item(std::span<const uint8_t> b, size_t p) {
    Item t; if (p >= b.size()) return t; const uint8_t m = b[p]; const int maj = m >> 5, ad = m & 31; const size_t left = b.size() - p - 1;
    static const Kd K[] = {U, N, BS, TS, A, M, Tag};
    if (maj == 7) {
        int n = ad == 25 ? 2 : ad == 26 ? 4 : ad == 27 ? 8 : ad == 24 ? 1 : 0; if (ad >= 28 && ad <= 30) return t; t.k = ad == 31 ? Break : ad == 25 ? F16 : ad == 26 ? F32 : ad == 27 ? F64 : ad == 20 || ad == 21 ? Boolean : ad == 22 ? Nil : Simple;
        t.body = p + 1; t.head = t.whole = left >= size_t(n); if (t.whole) { t.v = n ? rd(b, p + 1, n) : uint64_t(ad); t.end = p + 1 + size_t(n); } return t;
    }
    t.k = K[maj]; int n = ad < 24 ? 0 : ad == 24 ? 1 : ad == 25 ? 2 : ad == 26 ? 4 : ad == 27 ? 8 : -1;
    if (n < 0) { if (ad == 31 && maj >= 2 && maj <= 5) { t.indef = t.head = true; t.body = p + 1; } else { t.k = Bad; return t; } }
    else { t.head = left >= size_t(n); if (!t.head) return t; t.v = n ? rd(b, p + 1, n) : uint64_t(ad); t.body = p + 1 + size_t(n); }
    if (t.k == U || t.k == N) { t.whole = true; t.end = t.body; }
    if (t.k == BS || t.k == TS) {
        auto take = [&](size_t at, uint64_t len) { if (len > b.size() - at) return false; t.data.append(reinterpret_cast<const char*>(b.data()) + at, size_t(len)); return true; };
        if (!t.indef) { t.whole = take(t.body, t.v); t.end = t.body + (t.whole ? size_t(t.v) : 0); }
        else { size_t q = t.body; for (;;) { if (q >= b.size()) return t; if (b[q] == 0xff) { t.whole = true; t.end = q + 1; return t; } if ((b[q] >> 5) != maj || (b[q] & 31) == 31) return t; Item c = item(b, q); if (!c.whole || c.k != t.k) return t; t.data += c.data; q = c.end; } }
    }
    return t;
}
// end of the item at p if completely well-formed; odd: a tag, undefined or other simple value is involved
inline std::optional<size_t> skip(std::span<const uint8_t> b, size_t p, bool* odd = nullptr) {
    Item t = item(b, p); if (t.k == Bad || t.k == Break || !t.head) return {};
    if ((t.k == Tag || t.k == Simple) && odd) *odd = true;
    if (t.k == Tag) return skip(b, t.body, odd);
    if (t.k != A && t.k != M) { if (!t.whole) return {}; return t.end; }
    size_t q = t.body; const int per = t.k == M ? 2 : 1;
    for (uint64_t j = 0;; ++j) { if (t.indef) { if (q >= b.size()) return {}; if (b[q] == 0xff) return q + 1; } else if (j == t.v) return q; for (int s = 0; s < per; ++s) { auto e = skip(b, q, odd); if (!e) return {}; q = *e; } }
}
} // namespace cb
