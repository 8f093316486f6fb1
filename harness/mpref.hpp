// Independent MessagePack reference (from the MessagePack specification): an encoder that can choose any
// legal form for each item, and a bounds-checked structural decoder used as the oracle for hostile bytes.
#pragma once
#include "val.hpp"
#include <optional>

namespace mp {
using ref::Val;
using Out = std::vector<uint8_t>;
inline void be(Out& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o.push_back(uint8_t(v >> (8 * i))); }

// every legal form of each item; `choose(n)` picks one (0 = the shortest)
template<class Ch> void enc(const Val& v, Out& o, Ch&& choose) {
    using namespace ref;
    auto forms = [&](std::initializer_list<bool> ok) { std::vector<int> f; int j = 0; for (bool b : ok) { if (b) f.push_back(j); ++j; } return f[choose(f.size())]; };
    switch (v.k) {
        case Null: o.push_back(0xc0); return;
        case Bool: o.push_back(v.b ? 0xc3 : 0xc2); return;
        case Int: case UInt: {
            const bool neg = v.k == Int && v.i < 0; const uint64_t u = v.k == Int ? uint64_t(v.i) : v.u; const int64_t i = int64_t(u);
            const bool si = neg || u <= uint64_t(INT64_MAX);   // representable as int64
            auto fits = [&](int w) { return si && i >= -(int64_t(1) << (w - 1)) && i < (int64_t(1) << (w - 1)); };
            int f = forms({!neg && u < 128, neg && i >= -32, !neg && u < (1ull << 8), !neg && u < (1ull << 16), !neg && u < (1ull << 32), !neg, fits(8), fits(16), fits(32), si});
            switch (f) {
                case 0: case 1: o.push_back(uint8_t(u)); return;
                case 2: o.push_back(0xcc); be(o, u, 1); return; case 3: o.push_back(0xcd); be(o, u, 2); return; case 4: o.push_back(0xce); be(o, u, 4); return; case 5: o.push_back(0xcf); be(o, u, 8); return;
                case 6: o.push_back(0xd0); be(o, u, 1); return; case 7: o.push_back(0xd1); be(o, u, 2); return; case 8: o.push_back(0xd2); be(o, u, 4); return; default: o.push_back(0xd3); be(o, u, 8); return;
            } }
        case Dbl: {
            const double d = std::bit_cast<double>(v.d); bool f32 = false; uint32_t fb = 0;
            if (!std::isnan(d) && (std::isinf(d) || std::fabs(d) <= 3.4028234663852886e38)) { float f = float(d); f32 = std::bit_cast<uint64_t>(double(f)) == v.d; fb = std::bit_cast<uint32_t>(f); }
            if (forms({true, f32}) == 0) { o.push_back(0xcb); be(o, v.d, 8); } else { o.push_back(0xca); be(o, fb, 4); } return; }
        case Str: { size_t n = v.s.size(); int f = forms({n < 32, n < 256, n < 65536, true}); if (f == 0) o.push_back(uint8_t(0xa0 | n)); else if (f == 1) { o.push_back(0xd9); be(o, n, 1); } else if (f == 2) { o.push_back(0xda); be(o, n, 2); } else { o.push_back(0xdb); be(o, n, 4); } o.insert(o.end(), v.s.begin(), v.s.end()); return; }
        case Blob: { size_t n = v.s.size(); int f = forms({n < 256, n < 65536, true}); if (f == 0) { o.push_back(0xc4); be(o, n, 1); } else if (f == 1) { o.push_back(0xc5); be(o, n, 2); } else { o.push_back(0xc6); be(o, n, 4); } o.insert(o.end(), v.s.begin(), v.s.end()); return; }
        case Arr: case Map: {
            size_t n = v.a.size(); int f = forms({n < 16, n < 65536, true}); const bool m = v.k == Map;
            if (f == 0) o.push_back(uint8_t((m ? 0x80 : 0x90) | n)); else if (f == 1) { o.push_back(m ? 0xde : 0xdc); be(o, n, 2); } else { o.push_back(m ? 0xdf : 0xdd); be(o, n, 4); }
            for (size_t j = 0; j < n; ++j) { if (m) enc(ref::str(v.keys[j]), o, choose); enc(v.a[j], o, choose); }
            return; }
    }
}
inline Out enc_min(const Val& v) { Out o; enc(v, o, [](size_t) { return size_t(0); }); return o; }
inline Out enc_max(const Val& v) { Out o; enc(v, o, [](size_t n) { return n - 1; }); return o; }

// ---- structural decoding of arbitrary bytes -----------------------------------------------------------
enum Kd { Bad, Nil, Boolean, SInt, Un, FixPos, F32, F64, S, B, A, M, Ext };
struct Item { Kd k = Bad; bool head = false; size_t body = 0; uint64_t len = 0; bool whole = false; uint64_t bits = 0; size_t w = 0; }; // body: offset of payload; whole: header and scalar/str/bin payload present
inline uint64_t rd(std::span<const uint8_t> b, size_t p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = (v << 8) | b[p + size_t(i)]; return v; }
inline Item item(std::span<const uint8_t> b, size_t p) {
    Item t; if (p >= b.size()) return t;
    const uint8_t m = b[p]; const size_t left = b.size() - p - 1;
    auto scalar = [&](Kd k, int n) { t.k = k; t.w = size_t(n); t.body = p + 1; t.len = uint64_t(n); t.head = t.whole = left >= size_t(n); if (t.whole) t.bits = rd(b, p + 1, n); };
    auto sized = [&](Kd k, int n) { t.k = k; t.body = p + 1 + size_t(n); t.head = left >= size_t(n); if (t.head) { t.len = n ? rd(b, p + 1, n) : 0; } };
    auto data = [&] { t.whole = t.head && t.len <= b.size() - t.body; };
    if (m < 0x80) { scalar(FixPos, 0); t.bits = m; return t; }
    if (m >= 0xe0) { scalar(SInt, 0); t.bits = uint64_t(int64_t(int8_t(m))); return t; }
    if ((m & 0xf0) == 0x80) { sized(M, 0); t.len = m & 15; return t; }
    if ((m & 0xf0) == 0x90) { sized(A, 0); t.len = m & 15; return t; }
    if ((m & 0xe0) == 0xa0) { sized(S, 0); t.len = m & 31; data(); return t; }
    switch (m) {
        case 0xc0: scalar(Nil, 0); break; case 0xc2: case 0xc3: scalar(Boolean, 0); t.bits = m & 1; break;
        case 0xc4: sized(B, 1); data(); break; case 0xc5: sized(B, 2); data(); break; case 0xc6: sized(B, 4); data(); break;
        case 0xca: scalar(F32, 4); break; case 0xcb: scalar(F64, 8); break;
        case 0xcc: scalar(Un, 1); break; case 0xcd: scalar(Un, 2); break; case 0xce: scalar(Un, 4); break; case 0xcf: scalar(Un, 8); break;
        case 0xd0: scalar(SInt, 1); t.bits = uint64_t(int64_t(int8_t(t.bits))); break; case 0xd1: scalar(SInt, 2); t.bits = uint64_t(int64_t(int16_t(t.bits))); break; case 0xd2: scalar(SInt, 4); t.bits = uint64_t(int64_t(int32_t(t.bits))); break; case 0xd3: scalar(SInt, 8); break;
        case 0xd9: sized(S, 1); data(); break; case 0xda: sized(S, 2); data(); break; case 0xdb: sized(S, 4); data(); break;
        case 0xdc: sized(A, 2); break; case 0xdd: sized(A, 4); break; case 0xde: sized(M, 2); break; case 0xdf: sized(M, 4); break;
        case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: { t.k = Ext; size_t n = size_t(1) << (m - 0xd4); t.body = p + 2; t.len = n; t.head = left >= 1; data(); break; }
        case 0xc7: case 0xc8: case 0xc9: { int n = m == 0xc7 ? 1 : m == 0xc8 ? 2 : 4; t.k = Ext; t.head = left >= size_t(n) + 1; t.body = p + 2 + size_t(n); if (t.head) { t.len = rd(b, p + 1, n); data(); } break; }
        default: t.k = Bad; // 0xc1
    }
    return t;
}
// end of the item at p, if it is completely well-formed. `ext`: set if an extension item was involved.
inline std::optional<size_t> skip(std::span<const uint8_t> b, size_t p, bool* ext = nullptr) {
    uint64_t pending = 1;
    while (pending) {
        Item t = item(b, p); if (t.k == Bad || !t.head) return {};
        if (t.k == Ext && ext) *ext = true;
        --pending;
        if (t.k == A || t.k == M) { uint64_t c = t.k == A ? t.len : 2 * t.len; if (c > b.size()) return {}; pending += c; p = t.body; if (pending > b.size()) return {}; }
        else { if (!t.whole) return {}; p = t.body + size_t(t.len); }
    }
    return p;
}
} // namespace mp
