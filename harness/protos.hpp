// The protocols a harness ranges over: Zera, MsgPack and Flex, or, built with -DADAPTERS, the JSON and CBOR adapters.
#pragma once
#include "val.hpp"
namespace z = zerialize;
#ifdef ADAPTERS
#include <zerialize/protocols/json.hpp>
#include <zerialize/protocols/cbor.hpp>
namespace ref { template<> inline Mode mode_of<z::JSON>() { return {true, 1, false, false}; } template<> inline Mode mode_of<z::CBOR>() { return {true, 1, false}; } }
constexpr size_t NP = 2;
template<class F> void proto(size_t p, F&& f) { if (p == 0) f.template operator()<z::JSON>(); else f.template operator()<z::CBOR>(); }
// what text formats cannot store: strings and keys that are not UTF-8, and (JSON) numbers that are not finite
inline bool utf8(const std::string& s) { for (size_t i = 0; i < s.size();) { const unsigned char c = static_cast<unsigned char>(s[i]); const size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0; if (!n || i + n > s.size()) return false; for (size_t j = 1; j < n; ++j) if ((static_cast<unsigned char>(s[i + j]) & 0xc0) != 0x80) return false; if (n > 2) { const unsigned char d = static_cast<unsigned char>(s[i + 1]); if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f)) return false; } i += n; } return true; }
template<class P> bool storable(const ref::Val& v) { if (v.k == ref::Dbl && std::is_same_v<P, z::JSON>) return std::isfinite(std::bit_cast<double>(v.d)); if (v.k == ref::Str && !utf8(v.s)) return false; for (auto& k : v.keys) if (!utf8(k)) return false; for (auto& c : v.a) if (!storable<P>(c)) return false; return true; }
template<class P> constexpr bool text_blobs = std::is_same_v<P, z::JSON>;   // a JSON blob is also an array of three strings
#else
constexpr size_t NP = 3;
template<class F> void proto(size_t p, F&& f) { if (p == 0) f.template operator()<z::Zera>(); else if (p == 1) f.template operator()<z::MsgPack>(); else f.template operator()<z::Flex>(); }
template<class P> bool storable(const ref::Val&) { return true; }
template<class P> constexpr bool text_blobs = false;
#endif
