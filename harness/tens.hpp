// Tensor alphabets and bit-exact comparison.
#pragma once
#include "val.hpp"
#include <zerialize/dynamic.hpp>
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#include <xtensor/xview.hpp>
#include <xtensor/xstrided_view.hpp>
#include <xtensor/xfixed.hpp>
#include <xtensor/xmanipulation.hpp>
#include <complex>
#if PROTO == 3
#include <zerialize/protocols/json.hpp>
#elif PROTO == 4
#include <zerialize/protocols/cbor.hpp>
#endif
using namespace ref;
#if PROTO == 0
using P = z::Zera;
#elif PROTO == 1
using P = z::MsgPack;
#elif PROTO == 2
using P = z::Flex;
#elif PROTO == 3
using P = z::JSON;
#else
using P = z::CBOR;
#endif
using half = xtl::half_float;
// element j of a tensor: every bit of the representation varies with j
template<class T> T elem(size_t j) { T t; uint64_t h[2] = { (j + 1) * 0x9E3779B97F4A7C15ull, (j + 7) * 0xC2B2AE3D27D4EB4Full }; if (j % 5 == 3) h[0] = h[1] = ~0ull; if (j % 7 == 5) h[0] = h[1] = 0; h[0] ^= h[0] >> 31; std::memcpy(static_cast<void*>(&t), h, sizeof t); return t; }
template<class T> void copy_elem(T& d, const T& s) { std::memcpy(static_cast<void*>(&d), static_cast<const void*>(&s), sizeof(T)); }   // bit-exact (NaN payloads)
template<class T> bool same_bits(const T* a, const T* b, size_t n) { return n == 0 || std::memcmp(static_cast<const void*>(a), static_cast<const void*>(b), n * sizeof(T)) == 0; }
template<class F> void type_switch(size_t k, F&& f) {
#if PROTO >= 3   // the text and CBOR adapters: one element type of each width
    switch (k) { case 4: f(uint8_t{}); break; case 8: f(float{}); break; case 9: f(double{}); break; default: throw mc::Prune{}; } return;
#else
    switch (k) { case 0: f(int8_t{}); break; case 1: f(int16_t{}); break; case 2: f(int32_t{}); break; case 3: f(int64_t{}); break; case 4: f(uint8_t{}); break; case 5: f(uint16_t{}); break; case 6: f(uint32_t{}); break; case 7: f(uint64_t{}); break; case 8: f(float{}); break; case 9: f(double{}); break; case 10: f(std::complex<float>{}); break; case 11: f(std::complex<double>{}); break; default: f(half{}); }
#endif
}
static const size_t TYPES = 13;
static const int CODE[] = {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14};
static const size_t WIDTH[] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 8, 16, 2};
using Shape = std::vector<size_t>;
inline size_t count(const Shape& s) { size_t n = 1; for (size_t d : s) n *= d; return n; }
inline std::string show(const Shape& s) { std::string o = "("; for (size_t d : s) o += std::to_string(d) + ","; return o + ")"; }
template<class F> bool refuses(F&& f) { return raises(f); }
