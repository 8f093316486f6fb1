// Stand-in for the part of jsoncons' CBOR encoder that zerialize/protocols/cbor.hpp calls, written from RFC 8949 and
// the documented jsoncons behaviour: shortest integer and length headers, single precision when exact, definite
// containers whose item count is enforced.
#pragma once
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
namespace jsoncons::cbor {
struct cbor_error : std::runtime_error { using std::runtime_error::runtime_error; };
class cbor_bytes_encoder {
    std::vector<uint8_t>& o_; struct F { bool map; uint64_t want, have; bool key; }; std::vector<F> st_;
    void be(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o_.push_back(uint8_t(v >> (8 * i))); }
    void head(int major, uint64_t v) { const uint8_t m = uint8_t(major << 5); if (v < 24) o_.push_back(uint8_t(m | v)); else if (v < 256) { o_.push_back(m | 24); be(v, 1); } else if (v < 65536) { o_.push_back(m | 25); be(v, 2); } else if (v <= 0xffffffffu) { o_.push_back(m | 26); be(v, 4); } else { o_.push_back(m | 27); be(v, 8); } }
    void item() { if (st_.empty()) return; F& f = st_.back(); if (f.map) { if (!f.key) throw cbor_error("value without key"); f.key = false; } if (f.have++ >= f.want) throw cbor_error("too many items"); }
public:
    explicit cbor_bytes_encoder(std::vector<uint8_t>& o) : o_(o) {}
    cbor_bytes_encoder(const cbor_bytes_encoder&) = delete; cbor_bytes_encoder& operator=(const cbor_bytes_encoder&) = delete;
    bool null_value() { item(); o_.push_back(0xf6); return true; }
    bool bool_value(bool b) { item(); o_.push_back(b ? 0xf5 : 0xf4); return true; }
    bool int64_value(int64_t v) { item(); if (v >= 0) head(0, uint64_t(v)); else head(1, uint64_t(-1 - v)); return true; }
    bool uint64_value(uint64_t v) { item(); head(0, v); return true; }
    bool double_value(double v) { item(); float f = float(v); if (double(f) == v) { uint32_t b; std::memcpy(&b, &f, 4); o_.push_back(0xfa); be(b, 4); } else { uint64_t b; std::memcpy(&b, &v, 8); o_.push_back(0xfb); be(b, 8); } return true; }
    bool string_value(std::string_view s) { item(); head(3, s.size()); o_.insert(o_.end(), s.begin(), s.end()); return true; }
    template<class B> bool byte_string_value(const B& b) { item(); head(2, b.size()); o_.insert(o_.end(), b.begin(), b.end()); return true; }
    bool begin_array(size_t n) { item(); head(4, n); st_.push_back({false, n, 0, false}); return true; }
    bool begin_object(size_t n) { item(); head(5, n); st_.push_back({true, n, 0, false}); return true; }
    bool end_array() { end(false); return true; }
    bool end_object() { end(true); return true; }
    bool key(std::string_view k) { if (st_.empty() || !st_.back().map || st_.back().key) throw cbor_error("key outside an object"); st_.back().key = true; head(3, k.size()); o_.insert(o_.end(), k.begin(), k.end()); return true; }
    void flush() {}
private:
    void end(bool map) { if (st_.empty() || st_.back().map != map || st_.back().key) throw cbor_error("mismatched end"); if (st_.back().have != st_.back().want) throw cbor_error("too few items"); st_.pop_back(); }
};
} // namespace jsoncons::cbor
