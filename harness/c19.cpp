// C19: Base64 both ways against the definition in RFC 4648, section 4.
#include "mc.hpp"
#include <zerialize/internals/base64.hpp>
namespace z = zerialize;
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string spec(const std::string& s) { // group by group, from the definition
    std::string o; for (size_t j = 0; j < s.size(); j += 3) { size_t k = std::min<size_t>(3, s.size() - j); unsigned g = 0; for (size_t t = 0; t < 3; ++t) g = g * 256 + (t < k ? (unsigned char)s[j + t] : 0); char c[4] = { AL[g / 262144], AL[g / 4096 % 64], AL[g / 64 % 64], AL[g % 64] }; for (size_t t = k + 1; t < 4; ++t) c[t] = '='; o.append(c, 4); } return o; }
static std::vector<std::byte> decode(const std::string& t) { mc::Bytes b({reinterpret_cast<const uint8_t*>(t.data()), t.size()}); return z::base64Decode(std::string_view(reinterpret_cast<const char*>(b.p), b.n)); }
static std::string encode(const std::string& s) { mc::Bytes b({reinterpret_cast<const uint8_t*>(s.data()), s.size()}); return z::base64Encode({reinterpret_cast<const std::byte*>(b.p), b.n}); }
static bool same(const std::vector<std::byte>& v, const std::string& s) { return v.size() == s.size() && (s.empty() || std::memcmp(v.data(), s.data(), s.size()) == 0); }
static void both(mc::X& x, const std::string& s) {
    x.op(2); std::string e = encode(s), w = spec(s);
    if (e != w) x.fail("encoding of " + mc::hex({reinterpret_cast<const uint8_t*>(s.data()), s.size()}) + " is " + e.substr(0, 40) + ", expected " + w.substr(0, 40));
    if (!same(decode(e), s)) x.fail("decoding " + e.substr(0, 40) + " does not give the encoded bytes back");
}
// fast path for the exhaustive three-byte sweep: no heap blocks
static void quick3(mc::X& x, const char* s, size_t n) { x.op(2); std::string in(s, n), e = z::base64Encode({reinterpret_cast<const std::byte*>(s), n}); if (e != spec(in)) x.fail("encoding of " + mc::hex({reinterpret_cast<const uint8_t*>(s), n}) + " is " + e); if (!same(z::base64Decode(e), in)) x.fail("decoding " + e); }
#ifndef SWEEP
PART("all-1-2") { size_t a = x.choose(257); x.go(); if (a == 256) { both(x, ""); return; } both(x, std::string(1, char(a))); for (int b = 0; b < 256; ++b) both(x, std::string{char(a), char(b)}); }
#endif
#ifdef SWEEP
PART("all-3") { size_t a = x.choose(256), q = x.choose(16); x.go(); char s[3] = {char(a), 0, 0}; for (int b = 0; b < 16; ++b) for (int c = 0; c < 256; ++c) { s[1] = char(q * 16 + b); s[2] = char(c); quick3(x, s, 3); } }
#else
PART("all-4-5") { // a group and a partial group: boundary byte values in every position
    static const unsigned char B[] = {0, 1, 3, 4, 15, 16, 63, 64, 127, 128, 191, 192, 252, 254, 255}; size_t n = 4 + x.choose(x.thorough ? 3 : 2); std::string s; for (size_t j = 0; j < n; ++j) s += char(B[x.choose(15)]); x.go(); both(x, s); }
PART("positions") { // every byte value at every position of every length to 48 (thorough 100), over three fillings
    size_t n = x.choose(x.thorough ? 100 : 48) + 1, p = x.choose(n), f = x.choose(3); x.go(); std::string s(n, f == 0 ? 0 : char(0xff)); if (f == 2) for (size_t j = 0; j < n; ++j) s[j] = char(j * 37 + 11); for (int v = 0; v < 256; ++v) { s[p] = char(v); both(x, s); } }
PART("lengths") { size_t n = x.choose(x.thorough ? 20000 : 3000); x.go(); std::string s(n, 0); for (size_t j = 0; j < n; ++j) s[j] = char(j * 151 + (j >> 7) * 31 + 5); both(x, s); std::string t(n, char(0xff)); both(x, t); both(x, std::string(n, 0)); x.outcome(std::to_string(n % 3)); if (x.want_sample()) x.sample("length " + std::to_string(n)); }
PART("large") { static const size_t N[] = {65535, 65536, 65537, 98303, 98304, 98305, 1 << 20, (1 << 20) + 1, (1 << 20) + 2, 5000001}; size_t n = N[x.choose(10)]; x.go(); std::string s(n, 0); for (size_t j = 0; j < n; ++j) s[j] = char(j * 151 + (j >> 7) * 31 + (j >> 15) + 5); both(x, s); }
// ---- decoding ---------------------------------------------------------------------------------------------------
static bool raises(const std::string& t, std::vector<std::byte>& out) { try { out = decode(t); } catch (const z::DeserializationError&) { return true; } return false; }
static bool letter(unsigned char c) { return c && std::strchr(AL, c); }
PART("foreign-characters") { // every character at every position of the text of every length to 12 bytes
    size_t n = x.choose(x.thorough ? 40 : 16) + 1; std::string s; for (size_t j = 0; j < n; ++j) s += char(j * 83 + 19); std::string e = spec(s); size_t p = x.choose(e.size()); x.go(); size_t pad = e.find('='); if (pad == std::string::npos) pad = e.size(); if (p >= pad) { for (int c = 0; c < 256; ++c) { std::string t = e; t[p] = char(c); std::vector<std::byte> o; (void)raises(t, o); x.op(); } return; }
    for (int c = 0; c < 256; ++c) { std::string t = e; t[p] = char(c); std::vector<std::byte> o; bool r = raises(t, o); x.op(); if (c == '=') continue; if (!letter(uint8_t(c))) { if (!r) x.fail("character " + std::to_string(c) + " at position " + std::to_string(p) + " of '" + e + "' was accepted"); continue; }
        if (r) x.fail("character " + std::to_string(c) + " was refused"); if (p + 1 < pad || pad % 4 == 0) { // no leftover bits are involved: the text denotes definite bytes
            std::string want; unsigned g = 0, b = 0; for (size_t j = 0; j < pad; ++j) { g = (g << 6 | unsigned(std::strchr(AL, t[j]) - AL)) & 0xffffff; b += 6; if (b >= 8) { b -= 8; want += char(g >> b); } } if (!same(o, want)) x.fail("'" + t + "' decodes to other bytes"); } } }
PART("inserted") { // a foreign character inserted anywhere before the padding, or appended to unpadded text
    size_t n = x.choose(10); std::string s; for (size_t j = 0; j < n; ++j) s += char(j * 53 + 101); std::string e = spec(s); size_t pad = e.find('='); if (pad == std::string::npos) pad = e.size(); size_t p = x.choose(pad + 1); x.go(); for (int c = 0; c < 256; ++c) { if (c == '=' || letter(uint8_t(c))) continue; std::string t = e; t.insert(p, 1, char(c)); std::vector<std::byte> o; x.op(); if (!raises(t, o)) x.fail("character " + std::to_string(c) + " inserted at " + std::to_string(p) + " of '" + e + "' was accepted"); } }
#endif
#ifdef SWEEP
PART("quads") { // every text of four alphabet characters is accepted and denotes three bytes
    size_t a = x.choose(64), b = x.choose(64); x.go(); std::string t(4, 0); t[0] = AL[a]; t[1] = AL[b]; for (size_t c = 0; c < 64; ++c) for (size_t d = 0; d < 64; ++d) { t[2] = AL[c]; t[3] = AL[d]; unsigned g = unsigned(a << 18 | b << 12 | c << 6 | d); x.op(); std::string w = {char(g >> 16), char(g >> 8), char(g)}; std::vector<std::byte> o; try { o = z::base64Decode(t); } catch (const z::DeserializationError&) { x.fail("'" + t + "' was refused"); } if (!same(o, w)) x.fail("'" + t + "' decodes to other bytes"); } }
#else
PART("short-texts") { // every text of <=3 characters over 20 symbols: terminates without touching other memory; foreign characters first are refused
    static const char S[] = {'A', 'B', 'Z', 'a', 'z', '0', '9', '+', '/', '=', ' ', '\n', '-', '_', '\0', '\x7f', '\x80', '\xff', '@', '['}; size_t n = x.choose(x.thorough ? 6 : 5); std::string t; for (size_t j = 0; j < n; ++j) t += S[x.choose(20)]; x.go(); std::vector<std::byte> o; bool r = raises(t, o); x.op(); size_t pad = t.find('='); bool bad = false; for (size_t j = 0; j < std::min(pad, t.size()); ++j) bad |= !letter(uint8_t(t[j])); if (bad && !r) x.fail("text with a foreign character before the padding was accepted"); if (t.empty() && (r || !o.empty())) x.fail("the empty text is not the empty sequence"); }
#endif
int main(int c, char** v) { return mc::run_main(c, v, "C19"); }
