// Stand-in for yyjson (not installed here), written from its documented API: an immutable document read from text, a
// mutable document written to text. Non-copying string constructors keep the caller's pointer, as the real ones do,
// so a dangling one is seen by AddressSanitizer. Live documents are counted.
#pragma once
#include <charconv>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#define YYJSON_VERSION_HEX 0x000C00
typedef uint32_t yyjson_read_flag; typedef uint32_t yyjson_write_flag;
static constexpr yyjson_read_flag YYJSON_READ_NOFLAG = 0; static constexpr yyjson_write_flag YYJSON_WRITE_NOFLAG = 0, YYJSON_WRITE_PRETTY = 1;
namespace yystand {
enum T : uint8_t { Null, False, True, U, I, R, S, A, O };
inline long& live_docs() { static long n = 0; return n; }
inline bool utf8(const char* s, size_t n) {
    const auto* p = reinterpret_cast<const unsigned char*>(s);
    for (size_t i = 0; i < n;) { unsigned c = p[i]; if (c < 0x80) { ++i; continue; } int k = c >= 0xf0 && c <= 0xf4 ? 3 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xc2 && c < 0xe0 ? 1 : -1; if (k < 0 || i + size_t(k) >= n) return false; uint32_t v = k == 3 ? c & 7 : k == 2 ? c & 15 : c & 31; for (int j = 1; j <= k; ++j) { if ((p[i + size_t(j)] & 0xc0) != 0x80) return false; v = v << 6 | (p[i + size_t(j)] & 63); } if ((k == 2 && v < 0x800) || (k == 3 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) return false; i += size_t(k) + 1; }
    return true;
}
inline bool num_text(double d, std::string& o) { if (!std::isfinite(d)) return false; char b[64]; auto r = std::to_chars(b, b + 64, d); std::string s(b, r.ptr); if (s.find_first_of(".e") == std::string::npos) s += ".0"; o += s; return true; }
inline bool str_text(const char* s, size_t n, std::string& o) { if (!utf8(s, n)) return false; o += '"'; for (size_t i = 0; i < n; ++i) { unsigned char c = (unsigned char)s[i]; switch (c) { case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; default: if (c < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04X", c); o += b; } else o += char(c); } } o += '"'; return true; }
inline char* give(const std::string& s, size_t* len) { char* p = static_cast<char*>(std::malloc(s.size() + 1)); if (!p) return nullptr; std::memcpy(p, s.data(), s.size()); p[s.size()] = 0; if (len) *len = s.size(); return p; }
template<class F> auto c_call(F&& f) -> decltype(f()) { try { return f(); } catch (const std::bad_alloc&) { return {}; } }   // the C library does not throw: a failed allocation gives null or false
} // namespace yystand
struct yyjson_val { yystand::T t = yystand::Null; uint64_t u = 0; double d = 0; std::string s; std::vector<std::unique_ptr<yyjson_val>> keys, kids; };
struct yyjson_doc { std::unique_ptr<yyjson_val> root; };
struct yyjson_obj_iter { size_t idx = 0; yyjson_val* obj = nullptr; };
struct yyjson_mut_val { yystand::T t = yystand::Null; uint64_t u = 0; double d = 0; const char* p = nullptr; size_t n = 0; std::string own; std::vector<yyjson_mut_val*> keys, kids; };
struct yyjson_mut_doc { std::vector<std::unique_ptr<yyjson_mut_val>> pool; yyjson_mut_val* root = nullptr; };
struct yyjson_alc; struct yyjson_read_err; struct yyjson_write_err;
namespace yystand {
struct Parser {
    const char* p; const char* e; bool ok = true;
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    std::unique_ptr<yyjson_val> bad() { ok = false; return nullptr; }
    bool lit(const char* w) { size_t n = std::strlen(w); if (size_t(e - p) < n || std::memcmp(p, w, n)) return false; p += n; return true; }
    bool hex4(uint32_t& v) { if (e - p < 4) return false; v = 0; for (int i = 0; i < 4; ++i) { char c = *p++; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return false; v = v << 4 | uint32_t(d); } return true; }
    bool str(std::string& o) {
        if (p >= e || *p != '"') return false; ++p; const char* start = p; (void)start;
        for (;;) { if (p >= e) return false; unsigned char c = (unsigned char)*p++; if (c == '"') break; if (c < 0x20) return false; if (c != '\\') { o += char(c); continue; }
            if (p >= e) return false; switch (*p++) { case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': { uint32_t v; if (!hex4(v)) return false; if (v >= 0xdc00 && v < 0xe000) return false; if (v >= 0xd800 && v < 0xdc00) { uint32_t w; if (!lit("\\u") || !hex4(w) || w < 0xdc00 || w >= 0xe000) return false; v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); } if (v < 0x80) o += char(v); else if (v < 0x800) { o += char(0xc0 | v >> 6); o += char(0x80 | (v & 63)); } else if (v < 0x10000) { o += char(0xe0 | v >> 12); o += char(0x80 | ((v >> 6) & 63)); o += char(0x80 | (v & 63)); } else { o += char(0xf0 | v >> 18); o += char(0x80 | ((v >> 12) & 63)); o += char(0x80 | ((v >> 6) & 63)); o += char(0x80 | (v & 63)); } break; }
                default: return false; } }
        return utf8(o.data(), o.size());
    }
    std::unique_ptr<yyjson_val> num() {
        const char* b = p; const bool neg = p < e && *p == '-'; if (neg) ++p; if (p >= e || *p < '0' || *p > '9') return bad(); if (*p == '0') ++p; else while (p < e && *p >= '0' && *p <= '9') ++p; const char* ie = p; bool real = false;
        if (p < e && *p == '.') { real = true; ++p; if (p >= e || *p < '0' || *p > '9') return bad(); while (p < e && *p >= '0' && *p <= '9') ++p; }
        if (p < e && (*p == 'e' || *p == 'E')) { real = true; ++p; if (p < e && (*p == '+' || *p == '-')) ++p; if (p >= e || *p < '0' || *p > '9') return bad(); while (p < e && *p >= '0' && *p <= '9') ++p; }
        auto v = std::make_unique<yyjson_val>(); if (p < e && ((*p >= '0' && *p <= '9') || *p == '.')) return bad();
        if (!real) { uint64_t m = 0; auto r = std::from_chars(b + neg, ie, m); if (r.ec == std::errc() && r.ptr == ie) { if (!neg) { v->t = U; v->u = m; return v; } if (m <= (1ull << 63)) { v->t = I; v->u = 0 - m; return v; } } }
        std::string tmp(b, p); v->t = R; v->d = std::strtod(tmp.c_str(), nullptr); if (!std::isfinite(v->d)) return bad(); return v;
    }
    std::unique_ptr<yyjson_val> val() {
        ws(); if (p >= e) return bad(); auto v = std::make_unique<yyjson_val>();
        if (*p == '{' || *p == '[') { const bool o = *p == '{'; ++p; v->t = o ? O : A; ws(); if (p < e && *p == (o ? '}' : ']')) { ++p; return v; }
            for (;;) { if (o) { ws(); auto k = std::make_unique<yyjson_val>(); k->t = S; if (!str(k->s)) return bad(); ws(); if (p >= e || *p++ != ':') return bad(); v->keys.push_back(std::move(k)); } auto c = val(); if (!ok) return nullptr; v->kids.push_back(std::move(c)); ws(); if (p >= e) return bad(); char t = *p++; if (t == ',') continue; if (t == (o ? '}' : ']')) return v; return bad(); } }
        if (*p == '"') { v->t = S; if (!str(v->s)) return bad(); return v; }
        if (lit("null")) return v; if (lit("true")) { v->t = True; return v; } if (lit("false")) { v->t = False; return v; }
        return num();
    }
};
inline bool put(const yyjson_val* v, std::string& o) { switch (v->t) { case Null: o += "null"; return true; case True: o += "true"; return true; case False: o += "false"; return true; case U: o += std::to_string(v->u); return true; case I: o += std::to_string(int64_t(v->u)); return true; case R: return num_text(v->d, o); case S: return str_text(v->s.data(), v->s.size(), o); default: break; }
    o += v->t == A ? '[' : '{'; for (size_t i = 0; i < v->kids.size(); ++i) { if (i) o += ','; if (v->t == O) { if (!str_text(v->keys[i]->s.data(), v->keys[i]->s.size(), o)) return false; o += ':'; } if (!put(v->kids[i].get(), o)) return false; } o += v->t == A ? ']' : '}'; return true; }
inline bool put(const yyjson_mut_val* v, std::string& o) { switch (v->t) { case Null: o += "null"; return true; case True: o += "true"; return true; case False: o += "false"; return true; case U: o += std::to_string(v->u); return true; case I: o += std::to_string(int64_t(v->u)); return true; case R: return num_text(v->d, o); case S: return str_text(v->p, v->n, o); default: break; }
    o += v->t == A ? '[' : '{'; for (size_t i = 0; i < v->kids.size(); ++i) { if (i) o += ','; if (v->t == O) { if (!str_text(v->keys[i]->p, v->keys[i]->n, o)) return false; o += ':'; } if (!put(v->kids[i], o)) return false; } o += v->t == A ? ']' : '}'; return true; }
inline yyjson_mut_val* mk(yyjson_mut_doc* d, T t) { return yystand::c_call([&]() -> yyjson_mut_val* { if (!d) return nullptr; d->pool.push_back(std::make_unique<yyjson_mut_val>()); d->pool.back()->t = t; return d->pool.back().get(); }); }
} // namespace yystand
inline yyjson_doc* yyjson_read(const char* s, size_t n, yyjson_read_flag) { return yystand::c_call([&]() -> yyjson_doc* { if (!s || !n) return nullptr; yystand::Parser p{s, s + n}; auto r = p.val(); if (!p.ok || !r) return nullptr; p.ws(); if (p.p != p.e) return nullptr; auto* d = new yyjson_doc{std::move(r)}; ++yystand::live_docs(); return d; }); }
inline yyjson_val* yyjson_doc_get_root(yyjson_doc* d) { return d ? d->root.get() : nullptr; }
inline void yyjson_doc_free(yyjson_doc* d) { if (d) { --yystand::live_docs(); delete d; } }
inline bool yyjson_is_null(yyjson_val* v) { return v && v->t == yystand::Null; }
inline bool yyjson_is_true(yyjson_val* v) { return v && v->t == yystand::True; }
inline bool yyjson_is_false(yyjson_val* v) { return v && v->t == yystand::False; }
inline bool yyjson_is_bool(yyjson_val* v) { return yyjson_is_true(v) || yyjson_is_false(v); }
inline bool yyjson_is_uint(yyjson_val* v) { return v && v->t == yystand::U; }
inline bool yyjson_is_sint(yyjson_val* v) { return v && v->t == yystand::I; }
inline bool yyjson_is_int(yyjson_val* v) { return yyjson_is_uint(v) || yyjson_is_sint(v); }
inline bool yyjson_is_real(yyjson_val* v) { return v && v->t == yystand::R; }
inline bool yyjson_is_num(yyjson_val* v) { return yyjson_is_int(v) || yyjson_is_real(v); }
inline bool yyjson_is_str(yyjson_val* v) { return v && v->t == yystand::S; }
inline bool yyjson_is_arr(yyjson_val* v) { return v && v->t == yystand::A; }
inline bool yyjson_is_obj(yyjson_val* v) { return v && v->t == yystand::O; }
inline bool yyjson_is_ctn(yyjson_val* v) { return yyjson_is_arr(v) || yyjson_is_obj(v); }
inline bool yyjson_get_bool(yyjson_val* v) { return yyjson_is_true(v); }
inline uint64_t yyjson_get_uint(yyjson_val* v) { return yyjson_is_int(v) ? v->u : 0; }
inline int64_t yyjson_get_sint(yyjson_val* v) { return yyjson_is_int(v) ? int64_t(v->u) : 0; }
inline int yyjson_get_int(yyjson_val* v) { return yyjson_is_int(v) ? int(v->u) : 0; }
inline double yyjson_get_real(yyjson_val* v) { return yyjson_is_real(v) ? v->d : 0.0; }
inline double yyjson_get_num(yyjson_val* v) { return yyjson_is_real(v) ? v->d : yyjson_is_uint(v) ? double(v->u) : yyjson_is_sint(v) ? double(int64_t(v->u)) : 0.0; }
inline const char* yyjson_get_str(yyjson_val* v) { return yyjson_is_str(v) ? v->s.c_str() : nullptr; }
inline size_t yyjson_get_len(yyjson_val* v) { return v ? (v->t == yystand::S ? v->s.size() : v->kids.size()) : 0; }
inline bool yyjson_equals_strn(yyjson_val* v, const char* s, size_t n) { return yyjson_is_str(v) && s && v->s.size() == n && !std::memcmp(v->s.data(), s, n); }
inline bool yyjson_equals_str(yyjson_val* v, const char* s) { return s && yyjson_equals_strn(v, s, std::strlen(s)); }
inline size_t yyjson_arr_size(yyjson_val* v) { return yyjson_is_arr(v) ? v->kids.size() : 0; }
inline yyjson_val* yyjson_arr_get(yyjson_val* v, size_t i) { return yyjson_is_arr(v) && i < v->kids.size() ? v->kids[i].get() : nullptr; }
inline size_t yyjson_obj_size(yyjson_val* v) { return yyjson_is_obj(v) ? v->kids.size() : 0; }
inline yyjson_val* yyjson_obj_getn(yyjson_val* v, const char* k, size_t n) { if (!yyjson_is_obj(v) || !k) return nullptr; for (size_t i = 0; i < v->kids.size(); ++i) if (v->keys[i]->s.size() == n && (n == 0 || !std::memcmp(v->keys[i]->s.data(), k, n))) return v->kids[i].get(); return nullptr; }
inline yyjson_val* yyjson_obj_get(yyjson_val* v, const char* k) { return k ? yyjson_obj_getn(v, k, std::strlen(k)) : nullptr; }
inline bool yyjson_obj_iter_init(yyjson_val* o, yyjson_obj_iter* it) { if (it) *it = {}; if (!yyjson_is_obj(o) || !it) return false; it->obj = o; return true; }
inline yyjson_obj_iter yyjson_obj_iter_with(yyjson_val* o) { yyjson_obj_iter it; yyjson_obj_iter_init(o, &it); return it; }
inline bool yyjson_obj_iter_has_next(yyjson_obj_iter* it) { return it && it->obj && it->idx < it->obj->kids.size(); }
inline yyjson_val* yyjson_obj_iter_next(yyjson_obj_iter* it) { return yyjson_obj_iter_has_next(it) ? it->obj->keys[it->idx++].get() : nullptr; }
inline char* yyjson_val_write(yyjson_val* v, yyjson_write_flag, size_t* len) { return yystand::c_call([&]() -> char* { std::string o; if (!v || !yystand::put(v, o)) { if (len) *len = 0; return nullptr; } return yystand::give(o, len); }); }
inline char* yyjson_write(yyjson_doc* d, yyjson_write_flag f, size_t* len) { return d ? yyjson_val_write(d->root.get(), f, len) : nullptr; }
inline yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc*) { return yystand::c_call([&]() -> yyjson_mut_doc* { auto* d = new yyjson_mut_doc; ++yystand::live_docs(); return d; }); }
inline void yyjson_mut_doc_free(yyjson_mut_doc* d) { if (d) { --yystand::live_docs(); delete d; } }
inline void yyjson_mut_doc_set_root(yyjson_mut_doc* d, yyjson_mut_val* v) { if (d) d->root = v; }
inline yyjson_mut_val* yyjson_mut_null(yyjson_mut_doc* d) { return yystand::mk(d, yystand::Null); }
inline yyjson_mut_val* yyjson_mut_bool(yyjson_mut_doc* d, bool b) { return yystand::mk(d, b ? yystand::True : yystand::False); }
inline yyjson_mut_val* yyjson_mut_true(yyjson_mut_doc* d) { return yyjson_mut_bool(d, true); }
inline yyjson_mut_val* yyjson_mut_false(yyjson_mut_doc* d) { return yyjson_mut_bool(d, false); }
inline yyjson_mut_val* yyjson_mut_sint(yyjson_mut_doc* d, int64_t i) { auto* v = yystand::mk(d, yystand::I); if (v) v->u = uint64_t(i); return v; }
inline yyjson_mut_val* yyjson_mut_int(yyjson_mut_doc* d, int64_t i) { return yyjson_mut_sint(d, i); }
inline yyjson_mut_val* yyjson_mut_uint(yyjson_mut_doc* d, uint64_t u) { auto* v = yystand::mk(d, yystand::U); if (v) v->u = u; return v; }
inline yyjson_mut_val* yyjson_mut_real(yyjson_mut_doc* d, double r) { auto* v = yystand::mk(d, yystand::R); if (v) v->d = r; return v; }
inline yyjson_mut_val* yyjson_mut_double(yyjson_mut_doc* d, double r) { return yyjson_mut_real(d, r); }
inline yyjson_mut_val* yyjson_mut_float(yyjson_mut_doc* d, float r) { return yyjson_mut_real(d, double(r)); }
inline yyjson_mut_val* yyjson_mut_strn(yyjson_mut_doc* d, const char* s, size_t n) { if (!s) return nullptr; auto* v = yystand::mk(d, yystand::S); if (v) { v->p = s; v->n = n; } return v; }
inline yyjson_mut_val* yyjson_mut_str(yyjson_mut_doc* d, const char* s) { return s ? yyjson_mut_strn(d, s, std::strlen(s)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_strncpy(yyjson_mut_doc* d, const char* s, size_t n) { return yystand::c_call([&]() -> yyjson_mut_val* { if (!s) return nullptr; auto* v = yystand::mk(d, yystand::S); if (v) { v->own.assign(s, n); v->p = v->own.data(); v->n = n; } return v; }); }
inline yyjson_mut_val* yyjson_mut_strcpy(yyjson_mut_doc* d, const char* s) { return s ? yyjson_mut_strncpy(d, s, std::strlen(s)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_arr(yyjson_mut_doc* d) { return yystand::mk(d, yystand::A); }
inline yyjson_mut_val* yyjson_mut_obj(yyjson_mut_doc* d) { return yystand::mk(d, yystand::O); }
inline bool yyjson_mut_arr_add_val(yyjson_mut_val* a, yyjson_mut_val* v) { return yystand::c_call([&]() -> bool { if (!a || !v || a->t != yystand::A) return false; a->kids.push_back(v); return true; }); }
inline bool yyjson_mut_arr_append(yyjson_mut_val* a, yyjson_mut_val* v) { return yyjson_mut_arr_add_val(a, v); }
inline bool yyjson_mut_obj_add(yyjson_mut_val* o, yyjson_mut_val* k, yyjson_mut_val* v) { return yystand::c_call([&]() -> bool { if (!o || !k || !v || o->t != yystand::O || k->t != yystand::S) return false; o->kids.reserve(o->kids.size() + 1); o->keys.push_back(k); o->kids.push_back(v); return true; }); }
inline bool yyjson_mut_obj_add_val(yyjson_mut_doc* d, yyjson_mut_val* o, const char* k, yyjson_mut_val* v) { return yyjson_mut_obj_add(o, yyjson_mut_str(d, k), v); }
inline char* yyjson_mut_write(const yyjson_mut_doc* d, yyjson_write_flag, size_t* len) { return yystand::c_call([&]() -> char* { std::string o; if (!d || !d->root || !yystand::put(d->root, o)) { if (len) *len = 0; return nullptr; } return yystand::give(o, len); }); }
