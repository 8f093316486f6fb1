// A controlled allocator: every allocation made while armed is an event of the explored space, and the explorer
// decides which of them fails (one, one and a later one, or all from that one on).
#pragma once
#include <cerrno>
#include <cstdlib>
#include <new>
extern "C" { void* __interceptor_malloc(size_t); void* __interceptor_calloc(size_t, size_t); void* __interceptor_realloc(void*, size_t); void __interceptor_free(void*); size_t __sanitizer_get_current_allocated_bytes(); }
#define FLT_RAW __attribute__((no_sanitize("address", "undefined", "null")))
namespace flt {
inline bool armed = false, on = false; inline long seen = 0, at = -1, hit = 0; inline bool persist = false; inline long second = 0;
FLT_RAW inline bool refuse() { if (!armed) return false; const long k = seen++; const bool f = at >= 0 && (persist ? k >= at : k == at || (second && k == at + second)); if (f) ++hit; return f; }
inline void arm(long a, bool p, long s = 0) { seen = 0; at = a; persist = p; second = s; hit = 0; armed = true; }
inline void disarm() { armed = false; }
FLT_RAW inline void* take(size_t n) { if (refuse()) throw std::bad_alloc(); void* p = __interceptor_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
} // namespace flt
extern "C" FLT_RAW void* malloc(size_t n) { if (flt::refuse()) { errno = ENOMEM; return nullptr; } return __interceptor_malloc(n); }
extern "C" FLT_RAW void* calloc(size_t a, size_t b) { if (flt::refuse()) { errno = ENOMEM; return nullptr; } return __interceptor_calloc(a, b); }
extern "C" FLT_RAW void* realloc(void* p, size_t n) { if (flt::refuse()) { errno = ENOMEM; return nullptr; } return __interceptor_realloc(p, n); }
FLT_RAW void* operator new(size_t n) { return flt::take(n); }
FLT_RAW void* operator new[](size_t n) { return flt::take(n); }
FLT_RAW void operator delete(void* p) noexcept { __interceptor_free(p); }
FLT_RAW void operator delete[](void* p) noexcept { __interceptor_free(p); }
FLT_RAW void operator delete(void* p, size_t) noexcept { __interceptor_free(p); }
FLT_RAW void operator delete[](void* p, size_t) noexcept { __interceptor_free(p); }
FLT_RAW void* operator new(size_t n, const std::nothrow_t&) noexcept { return flt::refuse() ? nullptr : __interceptor_malloc(n ? n : 1); }
FLT_RAW void* operator new[](size_t n, const std::nothrow_t&) noexcept { return flt::refuse() ? nullptr : __interceptor_malloc(n ? n : 1); }
FLT_RAW void operator delete(void* p, const std::nothrow_t&) noexcept { __interceptor_free(p); }
FLT_RAW void operator delete[](void* p, const std::nothrow_t&) noexcept { __interceptor_free(p); }
