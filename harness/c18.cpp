// C18: ownership histories of byte buffers against a ledger of every adopted pointer.
#include "mc.hpp"
#include <stdexcept>
#include <cstring>
#include <optional>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <zerialize/zbuffer.hpp>
namespace z = zerialize;
struct Entry { const void* p; size_t n; int released = 0; bool wrong = false; int owner = -1; std::shared_ptr<int> token; };   // one adopted pointer
struct Model { bool live = false; std::string bytes; const void* ptr = nullptr; int entry = -1; bool vec = true; bool known = true; };
static std::string fillb(size_t n, unsigned salt) { std::string s(n, 0); for (size_t j = 0; j < n; ++j) s[j] = char(j * 61 + salt * 97 + 13 + (j >> 8)); return s; }
// the bytes a dump shows: two-digit groups between the offset and the text column
static bool dump_shows(const std::string& d, const std::string& b) { std::string got; size_t at = 0; while (at < d.size()) { size_t e = d.find('\n', at); if (e == std::string::npos) e = d.size(); std::string line = d.substr(at, e - at); at = e + 1; size_t bar = line.find('|'); if (bar == std::string::npos) continue; std::string h = line.substr(0, bar); size_t q = h.find("  "); if (q == std::string::npos) return false; for (size_t j = q; j + 1 < h.size();) { if (h[j] == ' ') { ++j; continue; } got += char(std::strtol(h.substr(j, 2).c_str(), nullptr, 16)); j += 2; } } return got == b; }
static void look(mc::X& x, const z::ZBuffer& b, const std::string& w, const void* ptr, bool vec) {
    x.op(9); const auto s = b.buf();
    if (b.size() != w.size() || s.size() != w.size()) x.fail("reports " + std::to_string(b.size()) + " bytes, holds " + std::to_string(w.size()));
    if (b.empty() != w.empty()) x.fail("emptiness differs");
    if (s.data() != b.data()) x.fail("span and data pointer differ");
    if (!w.empty()) { if (!b.data() || std::memcmp(b.data(), w.data(), w.size())) x.fail("exposes other bytes"); if (ptr && b.data() != ptr) x.fail("exposes another pointer than the adopted one"); }
    auto c = b.to_vector_copy(); if (std::string(c.begin(), c.end()) != w) x.fail("copied bytes differ"); if (!c.empty() && c.data() == b.data()) x.fail("the copy is not independent");
    if (b.to_debug_string() != w) x.fail("debug string differs");
    if (w.size() < 300) { for (size_t r : {16, 1, 7, 0, 300}) { auto d = b.hexdump(r); if (!w.empty() && !dump_shows(d, w)) x.fail("dump does not show the bytes"); } }
    if (b.to_string().find(std::to_string(w.size())) == std::string::npos) x.fail("description omits the size");
}
struct World {
    mc::X& x; std::vector<std::unique_ptr<Entry>> led; std::optional<z::ZBuffer> b[3]; Model m[3]; unsigned salt = 0;
    explicit World(mc::X& x) : x(x) {}
    std::function<void(const void*)> note(Entry* e) { return [e, t = e->token](const void* p) { ++e->released; if (p != e->p) e->wrong = true; }; }
    Entry* adopt(const void* p, size_t n) { led.push_back(std::make_unique<Entry>()); auto* e = led.back().get(); e->p = p; e->n = n; e->token = std::make_shared<int>(0); return e; }
    static constexpr int KINDS = 12;
    // builds a buffer of the given kind; fills in what it must describe
    z::ZBuffer make(int k, Model& q) {
        q = Model(); q.live = true; ++salt; static const size_t N[] = {0, 5, 40, 7, 0, 9, 3, 17, 0, 6, 1, 33}; const size_t n = N[k]; q.bytes = fillb(n, salt); q.vec = k < 3;
        auto raw = [&](void* p) { if (n) std::memcpy(p, q.bytes.data(), n); q.ptr = p; };
        auto own = [&](void* p) { raw(p); auto* e = adopt(p, n); q.entry = int(led.size()) - 1; return e; };
        switch (k) {
            case 0: return z::ZBuffer();
            case 1: case 2: { std::vector<uint8_t> v(q.bytes.begin(), q.bytes.end()); q.ptr = v.data(); return z::ZBuffer(std::move(v)); }
            case 3: { auto* p = new uint8_t[n]; auto f = note(own(p)); return z::ZBuffer(p, n, std::function<void(uint8_t*)>([f](uint8_t* q) { f(q); delete[] q; })); }
            case 4: { auto* p = new uint8_t[8]; auto f = note(own(p)); return z::ZBuffer(p, 0, std::function<void(uint8_t*)>([f](uint8_t* q) { f(q); delete[] q; })); }           // adopted, but no bytes
            case 5: { auto* p = new char[n]; auto f = note(own(p)); return z::ZBuffer(p, n, std::function<void(char*)>([f](char* q) { f(q); delete[] q; })); }
            case 6: { void* p = std::malloc(n); auto f = note(own(p)); return z::ZBuffer(p, n, std::function<void(void*)>([f](void* q) { f(q); std::free(q); })); }
            case 7: { static uint8_t pool[16][64]; uint8_t* mem = pool[salt % 16]; auto f = note(own(mem)); return z::ZBuffer(mem, n, std::function<void(uint8_t*)>([f](uint8_t* q) { f(q); })); }                            // not the heap's
            case 8: q.vec = false; return z::ZBuffer(static_cast<uint8_t*>(nullptr), 0, std::function<void(uint8_t*)>(z::ZBuffer::Deleters::NoOp));
            case 9: { void* p = std::malloc(n); raw(p); return z::ZBuffer(p, n, z::ZBuffer::Deleters::Free); }
            case 10: { auto* p = new uint8_t[n]; raw(p); return z::ZBuffer(p, n, z::ZBuffer::Deleters::DeleteArray); }
            default: { void* p = std::malloc(n + 8); auto f = note(own(static_cast<char*>(p) + 8)); return z::ZBuffer(static_cast<char*>(p) + 8, n, std::function<void(char*)>([f](char* q) { f(q); std::free(q - 8); })); }  // released by an offset
        }
    }
    void settle() { // what must hold between any two operations
        std::vector<bool> held(led.size(), false);
        for (int j = 0; j < 3; ++j) { if (!b[j].has_value()) continue; if (m[j].entry >= 0) held[size_t(m[j].entry)] = true; if (m[j].known) look(x, *b[j], m[j].bytes, m[j].ptr, m[j].vec); }
        for (size_t j = 0; j < led.size(); ++j) { auto& e = *led[j]; x.op(); if (e.wrong) x.fail("released with another pointer"); if (held[j] && e.released) x.fail("released while a live buffer exposes it"); if (!held[j] && e.released != 1) x.fail(e.released ? "released twice" : "not released by its last owner's end"); if (!held[j] && e.token.use_count() != 1) x.fail("release function kept after its buffer"); }
    }
    void gone(int j) { m[j] = Model(); }                       // the slot holds a valid, empty buffer or none
    void finish() { for (auto& o : b) o.reset(); for (int j = 0; j < 3; ++j) m[j] = Model(); settle(); }
};
// operations: make kind k in slot i (over whatever is there), move-construct, move-assign, swap, destroy, through a vector, through a function
static void step(World& w, size_t op, int kinds) {
    const size_t nk = size_t(kinds);
    if (op < 3 * nk) { int i = int(op / nk), k = int(op % nk); Model q; z::ZBuffer n = w.make(k, q); if (w.b[i]) *w.b[i] = std::move(n); else w.b[i].emplace(std::move(n)); w.m[i] = q; w.b[i].has_value(); if (!n.empty() || n.size() || !n.to_vector_copy().empty()) w.x.fail("a moved-from buffer still reports bytes"); return; }
    op -= 3 * nk;
    static const int PR[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
    auto need = [&](int i) { return w.b[i].has_value(); };
    if (op < 6) { int s = PR[op][0], t = PR[op][1]; if (!need(s)) throw mc::Prune{}; if (w.b[t]) *w.b[t] = std::move(*w.b[s]); else w.b[t].emplace(std::move(*w.b[s])); w.m[t] = w.m[s]; w.gone(s); w.m[s].live = true; return; }
    op -= 6;
    if (op < 3) { int i = int(op); if (!need(i)) throw mc::Prune{}; w.b[i].reset(); w.gone(i); return; }
    op -= 3;
    if (op < 3) { int s = int(op), t = (s + 1) % 3; if (!need(s) || !need(t)) throw mc::Prune{}; std::swap(*w.b[s], *w.b[t]); std::swap(w.m[s], w.m[t]); return; }
    op -= 3;
    if (op == 0) { // collected in a growing vector and handed back
        std::vector<z::ZBuffer> v; std::vector<int> from; for (int j = 0; j < 3; ++j) if (w.b[j]) { v.push_back(std::move(*w.b[j])); from.push_back(j); if (w.b[j]->size() || !w.b[j]->empty()) w.x.fail("a moved-from buffer still reports bytes"); } v.emplace_back(); v.insert(v.begin(), z::ZBuffer(std::vector<uint8_t>{1, 2, 3})); v.erase(v.begin()); for (size_t j = 0; j < from.size(); ++j) *w.b[from[j]] = std::move(v[j]); return; }
    if (op == 1) { auto pass = [](z::ZBuffer q) { z::ZBuffer r = std::move(q); return r; }; for (int j = 0; j < 3; ++j) if (w.b[j]) { z::ZBuffer r = pass(std::move(*w.b[j])); *w.b[j] = std::move(r); } return; }
    // self-assignment: the content may be kept or dropped, but never released twice or leaked
    for (int j = 0; j < 3; ++j) if (w.b[j]) { auto& r = *w.b[j]; bool had = w.m[j].entry >= 0; r = std::move(*w.b[j]); if (had) { auto& e = *w.led[size_t(w.m[j].entry)]; if (e.released > 1) w.x.fail("released twice"); if (e.released == 1) { if (r.size()) w.x.fail("still exposes released bytes"); w.gone(j); } } if (w.m[j].known && !(r.size() == w.m[j].bytes.size())) { if (r.size()) w.x.fail("self-assignment changed the size"); w.gone(j); } }
}
static const size_t OTHER = 6 + 3 + 3 + 3;
static void history(mc::X& x, size_t n, int kinds) { size_t before = __sanitizer_get_current_allocated_bytes(); (void)before; std::vector<size_t> ops; for (size_t j = 0; j < n; ++j) ops.push_back(x.choose(3 * size_t(kinds) + OTHER)); x.go(); { World w(x); for (size_t o : ops) { step(w, o, kinds); w.settle(); } w.finish(); } std::string t; for (auto o : ops) t += std::to_string(o) + " "; if (x.want_sample()) x.sample("operations " + t); if (__sanitizer_get_current_allocated_bytes() > before + 100000) x.fail("memory leaked"); }
PART("histories-all-kinds") { history(x, x.thorough ? 4 : 3, World::KINDS); }
PART("histories-deep") { // fewer kinds, longer
    size_t n = x.thorough ? 6 : 5; std::vector<size_t> ops; static const int K[] = {1, 3, 6}; for (size_t j = 0; j < n; ++j) ops.push_back(x.choose(6 + 6 + 3 + 3 + 2)); x.go(); World w(x); for (size_t o : ops) { if (o < 6) { int i = int(o / 3), k = K[o % 3]; step(w, size_t(i * World::KINDS + k), World::KINDS); } else step(w, 3 * World::KINDS + (o - 6), World::KINDS); w.settle(); } w.finish(); }
// every single buffer must give back exactly the memory it took
PART("no-leak") { size_t k = x.choose(World::KINDS), op = x.choose(4); x.go(); auto once = [&] { World w(x); Model q; { z::ZBuffer a = w.make(int(k), q); if (op == 1) { z::ZBuffer c = std::move(a); look(x, c, q.bytes, q.ptr, q.vec); } else if (op == 2) { z::ZBuffer c; c = std::move(a); look(x, c, q.bytes, q.ptr, q.vec); } else if (op == 3) { Model r; z::ZBuffer c = w.make(3, r); c = std::move(a); look(x, c, q.bytes, q.ptr, q.vec); } else look(x, a, q.bytes, q.ptr, q.vec); } w.settle(); }; once(); size_t before = __sanitizer_get_current_allocated_bytes(); once(); size_t after = __sanitizer_get_current_allocated_bytes(); x.check(after == before, "memory is not given back"); }
PART("sizes") { size_t n = x.choose(300), k = x.choose(3); x.go(); std::string w = fillb(n, 3); if (k == 0) { z::ZBuffer b(std::vector<uint8_t>(w.begin(), w.end())); x.check(b.owned(), "a vector-backed buffer says it is not owned"); look(x, b, w, nullptr, true); } else { void* p = std::malloc(n + 1); std::memcpy(p, w.data(), n); z::ZBuffer b(p, n, z::ZBuffer::Deleters::Free); x.check(!b.owned(), "an adopted pointer says it is a vector"); look(x, b, w, p, false); z::ZBuffer c; c = std::move(b); look(x, c, w, p, false); look(x, b, "", nullptr, false); } }
// ---- invalid arguments --------------------------------------------------------------------------------------------
template<class F> bool invalid(mc::X& x, F&& f) { x.op(); try { f(); } catch (const std::invalid_argument&) { return true; } return false; }
PART("invalid") { size_t k = x.choose(3), c = x.choose(8); x.go(); static const size_t N[] = {1, 2, 4096, SIZE_MAX}; int calls = 0; char mem[8];
    auto go = [&]<class T>(T*) { using Fn = std::function<void(T*)>; if (c < 4) { if (!invalid(x, [&] { z::ZBuffer b(static_cast<T*>(nullptr), N[c], Fn([&](T*) { ++calls; })); })) x.fail("a null pointer with a size was accepted"); }
        else { T* p = c == 6 ? nullptr : reinterpret_cast<T*>(mem); size_t n = c == 4 ? 8 : c == 5 ? 0 : c == 6 ? 0 : 1; if (!invalid(x, [&] { z::ZBuffer b(p, n, Fn()); })) x.fail("an empty release function was accepted"); } };
    if (k == 0) go(static_cast<uint8_t*>(nullptr)); else if (k == 1) go(static_cast<char*>(nullptr)); else go(static_cast<void*>(nullptr)); if (calls > 1) x.fail("released twice"); }
PART("null-zero") { size_t k = x.choose(3); bool mv = x.flip(); x.go(); int calls = 0; auto go = [&]<class T>(T*) { z::ZBuffer b(static_cast<T*>(nullptr), 0, std::function<void(T*)>([&](T* p) { ++calls; if (p) x.fail("released another pointer"); })); look(x, b, "", nullptr, false); if (mv) { z::ZBuffer c = std::move(b); look(x, c, "", nullptr, false); } }; if (k == 0) go(static_cast<uint8_t*>(nullptr)); else if (k == 1) go(static_cast<char*>(nullptr)); else go(static_cast<void*>(nullptr)); if (calls > 1) x.fail("released twice"); }
int main(int c, char** v) { return mc::run_main(c, v, "C18"); }
