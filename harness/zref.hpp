// Independent Zera v1 reference, written from protocols/ZERA.md: a layout builder that can place payloads in
// any order, a strict validator/decoder of complete buffers, and a per-operation oracle for arbitrary bytes.
#pragma once
#include "val.hpp"
#include <optional>

namespace zr {
using ref::Val; using ref::K;
using Buf = std::vector<uint8_t>;
inline uint64_t le(std::span<const uint8_t> b, size_t p, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; --i) v = (v << 8) | b[p + size_t(i)]; return v; }
inline void put(Buf& b, size_t p, uint64_t v, int n) { for (int i = 0; i < n; ++i) b[p + size_t(i)] = uint8_t(v >> (8 * i)); }

// ---- builder -------------------------------------------------------------------------------------------
struct Opt {
    bool root_first = false;      // root reference at the start of the envelope instead of the end
    bool parents_first = false;   // container payload before those of its children
    bool shapes_last = false;     // shapes after everything else
    size_t env_gap = 0;           // unused bytes before every envelope payload
    size_t arena_gap = 0;         // unused bytes before every arena payload (on top of alignment)
    bool arena_reverse = false;   // arena payloads in reverse order
    bool share = false;           // equal strings/blobs/shapes and equal containers stored once
    bool no_inline = false;       // short strings in the arena too
    size_t pad_blocks = 0;        // extra 16-byte zero blocks before the arena
    size_t trailing = 0;          // unused bytes after the last payload
};
struct Field { size_t at; int w; const char* what; };
struct Built { Buf bytes; std::vector<Field> fields; size_t env = 20, env_size = 0, arena = 0; };

struct Builder {
    Opt o; Buf env, arena; std::vector<Field> f;      // field offsets relative to the envelope until finished
    struct Pay { std::string bytes; bool blob; std::vector<size_t> refs; };  // refs: env offsets of VRs to patch (a,b)
    std::vector<Pay> pays; std::vector<std::pair<size_t, uint64_t>> shapes; // (vr, dim)
    std::map<std::string, uint32_t> seen;
    void field(size_t at, int w, const char* n) { f.push_back({at, w, n}); }
    size_t grow(size_t n) { for (size_t i = 0; i < o.env_gap; ++i) env.push_back(0xEE); size_t p = env.size(); env.resize(p + n, 0); return p; }
    size_t shape(uint64_t d) {
        std::string k = "#shape" + std::to_string(d);
        if (o.share && seen.count(k)) return seen[k];
        size_t p = grow(12); put(env, p, 1, 4); put(env, p + 4, d, 8); field(p, 4, "rank"); field(p + 4, 8, "dim"); seen[k] = uint32_t(p); return p;
    }
    void fields_of(size_t vr) { field(vr, 1, "tag"); field(vr + 1, 1, "flags"); field(vr + 2, 2, "aux"); field(vr + 4, 4, "a"); field(vr + 8, 4, "b"); field(vr + 12, 4, "c"); }
    void at(size_t vr, const Val& v) {
        using namespace ref; fields_of(vr);
        auto tag = [&](uint8_t t, uint16_t aux = 0, uint8_t fl = 0) { env[vr] = t; env[vr + 1] = fl; put(env, vr + 2, aux, 2); };
        switch (v.k) {
            case Null: tag(0); break;
            case Bool: tag(1, v.b); break;
            case Int: tag(2); put(env, vr + 4, uint64_t(v.i), 8); break;
            case UInt: tag(8); put(env, vr + 4, v.u, 8); break;
            case Dbl: tag(3); put(env, vr + 4, v.d, 8); break;
            case Str: if (v.s.size() <= 12 && !o.no_inline) { tag(4, uint16_t(v.s.size()), 1); if (!v.s.empty()) std::memcpy(&env[vr + 4], v.s.data(), v.s.size()); } else { tag(4); pay(v, vr); } break;
            case Blob: tag(7, 2); pay(v, vr); if (o.shapes_last) shapes.push_back({vr, v.s.size()}); else { size_t s = shape(v.s.size()); put(env, vr + 12, s, 4); } break;
            case Arr: case Map: { tag(v.k == Arr ? 5 : 6); const size_t p = container(v); put(env, vr + 4, p, 4); break; }
        }
    }
    // a reference whose place in the envelope is decided later; patches: payloads and shapes to bind to it
    using Patches = std::vector<std::pair<size_t, size_t>>;
    void child(const Val& v, std::array<uint8_t, 16>& r, Patches& patches) {
        r.fill(0); auto w32 = [&](size_t at, size_t n) { for (int j = 0; j < 4; ++j) r[at + size_t(j)] = uint8_t(n >> (8 * j)); };
        if (v.k == ref::Arr || v.k == ref::Map) { r[0] = v.k == ref::Arr ? 5 : 6; w32(4, container(v)); return; }
        if (v.k == ref::Blob) { r[0] = 7; r[2] = 2; patches.push_back({0, pay_index(v)}); if (o.shapes_last) { shapes.push_back({0, v.s.size()}); patches.push_back({1, shapes.size() - 1}); } else w32(12, shape(v.s.size())); return; }
        if (v.k == ref::Str && (v.s.size() > 12 || o.no_inline)) { r[0] = 4; patches.push_back({0, pay_index(v)}); return; }
        const size_t fk = f.size(), base = env.size(); env.resize(base + 16, 0); at(base, v); std::memcpy(r.data(), &env[base], 16); env.resize(base); f.resize(fk);
    }
    void settle(size_t vr, const std::array<uint8_t, 16>& r, const Patches& pt) { std::memcpy(&env[vr], r.data(), 16); fields_of(vr); for (auto& [kind, idx] : pt) { if (kind == 0) pays[idx].refs.push_back(vr); else shapes[idx].first = vr; } }
    size_t container(const Val& v) {
        using namespace ref; const std::string k = o.share ? "#c" + show_full(v) : ""; if (o.share && seen.count(k)) return seen[k];
        std::vector<std::array<uint8_t, 16>> refs(v.a.size()); std::vector<Patches> pt(v.a.size()); std::vector<size_t> slot;
        if (!o.parents_first) for (size_t j = 0; j < v.a.size(); ++j) child(v.a[j], refs[j], pt[j]);
        size_t sz = 4; for (size_t j = 0; j < v.a.size(); ++j) sz += v.k == Arr ? 16 : 20 + v.keys[j].size();
        const size_t p = grow(sz); put(env, p, v.a.size(), 4); field(p, 4, "count"); size_t q = p + 4;
        for (size_t j = 0; j < v.a.size(); ++j) { if (v.k == Map) { put(env, q, v.keys[j].size(), 2); field(q, 2, "key_len"); if (!v.keys[j].empty()) std::memcpy(&env[q + 4], v.keys[j].data(), v.keys[j].size()); q += 4 + v.keys[j].size(); } slot.push_back(q); q += 16; }
        for (size_t j = 0; j < v.a.size(); ++j) { if (o.parents_first) at(slot[j], v.a[j]); else settle(slot[j], refs[j], pt[j]); }
        if (o.share) seen[k] = uint32_t(p);
        return p;
    }
    static std::string show_full(const Val& v) { std::string s = std::to_string(int(v.k)) + ":" + std::to_string(v.b) + std::to_string(v.i) + "," + std::to_string(v.u) + "," + std::to_string(v.d) + "," + std::to_string(v.s.size()) + v.s + "("; for (size_t j = 0; j < v.a.size(); ++j) { if (v.k == ref::Map) s += std::to_string(v.keys[j].size()) + v.keys[j]; s += show_full(v.a[j]); } return s + ")"; }
    size_t pay_index(const Val& v) { if (o.share) for (size_t i = 0; i < pays.size(); ++i) if (pays[i].bytes == v.s && pays[i].blob == (v.k == ref::Blob)) return i; pays.push_back({v.s, v.k == ref::Blob, {}}); return pays.size() - 1; }
    void pay(const Val& v, size_t vr) { pays[pay_index(v)].refs.push_back(vr); }

    Built build(const Val& v) {
        size_t root;
        if (o.root_first) { root = grow(16); at(root, v); }
        else { std::array<uint8_t, 16> r; Patches pt; child(v, r, pt); root = grow(16); settle(root, r, pt); }
        for (auto& [vr, d] : shapes) { size_t s = shape(d); put(env, vr + 12, s, 4); }
        std::vector<size_t> ord(pays.size()); std::iota(ord.begin(), ord.end(), 0); if (o.arena_reverse) std::reverse(ord.begin(), ord.end());
        for (size_t i : ord) { for (size_t g = 0; g < o.arena_gap; ++g) arena.push_back(0xDD); if (pays[i].blob) while (arena.size() % 16) arena.push_back(0); size_t p = arena.size(); arena.insert(arena.end(), pays[i].bytes.begin(), pays[i].bytes.end()); for (size_t vr : pays[i].refs) { put(env, vr + 4, p, 4); put(env, vr + 8, pays[i].bytes.size(), 4); } }
        Built b; b.env_size = env.size(); b.arena = (20 + env.size() + 15) / 16 * 16 + 16 * o.pad_blocks;
        b.bytes.assign(b.arena, 0); put(b.bytes, 0, 0x564E455A, 4); put(b.bytes, 4, 1, 2); put(b.bytes, 6, 1, 2); put(b.bytes, 8, root, 4); put(b.bytes, 12, env.size(), 4); put(b.bytes, 16, b.arena, 4);
        std::copy(env.begin(), env.end(), b.bytes.begin() + 20); b.bytes.insert(b.bytes.end(), arena.begin(), arena.end()); for (size_t i = 0; i < o.trailing; ++i) b.bytes.push_back(0xCC);
        for (auto x : f) { x.at += 20; b.fields.push_back(x); }
        const Field h[] = {{0, 4, "magic"}, {4, 2, "version"}, {6, 2, "hflags"}, {8, 4, "root_ofs"}, {12, 4, "env_size"}, {16, 4, "arena_ofs"}}; b.fields.insert(b.fields.begin(), std::begin(h), std::end(h));
        return b;
    }
};
inline Built build(const Val& v, Opt o = {}) { Builder b; b.o = o; return b.build(v); }

// ---- strict validation of a complete buffer ------------------------------------------------------------
struct Strict {
    mc::X& x; std::span<const uint8_t> b; size_t inline_limit; size_t env_size = 0, arena = 0; std::vector<std::pair<size_t, size_t>> used; std::vector<std::pair<size_t, size_t>> strs;
    void req(bool ok, const char* w) { x.op(); if (!ok) x.fail(std::string("layout: ") + w); }
    void take(size_t at, size_t n) { if (n) used.push_back({at, at + n}); }
    size_t env(uint64_t ofs, uint64_t n) { req(ofs <= env_size && n <= env_size - ofs, "envelope payload out of range"); return 20 + size_t(ofs); }
    Val value(uint64_t vr, int depth = 0) {
        using namespace ref; const size_t p = 20 + size_t(vr); const uint8_t tag = b[p], fl = b[p + 1]; const uint64_t aux = le(b, p + 2, 2), a = le(b, p + 4, 4), bb = le(b, p + 8, 4), c = le(b, p + 12, 4);
        req(depth < 1200, "nesting"); req(tag <= 8, "unknown tag"); if (tag == 4) req((fl & ~1) == 0, "string flags"); else req(fl == 0, "flags on a non-string");
        switch (tag) {
            case 0: return null();
            case 1: req(aux <= 1, "bool"); return boolean(aux == 1);
            case 2: return i64(int64_t(a | bb << 32));
            case 3: return dbl_bits(a | bb << 32);
            case 8: return u64(a | bb << 32);
            case 4: if (fl & 1) { req(aux <= 12 && aux <= inline_limit, "inline string longer than the limit"); return str(std::string(reinterpret_cast<const char*>(&b[p + 4]), aux)); }
                    req(bb > inline_limit || bb <= 12, "arena string"); span(a, bb, false); return str(std::string(reinterpret_cast<const char*>(b.data()) + arena + a, bb));
            case 7: { req(aux == 2, "typed array is not u8"); size_t s = env(c, 12); req(le(b, s, 4) == 1, "blob rank"); req(le(b, s + 4, 8) == bb, "blob shape differs from its length"); take(s, 12); span(a, bb, true); return blob(std::string(reinterpret_cast<const char*>(b.data()) + arena + a, bb)); }
            case 5: { size_t q = env(a, 4); uint64_t n = le(b, q, 4); env(a, 4 + 16 * n); take(q, 4 + 16 * n); Val v = arr(); for (uint64_t j = 0; j < n; ++j) v.a.push_back(value(a + 4 + 16 * j, depth + 1)); return v; }
            default: { size_t q = env(a, 4); uint64_t n = le(b, q, 4); uint64_t o = a + 4; Val v = map(); for (uint64_t j = 0; j < n; ++j) { size_t e = env(o, 4); uint64_t kl = le(b, e, 2); req(le(b, e + 2, 2) == 0, "reserved key field not zero"); env(o, 4 + kl + 16); v.keys.push_back(std::string(reinterpret_cast<const char*>(&b[e + 4]), kl)); v.a.push_back(value(o + 4 + kl, depth + 1)); o += 20 + kl; } take(q, o - a); return v; }
        }
    }
    void span(uint64_t a, uint64_t n, bool bl) { const size_t al = b.size() - arena; req(a <= al && n <= al - a, "arena payload out of range"); if (bl) req(a % 16 == 0, "blob payload not 16-byte aligned"); take(arena + a, n); }
    Val run() {
        req(b.size() >= 20 + 16, "too short"); req(le(b, 0, 4) == 0x564E455A, "magic"); req(b[0] == 'Z' && b[1] == 'E' && b[2] == 'N' && b[3] == 'V', "magic"); req(le(b, 4, 2) == 1, "version"); req(le(b, 6, 2) == 1, "header flags");
        const uint64_t root = le(b, 8, 4); env_size = le(b, 12, 4); arena = le(b, 16, 4);
        req(env_size <= b.size() - 20, "envelope size"); req(arena % 16 == 0, "arena not aligned"); req(arena >= 20 + env_size && arena <= b.size(), "arena offset"); req(root <= env_size && env_size - root >= 16, "root offset");
        for (size_t i = 20 + env_size; i < arena; ++i) if (b[i]) req(false, "padding not zero");
        take(20 + root, 16); Val v = value(root);
        std::sort(used.begin(), used.end()); for (size_t i = 1; i < used.size(); ++i) if (used[i].first < used[i - 1].second) req(false, "payloads overlap");
        return v;
    }
};

// ---- oracle for arbitrary bytes -------------------------------------------------------------------------
struct Walk {
    mc::X& x; std::span<const uint8_t> b; const mc::Bytes& mem; int budget = 60; bool full = false;  // full: wrong-kind accessors too
    uint64_t env_size = 0, arena = 0; std::string path;
    [[noreturn]] void bad(const std::string& w) { x.fail("at $" + path + ": " + w + "  bytes=" + mc::hex(b, 120)); }
    bool env_ok(uint64_t o, uint64_t n) const { return o <= env_size && n <= env_size - o; }
    bool arena_ok(uint64_t o, uint64_t n) const { const uint64_t al = b.size() - arena; return o <= al && n <= al - o; }
    enum Header { Reject, Lazy, Good };
    static Header header(std::span<const uint8_t> b) {
        if (b.size() < 20) return Reject;
        if (le(b, 0, 4) != 0x564E455A || le(b, 4, 2) != 1 || le(b, 6, 2) != 1) return Reject;
        const uint64_t root = le(b, 8, 4), es = le(b, 12, 4), ao = le(b, 16, 4);
        if (20 + es > b.size() || ao > b.size() || ao % 16 || ao < 20 + es) return Reject;
        if (root + 16 > es) return Lazy;                     // opening or the first use must refuse it
        return Good;
    }
    template<class F> void must_raise(F&& f, const char* w) { x.op(); bool t = ref::raises(f); if (!t) bad(std::string(w) + " was not refused"); }
    template<class F, class G> void exact(bool valid, F&& f, G&& same, const char* w) {
        x.op(); if (!valid) { must_raise([&]{ (void)f(); }, w); return; }
        bool ok = false; if (ref::raises([&]{ ok = same(f()); })) bad(std::string(w) + " refused a consistent value"); if (!ok) bad(std::string(w) + " returned something other than what the bytes say");
    }
    template<class R> void value(const R& r, uint64_t vr, int depth) {
        if (--budget < 0) return;
        const size_t p = 20 + size_t(vr); const uint8_t tag = b[p], fl = b[p + 1]; const uint64_t aux = le(b, p + 2, 2), a = le(b, p + 4, 4), bb = le(b, p + 8, 4), c = le(b, p + 12, 4);
        const bool flok = tag == 4 ? (fl & ~1) == 0 : fl == 0; const uint64_t w = a | bb << 32;
        { const bool got[9] = { r.isNull(), r.isBool(), r.isInt(), r.isUInt(), r.isFloat(), r.isString(), r.isBlob(), r.isArray(), r.isMap() };
          const bool want[9] = { tag == 0, tag == 1, tag == 2, tag == 8, tag == 3, tag == 4, tag == 7 && aux == 2, tag == 5, tag == 6 };
          x.op(9); for (int j = 0; j < 9; ++j) if (got[j] != want[j] && (flok || got[j])) bad("type tests disagree with the stored tag"); }
        if (tag == 1 || full) exact(tag == 1 && flok && aux <= 1, [&]{ return r.asBool(); }, [&](bool g) { return g == (aux == 1); }, "asBool");
        const bool isint = (tag == 2 || tag == 8) && flok;
        if (tag == 2 || tag == 8 || full) {
            exact(isint && (tag == 2 || w <= uint64_t(INT64_MAX)), [&]{ return r.asInt64(); }, [&](int64_t g) { return g == int64_t(w); }, "asInt64");
            exact(isint && (tag == 8 || int64_t(w) >= 0), [&]{ return r.asUInt64(); }, [&](uint64_t g) { return g == w; }, "asUInt64");
        }
        if (tag == 3 || full) exact(tag == 3 && flok, [&]{ return r.asDouble(); }, [&](double g) { return std::bit_cast<uint64_t>(g) == w; }, "asDouble");
        if (tag == 4 || full) {
            const bool inl = fl & 1; const bool ok = tag == 4 && flok && (inl ? aux <= 12 : arena_ok(a, bb)); const size_t at = inl ? p + 4 : size_t(arena + a); const size_t n = inl ? aux : bb;
            exact(ok, [&]{ return r.asStringView(); }, [&](std::string_view g) { return g.size() == n && (n == 0 || (reinterpret_cast<const uint8_t*>(g.data()) == mem.p + at && std::memcmp(g.data(), b.data() + at, n) == 0)); }, "asStringView");
            exact(ok, [&]{ return r.asString(); }, [&](const std::string& g) { return g.size() == n && (n == 0 || std::memcmp(g.data(), b.data() + at, n) == 0); }, "asString");
        }
        if (tag == 7 || full) {
            const bool ok = tag == 7 && flok && aux == 2 && env_ok(c, 12) && le(b, 20 + c, 4) == 1 && le(b, 24 + c, 8) == bb && arena_ok(a, bb);
            exact(ok, [&]{ return r.asBlob(); }, [&](std::span<const std::byte> g) { return g.size() == bb && (bb == 0 || reinterpret_cast<const uint8_t*>(g.data()) == mem.p + arena + a); }, "asBlob");
        }
        if (tag == 5 || full) {
            const bool head = tag == 5 && flok && env_ok(a, 4); const uint64_t n = head ? le(b, 20 + a, 4) : 0; const bool ok = head && env_ok(a, 4 + 16 * n);
            exact(ok, [&]{ return r.arraySize(); }, [&](size_t g) { return g == n; }, "arraySize");
            std::vector<size_t> idx = {0, 1, 2, size_t(n) - 1, size_t(n), size_t(n) + 1, size_t(1) << 28, (size_t(1) << 28) + 1, size_t(1) << 31, (size_t(1) << 32), (size_t(1) << 60), (size_t(1) << 60) + 1, SIZE_MAX / 16, SIZE_MAX};
            std::sort(idx.begin(), idx.end()); idx.erase(std::unique(idx.begin(), idx.end()), idx.end());
            for (size_t i : idx) {
                const bool in = head && i < n && env_ok(a, 4 + 16 * (uint64_t(i) + 1));
                if (!in) { if (i < n || i < 3 || full || depth == 0) must_raise([&]{ (void)r[i]; }, "operator[](index)"); continue; }
                x.op(); std::optional<std::decay_t<decltype(r[i])>> ch; const bool t = ref::raises([&]{ ch.emplace(r[i]); });
                if (t) { if (ok) bad("operator[](index) refused an element that is there"); continue; }
                if (depth < 3) { const size_t keep = path.size(); path += "[" + std::to_string(i) + "]"; value(*ch, a + 4 + 16 * uint64_t(i), depth + 1); path.resize(keep); }
            }
        }
        if (tag == 6 || full) map(r, tag == 6 && flok, a, depth);
        else { x.op(); if (r.contains("k") && tag != 6) bad("contains() true on a non-map"); }
        x.op(); try { (void)r.to_string(); } catch (const ref::z::DeserializationError&) {}
    }
    template<class R> void map(const R& r, bool tagok, uint64_t a, int depth) {
        const bool head = tagok && env_ok(a, 4); const uint64_t n = head ? le(b, 20 + a, 4) : 0;
        std::vector<std::pair<std::string, uint64_t>> ent; uint64_t o = a + 4; bool whole = head; std::string partial; bool has_partial = false;
        if (head) for (uint64_t j = 0; j < n; ++j) {
            if (!env_ok(o, 4)) { whole = false; break; }
            const uint64_t kl = le(b, 20 + o, 2); if (!env_ok(o, 4 + kl + 16)) { whole = false; if (env_ok(o, 4 + kl)) { has_partial = true; partial.assign(reinterpret_cast<const char*>(b.data()) + 24 + o, kl); } break; }
            ent.push_back({std::string(reinterpret_cast<const char*>(b.data()) + 24 + o, kl), o + 4 + kl}); o += 20 + kl;
        }
        // listing: exactly the entries, then an error if the rest is inconsistent
        x.op(); size_t got = 0; const bool raised = ref::raises([&]{ for (std::string_view k : r.mapKeys()) { if (!mem.holds(k.data(), k.size())) bad("listed key outside the buffer"); if (got >= ent.size()) bad("key listed beyond the entries present"); if (k != ent[got].first) bad("listed key differs from the stored one"); ++got; } });
        if (!raised && !whole) bad("mapKeys of an inconsistent map was not refused"); if (raised && whole) bad("mapKeys refused a consistent map"); if (!raised && got != ent.size()) bad("mapKeys stopped early");
        std::vector<std::string> probe = {"", "k", "nope", std::string(20, 'q')}; for (auto& e : ent) if (probe.size() < 14) probe.push_back(e.first); if (has_partial) probe.push_back(partial);
        std::sort(probe.begin(), probe.end()); probe.erase(std::unique(probe.begin(), probe.end()), probe.end());
        for (auto& k : probe) {
            size_t hits = 0; uint64_t vr = 0; for (auto& e : ent) if (e.first == k) { if (!hits) vr = e.second; ++hits; }
            x.op(2); bool c = false; bool craised = ref::raises([&]{ c = r.contains(k); });
            if (!tagok && !r.isMap()) { if (craised || c) bad("contains() on a non-map"); }
            else if (whole) { if (craised) bad("contains() refused a consistent map"); if (c != (hits > 0)) bad("contains() wrong"); }
            else if (!craised) { if (!c) bad("contains() answered false on an inconsistent map"); if (!hits && !(has_partial && partial == k)) bad("contains() true for a key that is not there"); }
            std::optional<std::decay_t<decltype(r[std::string_view(k)])>> ch; const bool t = ref::raises([&]{ ch.emplace(r[std::string_view(k)]); });
            if (t) { if (whole && hits) bad("lookup refused a stored key"); continue; }
            if (!hits) bad("lookup returned a value for a key that is not there");
            if (hits == 1 && depth < 3) { const size_t keep = path.size(); path += "." + k.substr(0, 8); value(*ch, vr, depth + 1); path.resize(keep); }
        }
    }
    // opens the bytes and walks them; returns how opening ended
    void run() {
        using D = ref::z::Zera::Deserializer; const Header h = header(b); x.op();
        std::optional<D> d; const bool t = ref::raises([&]{ d.emplace(mem.span()); });
        bool t2 = ref::raises([&]{ D e(std::vector<uint8_t>(b.begin(), b.end())); (void)e; });
        if (t != t2) bad("opening by view and by copy disagree");
        if (h == Reject) { if (!t) bad("inconsistent header was accepted"); return; }
        if (h == Good && t) bad("consistent header was refused");
        if (t) return;
        env_size = le(b, 12, 4); arena = le(b, 16, 4);
        if (h == Lazy) { must_raise([&]{ (void)d->isNull(); }, "isNull of a root outside the envelope"); must_raise([&]{ (void)d->asInt64(); }, "asInt64 of a root outside the envelope"); must_raise([&]{ (void)d->asStringView(); }, "asStringView of a root outside the envelope"); must_raise([&]{ (void)d->arraySize(); }, "arraySize of a root outside the envelope"); must_raise([&]{ (void)d->mapKeys(); }, "mapKeys of a root outside the envelope"); must_raise([&]{ (void)d->asBlob(); }, "asBlob of a root outside the envelope"); return; }
        value(*d, le(b, 8, 4), 0);
    }
};
inline void walk(mc::X& x, std::span<const uint8_t> bytes, bool full = false) { mc::Bytes m(bytes); Walk w{x, bytes, m}; w.full = full; w.run(); if (std::memcmp(m.p, bytes.data(), bytes.size()) != 0) x.fail("reading altered the buffer"); }
} // namespace zr
