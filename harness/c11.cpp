#include "zref.hpp"
using namespace ref;
using P = z::Zera;
// Writer calls. The model is a pushdown automaton over them: `step` says whether a call is allowed in the
// current state and what value it contributes to.
enum C : int { Leaf, BeginArr, EndArr, BeginMap, EndMap, Key };
struct Call { C c = Leaf; Val v; size_t hint = 0; std::string key; };
struct Model {
    struct Fr { Val v; bool pending = false; };
    std::vector<Fr> st; std::optional<Val> root;
    // a value completed in the current place; false: not allowed there
    bool put(Val v) {
        if (st.empty()) { if (root) return false; root = std::move(v); return true; }
        Fr& f = st.back(); if (f.v.k == Map) { if (!f.pending) return false; f.pending = false; } f.v.a.push_back(std::move(v)); return true;
    }
    bool room() const { return st.empty() ? !root : st.back().v.k == Arr || st.back().pending; }
    bool step(const Call& c) {
        switch (c.c) {
            case Leaf: return put(c.v);
            case BeginArr: if (!room()) return false; st.push_back({arr()}); return true;
            case BeginMap: if (!room()) return false; st.push_back({map()}); return true;
            case EndArr: case EndMap: { if (st.empty() || st.back().v.k != (c.c == EndArr ? Arr : Map) || st.back().pending) return false; Val v = std::move(st.back().v); st.pop_back(); return put(std::move(v)); }
            case Key: if (st.empty() || st.back().v.k != Map || st.back().pending || c.key.size() > 65535) return false; st.back().pending = true; st.back().v.keys.push_back(c.key); return true;
        }
        return false;
    }
    bool done() const { return st.empty(); }
    Val value() const { return root ? *root : null(); }
};
template<class W> static void call(W& w, const Call& c) {
    switch (c.c) { case Leaf: emit(c.v, w); break; case BeginArr: w.begin_array(c.hint); break; case EndArr: w.end_array(); break; case BeginMap: w.begin_map(c.hint); break; case EndMap: w.end_map(); break; case Key: w.key(c.key); break; }
}
template<class F> static bool refused(F&& f) { try { f(); } catch (const z::SerializationError&) { return true; } return false; }
static std::string show(const std::vector<Call>& s) { static const char* n[] = {"v", "[", "]", "{", "}", "k"}; std::string o; for (auto& c : s) { o += n[c.c]; } return o; }

static void accepted(mc::X& x, const std::vector<Call>& s, const Val& v) {
    P::RootSerializer rs; P::Serializer w(rs); std::optional<z::ZBuffer> b;
    if (refused([&]{ for (auto& c : s) { call(w, c); x.op(); } b.emplace(rs.finish()); })) x.fail("well-formed calls " + show(s) + " were refused");
    auto out = copy_of(*b); zr::Strict st{x, out, 12}; Val got = st.run(); x.op(); if (!(got == v)) x.fail("calls " + show(s) + " encoded " + ref::show(got) + " instead of " + ref::show(v));
    mc::Bytes m(out); P::Deserializer d(m.span()); Mode md = mode_of<P>(); md.backing = &m; compare(x, v, d, md);
    if (x.want_sample()) x.sample(show(s) + " -> " + ref::show(v)); x.outcome(show(s));
}
// the calls must be refused somewhere before finish() hands out a buffer
static void rejected(mc::X& x, const std::vector<Call>& s, const std::vector<Call>& tail) {
    P::RootSerializer rs; P::Serializer w(rs); bool got = false;
    const bool r = refused([&]{ for (auto& c : s) { call(w, c); x.op(); } for (auto& c : tail) call(w, c); auto b = rs.finish(); got = true; }); x.op();
    if (!r || got) x.fail("misuse " + show(s) + "(" + show(tail) + ") was encoded silently");
}
// calls that close everything that is open in state m
static std::vector<Call> closing(const Model& m) { std::vector<Call> t; for (size_t j = m.st.size(); j-- > 0;) { if (m.st[j].pending && j + 1 == m.st.size()) t.push_back({Leaf, i64(1)}); t.push_back({m.st[j].v.k == Arr ? EndArr : EndMap}); } return t; }
static void judge(mc::X& x, const std::vector<Call>& s) {
    Model m; for (size_t i = 0; i < s.size(); ++i) {
        Model before = m;
        if (!m.step(s[i])) {
            if (i + 1 != s.size()) throw mc::Prune{};
            rejected(x, s, {}); auto t = closing(before); rejected(x, s, t); t.insert(t.begin(), Call{Leaf, str("v")}); rejected(x, s, t);
            if (!before.st.empty()) { Call k; k.c = Key; k.key = "zz"; std::vector<Call> u = {k, Call{Leaf, i64(3)}}; for (auto& c : closing(before)) u.push_back(c); rejected(x, s, u); }
            return;
        }
    }
    if (!m.done()) { rejected(x, s, {}); return; }
    accepted(x, s, m.value());
}
static Call symbol(mc::X& x, const std::vector<Call>& al, const std::vector<Call>& sofar, const Model& m) { Call c = al[x.choose(al.size())]; if (c.c == Key) c.key += std::to_string(m.st.empty() ? 0 : m.st.back().v.keys.size()); return c; }
static void explore(mc::X& x, const std::vector<Call>& al, size_t depth, size_t split) {
    // every sequence of length <= depth whose proper prefixes are allowed (a longer one is already decided)
    std::vector<Call> s; Model m; size_t n = x.choose(depth + 1);
    for (size_t j = 0; j < n; ++j) { Call c = symbol(x, al, s, m); s.push_back(c); const bool ok = m.step(c); if (!ok && j + 1 < n) throw mc::Prune{}; if (j + 1 == split) x.go(); }
    if (n < split) x.go();
    judge(x, s);
}
static Call leaf(Val v) { Call c; c.v = std::move(v); return c; }
static Call op(C k, size_t hint = 0) { Call c; c.c = k; c.hint = hint; return c; }
static Call key(std::string k) { Call c; c.c = Key; c.key = std::move(k); return c; }
PART("calls") { static const std::vector<Call> al = { leaf(i64(7)), leaf(str(fill(14, 1))), leaf(blob(fill(5, 2))), op(BeginArr), op(EndArr), op(BeginMap), op(EndMap), key("k") }; explore(x, al, x.thorough ? 10 : 8, 3); }
PART("calls-narrow") { static const std::vector<Call> al = { leaf(blob("b")), op(BeginArr), op(EndArr), op(BeginMap), op(EndMap), key("k") }; explore(x, al, x.thorough ? 12 : 10, 4); }
PART("calls-wide") { static const std::vector<Call> al = [] { std::vector<Call> a; for (auto& v : few()) if (v.k != Arr && v.k != Map) a.push_back(leaf(v)); for (auto k : {BeginArr, BeginMap}) for (size_t h : {0, 1, 3, 1000}) a.push_back(op(k, h)); a.push_back(op(EndArr)); a.push_back(op(EndMap)); for (auto k : {"", "key", "a longer key than any inline string"}) a.push_back(key(k)); return a; }(); explore(x, al, 5, 2); }
PART("hints") { // the size announced to begin_array/begin_map is only a hint
    static const size_t H[] = {0, 1, 2, 3, 4, 5, 100, 65536}; size_t h = H[x.choose(8)], n = x.choose(6); bool mp = x.flip(); x.go(); std::vector<Call> s = { op(mp ? BeginMap : BeginArr, h) }; for (size_t j = 0; j < n; ++j) { if (mp) s.push_back(key("k" + std::to_string(j))); s.push_back(leaf(j % 2 ? str(fill(20, 1)) : blob(fill(j, 2)))); } s.push_back(op(mp ? EndMap : EndArr)); judge(x, s); }
PART("key-lengths") { static const size_t N[] = {0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 65540, 70000, 131071, 131072, 131077, 1 << 24}; size_t n = N[x.choose(16)]; size_t c = x.choose(4); x.go(); std::string k = fill(n, 3); std::vector<Call> s = { op(BeginMap) };
    if (c == 1) { s.push_back(key("before")); s.push_back(leaf(i64(1))); } if (c == 2) { s = { op(BeginArr), op(BeginMap) }; } if (c == 3) { s.push_back(key("m")); s.push_back(op(BeginMap)); }
    s.push_back(key(k)); Model m; bool ok = true; for (auto& q : s) ok = ok && m.step(q);
    if (ok) { s.push_back(leaf(str(fill(15, 1)))); s.push_back(op(EndMap)); if (c == 2) s.push_back(op(EndArr)); if (c == 3) s.push_back(op(EndMap)); }
    judge(x, s); }
PART("inline-limit") { // accepted exactly for 0..12; a refused one leaves the writer usable with the old limit
    static const uint32_t T[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 255, 256, 268, 65535, 65536, 65548, 0x7fffffff, 0x80000000, 0xffffffff}; uint32_t a = T[x.choose(29)], b = T[x.choose(29)]; size_t n = x.choose(18); x.go();
    P::RootSerializer rs; P::Serializer w(rs); uint32_t cur = 12;
    for (uint32_t t : {a, b}) { const bool r = refused([&]{ rs.set_inline_string_threshold(t); }); x.op(); if (r != (t > 12)) x.fail("inline limit " + std::to_string(t) + (r ? " refused" : " accepted")); if (!r) cur = t; }
    Val v = arr({str(fill(n, 1)), map({{"k", str(fill(n, 2))}}), blob("x"), str(fill(n, 3))}); emit(v, w); auto out = copy_of(rs.finish()); zr::Strict s{x, out, cur}; Val got = s.run(); if (!(got == v)) x.fail("limit changed the value"); }
PART("limit-midway") { // changing the limit between values affects only later strings
    uint32_t a = uint32_t(x.choose(13)), b = uint32_t(x.choose(13)); size_t n = x.choose(15), m = x.choose(15); x.go(); P::RootSerializer rs; P::Serializer w(rs); rs.set_inline_string_threshold(a); w.begin_array(2); w.string(fill(n, 1)); rs.set_inline_string_threshold(b); w.string(fill(m, 2)); w.end_array(); auto out = copy_of(rs.finish());
    Val v = arr({str(fill(n, 1)), str(fill(m, 2))}); zr::Strict s{x, out, std::max(a, b)}; Val got = s.run(); if (!(got == v)) x.fail("limit changed the value"); P::Deserializer d(out); compare(x, v, d, mode_of<P>()); }
struct Script { const std::vector<Call>* s; };
template<z::Writer W> void serialize(const Script& s, W& w) { for (auto& c : *s.s) call(w, c); }
PART("through-builders") { // the same misuse inside user-defined types, alone and among builder elements
    static const std::vector<Call> al = { leaf(str(fill(14, 1))), op(BeginArr), op(EndArr), op(BeginMap), op(EndMap), key("k") }; size_t route = x.choose(4); std::vector<Call> s; size_t n = x.choose(x.thorough ? 7 : 6); Model m; bool bad = false;
    std::vector<Call> pre = route == 0 ? std::vector<Call>{} : route == 1 ? std::vector<Call>{op(BeginArr), leaf(i64(1))} : route == 2 ? std::vector<Call>{op(BeginMap), key("x"), leaf(i64(1)), key("y")} : std::vector<Call>{op(BeginArr), op(BeginMap), key("y")};
    std::vector<Call> post = route == 0 ? std::vector<Call>{} : route == 1 ? std::vector<Call>{leaf(str("end")), op(EndArr)} : route == 2 ? std::vector<Call>{key("z"), leaf(str("end")), op(EndMap)} : std::vector<Call>{op(EndMap), leaf(blob("q")), op(EndArr)};
    for (auto& c : pre) m.step(c);
    for (size_t j = 0; j < n; ++j) { Call c = symbol(x, al, s, m); s.push_back(c); if (bad) throw mc::Prune{}; if (!m.step(c)) bad = true; }
    x.go(); for (auto& c : post) if (!bad && !m.step(c)) bad = true; if (!bad && !m.done()) bad = true;
    Script sc{&s}; std::optional<z::ZBuffer> b; x.op();
    const bool r = refused([&]{ if (route == 0) b.emplace(z::serialize<P>(sc)); else if (route == 1) b.emplace(z::serialize<P>(z::zvec(1, sc, "end"))); else if (route == 2) b.emplace(z::serialize<P>(z::zmap<"x", "y", "z">(1, sc, "end"))); else b.emplace(z::serialize<P>(z::zvec(z::zmap<"y">(sc), std::vector<std::byte>{std::byte('q')}))); });
    if (bad) { if (!r || b) x.fail("misuse " + show(s) + " inside a builder was encoded silently"); return; }
    if (r) x.fail("well-formed calls " + show(s) + " inside a builder were refused"); auto out = copy_of(*b); zr::Strict st{x, out, 12}; Val got = st.run(); Val want = m.value(); if (!(got == want)) x.fail("calls " + show(s) + " inside a builder encoded " + ref::show(got) + " instead of " + ref::show(want)); }
PART("after-refusal") { // whatever is called after a refused call stays memory-safe and either refuses or yields a readable buffer
    static const std::vector<Call> al = { leaf(blob("b")), op(BeginArr), op(EndArr), op(BeginMap), op(EndMap), key("k") }; size_t n = x.choose(x.thorough ? 8 : 6) + 1; P::RootSerializer rs; P::Serializer w(rs); std::vector<Call> s; for (size_t j = 0; j < n; ++j) { Call c = al[x.choose(al.size())]; s.push_back(c); } x.go();
    for (auto& c : s) { x.op(); (void)refused([&]{ call(w, c); }); } std::optional<z::ZBuffer> b; if (refused([&]{ b.emplace(rs.finish()); })) return; mc::Bytes m(b->buf()); zr::walk(x, m.span()); }
PART("deep") { size_t d = levels()[x.choose(levels().size())], pat = x.choose(3), miss = x.choose(4); x.go(); std::vector<Call> s; Model m; auto go = [&](Call c) { s.push_back(c); return m.step(c); };
    for (size_t j = 0; j < d; ++j) { bool mp = pat == 0 ? false : pat == 1 ? true : j % 2; go(op(mp ? BeginMap : BeginArr)); if (mp) go(key("k")); } go(leaf(str(fill(13, 1))));
    while (!m.st.empty()) { if (miss == 1 && m.st.size() == 1) break; if (miss == 2 && m.st.size() == d / 2 + 1) { go(op(m.st.back().v.k == Arr ? EndMap : EndArr)); break; } go(op(m.st.back().v.k == Arr ? EndArr : EndMap)); if (miss == 3 && m.st.empty()) { go(op(EndArr)); break; } }
    judge(x, s); }
int main(int c, char** v) { return mc::run_main(c, v, "C11"); }
