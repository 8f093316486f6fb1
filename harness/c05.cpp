#include "protos.hpp"
using namespace ref;
template<class R> static void coherent(mc::X& x, const std::vector<std::string>& keys, const std::vector<std::string>& probes, const R& r, bool ordered, size_t stride = 1) {
    // listing: each stored key exactly once, twice over, with prefix and postfix increments
    auto list = [&](auto&& range, bool post) { std::vector<std::string> g; auto it = range.begin(); auto e = range.end(); while (!(it == e)) { if (post) { auto old = it++; g.emplace_back(*old); } else { g.emplace_back(*it); ++it; } if (g.size() > keys.size()) x.fail("listing yields too many keys"); } return g; };
    auto kv = r.mapKeys(); auto g1 = list(kv, false), g2 = list(kv, true), g3 = list(r.mapKeys(), false); x.op(3);
    if (g1 != g2 || g1 != g3) x.fail("listing the keys again gives different keys");
    size_t n = 0; for (std::string_view k : r.mapKeys()) { if (n >= g1.size() || g1[n] != k) x.fail("range-for lists different keys"); ++n; } if (n != g1.size()) x.fail("range-for lists fewer keys");
    auto want = keys, got = g1; if (!ordered) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); } if (want != got) x.fail("listing differs from the stored keys");
    for (size_t j = 0; j < keys.size(); j += stride) { x.op(2); if (!r.contains(keys[j])) x.fail("contains() false for a stored key"); auto v = r[std::string_view(keys[j])]; const bool last = v.isString(); if (last) x.fail("lookup returned a neighbour"); if ((v.isInt() ? v.asInt64() : int64_t(v.asUInt64())) != int64_t(1000 + j)) x.fail("lookup returned the value of another key"); }
    for (auto& p : probes) { if (std::find(keys.begin(), keys.end(), p) != keys.end()) continue; x.op(2); if (r.contains(p)) x.fail("contains() true for an absent key " + mc::hex({(const uint8_t*)p.data(), p.size()})); if (!raises([&]{ (void)r[std::string_view(p)]; })) x.fail("lookup of an absent key succeeded"); }
}
static Val mk(const std::vector<std::string>& keys) { Val m; m.k = Map; for (size_t j = 0; j < keys.size(); ++j) { m.keys.push_back(keys[j]); m.a.push_back(i64(int64_t(1000 + j))); } return m; }
template<class P> static void check(mc::X& x, const std::vector<std::string>& keys, const std::vector<std::string>& probes, size_t ctx, size_t stride = 1) {
    const bool ord = mode_of<P>().ordered; Val m = mk(keys);
    if (ctx == 0) { auto e = encode<P>(m); mc::Bytes b(e); typename P::Deserializer d(b.span()); coherent(x, keys, probes, d, ord, stride); }
    else if (ctx == 1) { auto e = encode<P>(map({{"outer", m}, {"a", map({{"b", str("x")}})}})); mc::Bytes b(e); typename P::Deserializer d(b.span()); coherent(x, keys, probes, d["outer"], ord, stride);
        std::vector<std::string> g; for (auto k : d["outer"].mapKeys()) g.emplace_back(k); std::sort(g.begin(), g.end()); auto w = keys; std::sort(w.begin(), w.end()); x.check(g == w, "listing of a temporary sub-value differs"); }
    else { auto e = encode<P>(arr({map({{"ab", str("decoy")}, {"", str("decoy")}}), m, str("tail")})); mc::Bytes b(e); typename P::Deserializer d(b.span()); coherent(x, keys, probes, d[size_t(1)], ord, stride);
        if (text_blobs<P>) return; // a JSON document lives as long as its reader
        auto open = [&] { return typename P::Deserializer(b.span()); }; size_t n = 0; for (auto k : open()[size_t(1)].mapKeys()) { (void)k; ++n; } x.check(n == keys.size(), "listing from a temporary reader differs"); }
}
static const std::vector<std::string>& alphabet() { static const std::vector<std::string> A = { "", "a", "b", "ab", "aa", "abc", "\x80", "\xff", "A", "a\x7f", std::string(12, 'k'), std::string(13, 'k') }; return A; }
static std::vector<std::string> probes_of(const std::vector<std::string>& a) { std::set<std::string> s(a.begin(), a.end()); for (auto& k : a) { s.insert(k + "a"); s.insert(k + std::string(1, '\0')); s.insert(k + "\xff"); if (!k.empty()) { s.insert(k.substr(0, k.size() - 1)); std::string q = k; q.back() = char(q.back() + 1); s.insert(q); q.back() = char(q.back() - 2); if (q.find('\0') == std::string::npos) s.insert(q); s.insert(k.substr(1)); } } return {s.begin(), s.end()}; }
static void dispatch(mc::X& x, size_t p, const std::vector<std::string>& k, const std::vector<std::string>& pr, size_t c, size_t stride = 1) { proto(p, [&]<class P> { if (storable<P>(mk(k))) check<P>(x, k, pr, c, stride); }); }
PART("ordered-selections") { // every sequence of up to 4 distinct keys of the alphabet (all sets, all insertion orders)
    size_t n = x.choose(x.thorough ? 6 : 5); const size_t A = n >= 5 ? 8 : alphabet().size(); std::vector<size_t> left; for (size_t i = 0; i < A; ++i) left.push_back(i); std::vector<std::string> keys; for (size_t j = 0; j < n; ++j) { size_t c = x.choose(left.size()); keys.push_back(alphabet()[left[c]]); left.erase(left.begin() + long(c)); }
    size_t p = x.choose(NP); size_t c = n <= 3 ? x.choose(3) : 0; x.go(); static const auto pr = probes_of(alphabet()); static const std::vector<std::string> small = [] { auto v = alphabet(); v.push_back("zz"); v.push_back(std::string("a\0", 2)); v.push_back("abcd"); return v; }();
    dispatch(x, p, keys, n <= 3 ? pr : small, c); if (x.want_sample()) x.sample("protocol " + std::to_string(p) + " " + show(mk(keys))); x.outcome(show(mk(keys))); }
PART("permutations") { // all insertion orders of 6 keys
    static const std::vector<std::string> K = { "k", "ka", "kb", "", "l", "j\xff" }; std::vector<std::string> left = K, keys; while (!left.empty()) { size_t c = x.choose(left.size()); keys.push_back(left[c]); left.erase(left.begin() + long(c)); } size_t p = x.choose(NP); x.go(); static const std::vector<std::string> pr = { "kaa", "kc", "i", "m", "j", "\xff" }; dispatch(x, p, keys, pr, 1); }
PART("subsets") { // every subset of 10 keys
    static const std::vector<std::string> K = { "m", "a", "zz", "mm", "mmm", "b", "\x81", "", "aa", "n" }; size_t s = x.choose(1024), p = x.choose(NP), c = x.choose(3); x.go(); std::vector<std::string> keys; for (size_t j = 0; j < 10; ++j) if (s >> j & 1) keys.push_back(K[j]); dispatch(x, p, keys, K, c); }
PART("sizes") { // every map size to 130, and larger; four key families; four insertion orders
    static const std::vector<size_t> S = [] { std::vector<size_t> v; for (size_t i = 0; i <= 40; ++i) v.push_back(i); for (size_t i : {50u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 200u, 255u, 256u, 257u}) v.push_back(i); return v; }();
    size_t n = x.pick(S), fam = x.choose(4), ord = x.choose(4), p = x.choose(NP); x.go(); std::vector<std::string> k; for (size_t j = 0; j < n; ++j) { char b[32]; std::snprintf(b, sizeof b, "%04zu", j * 3); k.push_back(fam == 0 ? std::to_string(j * 3) : fam == 1 ? std::string(20, 'p') + b : fam == 2 ? std::string(j, 'a') : std::string(b) + std::string(j % 5, '\xfe')); }
    if (ord == 1) std::reverse(k.begin(), k.end()); else if (ord >= 2 && n) { std::vector<std::string> q; size_t step = ord == 2 ? 7919 : 104729; while (std::gcd(step, n) != 1) ++step; for (size_t j = 0; j < n; ++j) q.push_back(k[(j * step) % n]); k = q; }
    std::vector<std::string> pr = probes_of(k.size() > 40 ? std::vector<std::string>(k.begin(), k.begin() + 40) : k); dispatch(x, p, k, pr, n <= 40 ? 2 : 0, n > 100 ? 7 : 1); }
PART("large") { static const size_t N[] = {1000, 4096, 65535, 65536, 65537}; size_t n = N[x.choose(x.thorough ? 5 : 2)], ord = x.choose(2), p = x.choose(NP); x.go(); std::vector<std::string> k; for (size_t j = 0; j < n; ++j) k.push_back("key" + std::to_string(j)); if (ord) std::reverse(k.begin(), k.end()); dispatch(x, p, k, {"key", "key" + std::to_string(n), "ke", "zzz", ""}, 0, n / 16); }
PART("key-lengths") { size_t n = x.choose(320); size_t p = x.choose(NP); x.go(); std::string s = fill(n, 1); std::vector<std::string> k = { s, s + "!", "other" }; if (n) { std::string t = s; t[n / 2] = char(t[n / 2] ^ 1); if (t != s) k.push_back(t); } dispatch(x, p, k, {s + "\"", s + "!!", n ? s.substr(0, n - 1) : "q"}, 1); }
PART("values-between-keys") { // keys stored after values of every header size must be listed, found and looked up
    size_t n = x.pick(header_sizes()), k = x.choose(SIZED), c = x.choose(3), p = x.choose(NP); x.go(); if (NP == 3 && p == 0 && k == 5 && n > 65535) throw mc::Prune{}; if (NP == 2 && n > 300 && k >= 2 && k <= 4) throw mc::Prune{}; const Val s = sized(k, n); const Val v = c == 0 ? around(5, s) : c == 1 ? around(3, s) : map({{"1", s}, {"2", s}, {"3", s}, {"", u64(5)}, {"k", str("e")}});
    auto run = [&]<class P> { if (!storable<P>(v)) return; auto e = encode<P>(v); mc::Bytes b(e); typename P::Deserializer d(b.span()); sparse(x, v, d, mode_of<P>()); }; proto(p, run); }
PART("prefix-pairs") { // a key and its prefixes, at every storage-size distance, in both orders
    static const size_t L[] = {0, 1, 2, 3, 7, 8, 12, 13, 30, 31, 32, 255, 256, 257, 300}, D[] = {1, 2, 4, 8, 15, 16, 32, 64, 128, 255, 256, 257, 512, 1024, 4096, 32768, 65024}; size_t l = L[x.choose(15)], d = D[x.choose(17)], order = x.choose(3), p = x.choose(NP), stored = x.choose(3); bool same = x.flip(); x.go();
    const std::string whole = same ? std::string(l + 2 * d, 'a') : fill(l + 2 * d, 1); std::vector<std::string> all = { whole.substr(0, l), whole.substr(0, l + d) }; if (l + 2 * d <= 65535) all.push_back(whole); else all.push_back("b");
    static const size_t O[3][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}; std::vector<std::string> k; for (size_t j : O[order]) if (stored == 0 || (stored == 1 && j != 0) || (stored == 2 && j != 1)) k.push_back(all[j]); dispatch(x, p, k, all, 0); }
PART("one-byte-difference") { static const size_t N[] = {1, 2, 4, 7, 8, 9, 12, 13, 16, 17, 31, 32, 33, 64, 65, 128, 255, 256, 257}; size_t n = N[x.choose(19)], bit = x.choose(3), p = x.choose(NP); x.go(); const std::string s = fill(n, 1); for (size_t i = 0; i < n; ++i) { std::string t = s; t[i] = char(t[i] ^ (bit == 0 ? 1 : bit == 1 ? 0x20 : 0x80)); if (t[i] == 0) continue; dispatch(x, p, i % 2 ? std::vector<std::string>{s, t} : std::vector<std::string>{t, s}, {}, 0); dispatch(x, p, {s}, {t}, 0); } }
PART("high-bytes") { size_t a = x.choose(255) + 1; size_t p = x.choose(NP); x.go(); std::vector<std::string> k, pr; for (size_t b : {size_t(1), size_t(0x20), size_t(0x7f), size_t(0x80), size_t(0xff)}) if (b != a) { k.push_back(std::string(1, char(b))); k.push_back(std::string{char(a), char(b)}); pr.push_back(std::string{char(b), char(a)}); } k.push_back(std::string(1, char(a))); dispatch(x, p, k, pr, 2); }
PART("nul-keys") { size_t c = x.choose(4), p = x.choose(2); x.go(); static const std::vector<std::vector<std::string>> K = { {std::string("a\0b", 3), "a"}, {std::string(1, '\0'), ""}, {std::string("a\0", 2), "a", std::string("a\0\0", 3)}, {std::string("\0a", 2), std::string("\0b", 2), "b"} }; dispatch(x, p, K[c], {std::string("a\0c", 3), std::string(2, '\0'), "ab", std::string("\0", 1) + "c"}, 1); }
PART("same-key-at-many-levels") { size_t depth = x.choose(12) + 1, p = x.choose(NP); x.go(); Val v = i64(0); for (size_t j = 0; j < depth; ++j) v = map({{"k", v}, {"j", i64(int64_t(j + 1))}}); auto run = [&]<class P> { if (!storable<P>(v)) return; auto e = encode<P>(v); mc::Bytes b(e); typename P::Deserializer d(b.span()); compare(x, v, d, mode_of<P>()); }; proto(p, run); }
int main(int c, char** v) { return mc::run_main(c, v, "C05"); }
