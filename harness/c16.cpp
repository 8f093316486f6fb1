// C16: interleavings of whole operations, repeated reads, and the order in which values are destroyed.
#include "c16.hpp"
static std::string diff(const Log& a, const Log& b) { size_t j = 0; while (j < a.size() && j < b.size() && a[j] == b[j]) ++j; auto part = [&](const Log& l) { std::string s = l.substr(j < 10 ? 0 : j - 10, 50); for (char& c : s) if (c < ' ' || c > '~') c = '?'; return s; }; return "alone ..." + part(a) + "..., interleaved ..." + part(b) + "..."; }
// all interleavings of the programs: at each point any unfinished participant may take its next step
static void merge(mc::X& x, const std::vector<std::pair<size_t, int>>& who, bool shared, size_t cap) { const auto& P = progs(); std::vector<Prog> p; std::vector<Log> l(who.size()), want; std::vector<size_t> at(who.size(), 0);
    for (auto& [k, w] : who) { p.push_back(grouped(P[k].make(w, shared), cap)); }
    // the schedule is chosen first: a schedule is a word with one letter per step
    std::vector<size_t> left; for (auto& q : p) left.push_back(q.steps.size()); std::vector<size_t> sched; size_t switches = 0; for (;;) { std::vector<size_t> en; for (size_t j = 0; j < left.size(); ++j) if (left[j]) en.push_back(j); if (en.empty()) break; size_t j = en[en.size() == 1 ? 0 : x.choose(en.size())]; if (!sched.empty() && sched.back() != j) ++switches; sched.push_back(j); --left[j]; }
    static std::map<std::tuple<size_t, int, bool>, Log> solo; 
    for (size_t j : sched) { x.op(); guard(l[j], [&] { p[j].steps[at[j]](l[j]); }); ++at[j]; }
    for (size_t j = 0; j < who.size(); ++j) { auto key = std::make_tuple(who[j].first, who[j].second, shared); auto it = solo.find(key); if (it == solo.end()) it = solo.emplace(key, alone(P[who[j].first], who[j].second, shared)).first; if (it->second != l[j]) x.fail("participant " + std::to_string(j) + " (" + P[who[j].first].name + ") sees something else: " + diff(it->second, l[j])); }
    if (shared) for (auto& [k, w] : who) { const Bytes* b[] = {&bytes<z::Zera>(w), &bytes<z::MsgPack>(w), &bytes<z::Flex>(w), &bytes<z::JSON>(w), &bytes<z::CBOR>(w)}; static std::map<std::pair<size_t, int>, Bytes> first; auto r = first.emplace(std::make_pair(k / PER, w), *b[k / PER]); if (r.first->second != *b[k / PER]) x.fail("the bytes being read changed"); }
    if (x.want_sample()) { std::string s; for (size_t j : sched) s += char('A' + j); x.sample(P[who[0].first].name + " with " + P[who[1].first].name + " schedule " + s); } x.outcome(std::to_string(switches)); }
PART("pairs-same-protocol") { size_t p = x.choose(5), a = x.choose(PER), b = x.choose(PER); if (b < a) throw mc::Prune{}; x.go(); merge(x, {{p * PER + a, 0}, {p * PER + b, 1}}, false, x.thorough ? 7 : 6); }
PART("pairs-same-bytes") { size_t p = x.choose(5), a = 3 + x.choose(4), b = 3 + x.choose(4); if (b < a) throw mc::Prune{}; x.go(); merge(x, {{p * PER + a, 0}, {p * PER + b, 0}}, true, x.thorough ? 6 : 5); }
PART("pairs-across-protocols") { size_t a = x.choose(5 * PER), b = x.choose(5 * PER); if (b / PER <= a / PER) throw mc::Prune{}; x.go(); merge(x, {{a, 0}, {b, 1}}, false, x.thorough ? 6 : 4); }
PART("triples") { size_t p = x.choose(5), a = x.choose(PER), b = x.choose(PER), c = x.choose(PER); if (b < a || c < b) throw mc::Prune{}; x.go(); merge(x, {{p * PER + a, 0}, {p * PER + b, 1}, {p * PER + c, 2}}, false, x.thorough ? 3 : 2); }
PART("chunked-documents") { size_t a = x.choose(2), b = x.choose(2), t = x.choose(3); if (b < a) throw mc::Prune{}; x.go(); if (t == 0) merge(x, {{CHUNKED + a, 0}, {CHUNKED + b, 1}}, false, 6); else if (t == 1) merge(x, {{CHUNKED + a, 0}, {CHUNKED + b, 0}}, false, 6); else merge(x, {{CHUNKED + a, 0}, {CHUNKED + b, 1}, {CHUNKED + a, 2}}, false, 3); }
PART("chunked-with-others") { size_t a = x.choose(2), b = x.choose(5 * PER); x.go(); merge(x, {{CHUNKED + a, 0}, {b, 1}}, false, 4); }
PART_T("writers-step-by-step") { size_t p = x.choose(5), a = x.choose(2), b = x.choose(2); if (b < a) throw mc::Prune{}; x.go(); merge(x, {{p * PER + a, 0}, {p * PER + b, 1}}, false, 8); }
// ---- repeated reads -----------------------------------------------------------------------------------------------------------------
static const std::vector<Val>& values() { static const std::vector<Val> V = { ref::null(), ref::boolean(true), ref::i64(-300), ref::u64(70000), ref::dbl(3.25), ref::str(""), ref::str(fill(40)), ref::blob(fill(19)), ref::arr({}), ref::map({}), ref::arr({ref::i64(1), ref::str(fill(20)), ref::arr({ref::blob(fill(17))}), ref::map({{"q", ref::null()}})}), ref::map({{"a", ref::i64(1)}, {"a-key-longer-than-a-few-bytes", ref::str(fill(33))}, {"c", ref::arr({ref::u64(2), ref::dbl(0.5)})}, {"d", ref::map({{"a", ref::blob(fill(5))}})}}) }; return V; }
static const size_t READS = 22;
template<class R> void read_op(Log& l, const R& r, size_t op) { guard(l, [&] { switch (op) {
    case 0: l += r.isNull() ? 't' : 'f'; break; case 1: l += r.isMap() ? 't' : 'f'; break; case 2: l += r.isArray() ? 't' : 'f'; break; case 3: l += r.isString() ? 't' : 'f'; break; case 4: l += r.isBlob() ? 't' : 'f'; break;
    case 5: num(l, uint64_t(r.asInt64())); break; case 6: num(l, r.asUInt64()); break; case 7: num(l, uint64_t(int64_t(r.asInt8()))); break; case 8: num(l, std::bit_cast<uint64_t>(r.asDouble())); break; case 9: l += r.asBool() ? 't' : 'f'; break;
    case 10: put(l, r.asString()); break; case 11: put(l, r.asStringView()); break; case 12: blobl(l, r.asBlob()); break; case 13: num(l, r.arraySize()); break;
    case 14: for (std::string_view k : r.mapKeys()) put(l, k); break; case 15: l += r.contains("a") ? 't' : 'f'; break; case 16: l += r.contains("zz") ? 't' : 'f'; break; case 17: dump(l, r[std::string_view("a")]); break;
    case 18: dump(l, r[std::string_view("d")]); break; case 19: dump(l, r[size_t(0)]); break; case 20: dump(l, r[size_t(2)]); break; default: l += r.to_string(); } }); }
template<class P> void repeats(mc::X& x, size_t len) { const Val& v = x.pick(values()); int ctx = int(x.choose(2)); std::vector<size_t> ops; for (size_t j = 0; j < len; ++j) ops.push_back(x.choose(READS)); x.go();
    static std::map<std::pair<const Val*, int>, std::pair<Bytes, std::vector<Log>>> memo; auto& m = memo[{&v, ctx}]; const Val whole = ctx ? ref::map({{"before", ref::str(fill(6))}, {"v", v}, {"after", ref::i64(9)}}) : v; using D = typename P::Deserializer;
    if (m.second.empty()) { m.first = encode<P>(whole); for (size_t o = 0; o < READS; ++o) { Bytes b = m.first; Log l; D d{std::span<const uint8_t>(b)}; if (ctx) { auto c = d[std::string_view("v")]; read_op(l, c, o); } else read_op(l, d, o); m.second.push_back(l); } }
    Bytes b = m.first; D d{std::span<const uint8_t>(b)}; auto all = [&](const auto& r) { for (size_t o : ops) { Log l; x.op(); read_op(l, r, o); if (l != m.second[o]) x.fail("read " + std::to_string(o) + " of " + show(whole).substr(0, 150) + " differs after other reads: " + diff(m.second[o], l)); } };
    if (ctx) { auto c = d[std::string_view("v")]; all(c); } else all(d); if (b != m.first) x.fail("reading changed the bytes"); if (x.want_sample()) x.sample(show(whole).substr(0, 120)); x.outcome(std::to_string(ops.front())); }
PART("repeated-zera") { repeats<z::Zera>(x, x.thorough ? 4 : 3); }
PART("repeated-msgpack") { repeats<z::MsgPack>(x, x.thorough ? 4 : 3); }
PART("repeated-flex") { repeats<z::Flex>(x, x.thorough ? 4 : 3); }
PART("repeated-json") { repeats<z::JSON>(x, x.thorough ? 4 : 3); }
PART("repeated-cbor") { repeats<z::CBOR>(x, x.thorough ? 4 : 3); }
// ---- values outlive the values they were taken from -------------------------------------------------------------------------------------
// a chain of four values and a sibling at each level; they are destroyed in every order, and what is left is read after each destruction
template<class P> void outlive(mc::X& x) { using D = typename P::Deserializer; using C = std::decay_t<decltype(std::declval<const D&>()[size_t(0)])>; int shape = int(x.choose(3)); std::vector<size_t> order = {0, 1, 2, 3, 4, 5}, perm; while (!order.empty()) { size_t j = x.choose(order.size()); perm.push_back(order[j]); order.erase(order.begin() + long(j)); } const bool root_too = std::is_same_v<P, z::JSON> ? false : x.flip(); x.go();
    auto wrap = [&](Val in, int lv) { std::string k = "k" + std::to_string(lv); return shape == 0 || (shape == 2 && lv % 2) ? ref::arr({ref::str(fill(15, unsigned(lv))), std::move(in)}) : ref::map({{"sib", ref::str(fill(15, unsigned(lv)))}, {"in", std::move(in)}}); };
    Val inner = ref::map({{"leaf", ref::blob(fill(18))}, {"n", ref::i64(-9)}}); Val v3 = wrap(inner, 3), v2 = wrap(v3, 2), v1 = wrap(v2, 1); Bytes b = encode<P>(v1); const Bytes orig = b; std::optional<D> d; d.emplace(std::span<const uint8_t>(b));
    auto in = [&](const auto& r) { return r.isArray() ? r[size_t(1)] : r[std::string_view("in")]; }; auto sib = [&](const auto& r) { return r.isArray() ? r[size_t(0)] : r[std::string_view("sib")]; };
    auto a = std::make_unique<C>(in(*d)); auto e = std::make_unique<C>(in(*a)); auto f = std::make_unique<C>(in(*e)); auto s1 = std::make_unique<C>(sib(*d)); auto s2 = std::make_unique<C>(sib(*a)); auto g = std::make_unique<C>((*f)[std::string_view("leaf")]); std::unique_ptr<C>* all[6] = {&a, &e, &f, &s1, &s2, &g};
    std::string_view sv = s2->asStringView(); auto blob = g->asBlob(); std::string sv0(sv); std::string blob0(reinterpret_cast<const char*>(std::data(blob)), std::size(blob)); std::vector<Log> want; for (auto* q : all) { Log l; dump(l, **q); want.push_back(l); }
    if (root_too) d.reset();
    for (size_t k : perm) { all[k]->reset(); for (size_t j = 0; j < 6; ++j) if (*all[j]) { Log l; x.op(); dump(l, **all[j]); if (l != want[j]) x.fail("a value differs after another one was destroyed: " + diff(want[j], l)); } x.check(sv == sv0, "a string view changed when a value was destroyed"); x.check(std::size(blob) == blob0.size() && std::memcmp(std::data(blob), blob0.data(), blob0.size()) == 0, "a blob changed when a value was destroyed"); }
    if (b != orig) x.fail("reading changed the bytes"); if (x.want_sample()) x.sample("destruction order"); x.outcome(std::to_string(perm[0])); }
PART("outlive-zera") { outlive<z::Zera>(x); }
PART("outlive-msgpack") { outlive<z::MsgPack>(x); }
PART("outlive-flex") { outlive<z::Flex>(x); }
PART("outlive-json") { outlive<z::JSON>(x); }
PART("outlive-cbor") { outlive<z::CBOR>(x); }
// iterators of the same keys advance independently: every interleaving of two or three hand-stepped iterations
template<class P> void iterators(mc::X& x, bool foreign = false) { size_t n = x.choose(3) + 1, its = x.choose(2) + 2; if (its == 3 && n > 2) throw mc::Prune{}; const bool two = x.flip(); std::vector<size_t> at(its, 0), sched; for (;;) { std::vector<size_t> en; for (size_t j = 0; j < its; ++j) if (at[j] <= n) en.push_back(j); if (en.empty()) break; size_t j = en[en.size() == 1 ? 0 : x.choose(en.size())]; ++at[j]; sched.push_back(j); } x.go();
    using D = typename P::Deserializer; std::vector<Bytes> b; std::vector<std::unique_ptr<D>> ds; std::vector<std::vector<std::string>> order; for (size_t q = 0; q < (two ? 2u : 1u); ++q) { std::vector<std::pair<std::string, Val>> m; for (size_t j = 0; j < n; ++j) m.push_back({std::string(1 + j * 9, char('a' + j + q * 10)), ref::arr({ref::i64(int64_t(j))})}); Val v = ref::map(m); if (foreign) { cb::Out o; cb::enc(v, o, [](size_t k) { return k - 1; }, true); b.emplace_back(o.begin(), o.end()); } else b.push_back(encode<P>(v)); }
    for (auto& e : b) { ds.push_back(std::make_unique<D>(std::span<const uint8_t>(e))); order.emplace_back(); for (std::string_view k : ds.back()->mapKeys()) order.back().emplace_back(k); }
    using KS = std::decay_t<decltype(ds[0]->mapKeys())>; using It = std::decay_t<decltype(std::declval<KS&>().begin())>; std::vector<std::unique_ptr<KS>> ks; std::vector<std::unique_ptr<It>> it; std::vector<std::string_view> held(its); for (size_t j = 0; j < its; ++j) { ks.push_back(std::make_unique<KS>(ds[j % ds.size()]->mapKeys())); it.push_back(std::make_unique<It>(ks[j]->begin())); } std::fill(at.begin(), at.end(), 0);
    for (size_t j = 0; j < its; ++j) held[j] = **it[j];
    for (size_t j : sched) { x.op(); const auto& want = order[j % ds.size()]; const D& d = *ds[j % ds.size()]; if (at[j] < n) { x.check(!(*it[j] == ks[j]->end()), "an iteration ended early"); if (held[j] != want[at[j]]) x.fail("a key changed while another iteration advanced"); std::string k(**it[j]); if (k != want[at[j]]) x.fail("an interleaved iteration shows another key: " + k); x.check(d[std::string_view(k)].arraySize() == 1, "lookup during iteration differs"); ++*it[j]; if (at[j] + 1 < n) held[j] = **it[j]; } else x.check(*it[j] == ks[j]->end(), "an iteration did not end"); ++at[j]; } x.outcome(std::to_string(sched.size())); }
PART("iterators-zera") { iterators<z::Zera>(x); }
PART("iterators-msgpack") { iterators<z::MsgPack>(x); }
PART("iterators-flex") { iterators<z::Flex>(x); }
PART("iterators-json") { iterators<z::JSON>(x); }
PART("iterators-cbor") { iterators<z::CBOR>(x); }
PART("iterators-cbor-chunked") { iterators<z::CBOR>(x, true); }
int main(int c, char** v) { return mc::run_main(c, v, "C16"); }
