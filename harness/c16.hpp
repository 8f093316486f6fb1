// Small programs over readers, writers, buffers, builders and tensors, cut into steps. A program logs everything it observes;
// its log must not depend on what else runs between its steps.
#pragma once
#include "val.hpp"
#include <zerialize/protocols/json.hpp>
#include <zerialize/protocols/cbor.hpp>
#include "cbref.hpp"
#include <zerialize/translate.hpp>
#include <zerialize/dynamic.hpp>
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#include <functional>
#include <optional>
using namespace ref;
using Bytes = std::vector<uint8_t>;
using Log = std::string;
struct Prog { std::vector<std::function<void(Log&)>> steps; std::shared_ptr<void> state; };
inline void put(Log& l, std::string_view s) { l += '<'; l += s; l += '>'; }
inline void num(Log& l, uint64_t v) { l += ' '; l += std::to_string(v); }
template<class B> void blobl(Log& l, const B& b) { put(l, std::string_view(reinterpret_cast<const char*>(std::data(b)), std::size(b))); }
template<class F> void guard(Log& l, F&& f) { try { f(); } catch (const std::exception& e) { l += "!"; l += e.what(); } }
// everything a reader shows, in its own order
template<class R> void dump(Log& l, const R& r) {
    const bool p[9] = { r.isNull(), r.isBool(), r.isInt(), r.isUInt(), r.isFloat(), r.isString(), r.isBlob(), r.isArray(), r.isMap() }; for (bool b : p) l += b ? '1' : '0';
    if (p[7]) { size_t n = r.arraySize(); num(l, n); for (size_t j = 0; j < n; ++j) dump(l, r[j]); }
    else if (p[8]) { for (std::string_view k : r.mapKeys()) { put(l, k); dump(l, r[k]); } }
    else if (p[5]) put(l, r.asStringView()); else if (p[6]) blobl(l, r.asBlob()); else if (p[1]) l += r.asBool() ? 't' : 'f';
    else if (p[2]) num(l, uint64_t(r.asInt64())); else if (p[3]) num(l, r.asUInt64()); else if (p[4]) num(l, std::bit_cast<uint64_t>(r.asDouble())); }
// `who` makes the contents of two participants differ everywhere while the shapes agree
inline Val doc(int who) { char c = char('a' + who); std::string s(1, c); return ref::map({{"m" + s, ref::map({{"k" + s, ref::str("text-" + s + fill(9, unsigned(who)))}, {"j" + s, ref::i64(-77 - who)}})}, {"arr", ref::arr({ref::u64(uint64_t(100 + who)), ref::blob(fill(21 + size_t(who), unsigned(who) + 5)), ref::dbl(1.25 + who), ref::str(fill(14, unsigned(who) + 2))})}, {"long-key-" + s + s + s + s + s + s, ref::boolean(who % 2)}}); }
#ifdef C16_BYTES   // supplied by another process, so that this one starts without having run any of the code under test
inline std::vector<Bytes> g_bytes[5]; template<class P> constexpr int proto_no() { return std::is_same_v<P, z::Zera> ? 0 : std::is_same_v<P, z::MsgPack> ? 1 : std::is_same_v<P, z::Flex> ? 2 : std::is_same_v<P, z::JSON> ? 3 : 4; }
template<class P> const Bytes& bytes(int who) { return g_bytes[proto_no<P>()][size_t(who)]; }
#else
template<class P> const Bytes& bytes(int who) { static const std::vector<Bytes> B = [] { std::vector<Bytes> v; for (int w = 0; w < 3; ++w) v.push_back(encode<P>(doc(w))); return v; }(); return B[size_t(who)]; }
#endif
// the calls of a document, one by one
template<class W> void calls(const Val& v, std::vector<std::function<void(W&)>>& out) { auto lf = [&](const Val& l) { out.push_back([l](W& w) { emit(l, w); }); };
    switch (v.k) { case Arr: { size_t n = v.a.size(); out.push_back([n](W& w) { w.begin_array(n); }); for (auto& c : v.a) calls<W>(c, out); out.push_back([](W& w) { w.end_array(); }); break; }
        case Map: { size_t n = v.a.size(); out.push_back([n](W& w) { w.begin_map(n); }); for (size_t j = 0; j < n; ++j) { std::string k = v.keys[j]; out.push_back([k](W& w) { std::string t = k; w.key(t); }); calls<W>(v.a[j], out); } out.push_back([](W& w) { w.end_map(); }); break; }
        default: lf(v); } }
// group the steps of a program so that there are at most n
inline Prog grouped(Prog p, size_t n) { if (p.steps.size() <= n) return p; Prog q; q.state = p.state; size_t t = p.steps.size(); for (size_t g = 0; g < n; ++g) { std::vector<std::function<void(Log&)>> part(p.steps.begin() + long(g * t / n), p.steps.begin() + long((g + 1) * t / n)); q.steps.push_back([part](Log& l) { for (auto& f : part) f(l); }); } return q; }
template<class P> Prog writer(const Val& v) {
    struct S { typename P::RootSerializer rs; typename P::Serializer w{rs}; std::optional<z::ZBuffer> out; }; auto s = std::make_shared<S>(); Prog p; p.state = s;
    std::vector<std::function<void(typename P::Serializer&)>> c; calls<typename P::Serializer>(v, c); for (auto& f : c) p.steps.push_back([s, f](Log&) { f(s->w); });
    p.steps.push_back([s](Log& l) { s->out.emplace(s->rs.finish()); num(l, s->out->size()); }); p.steps.push_back([s](Log& l) { auto b = s->out->buf(); blobl(l, b); }); return p; }
template<class P, class = void> struct ReaderProgs {
    using D = typename P::Deserializer; using C = std::decay_t<decltype(std::declval<const D&>()[size_t(0)])>;
    struct S { Bytes own; std::span<const uint8_t> b; std::optional<D> d; std::optional<C> m, c, e; std::string key; };
    static std::shared_ptr<S> st(int who, bool shared) { auto s = std::make_shared<S>(); if (!shared) { s->own = bytes<P>(who); s->b = s->own; } else s->b = bytes<P>(who); return s; }
    // descend, dropping the values in between, and read the same leaf twice
    static Prog nav(int who, bool shared) { auto s = st(who, shared); Prog p; p.state = s; std::string ch(1, char('a' + who));
        p.steps.push_back([s](Log&) { s->d.emplace(s->b); }); p.steps.push_back([s, ch](Log& l) { s->m.emplace((*s->d)["m" + ch]); l += s->m->isMap() ? 'm' : '?'; }); p.steps.push_back([s, ch](Log&) { s->c.emplace((*s->m)["k" + ch]); });
        p.steps.push_back([s](Log& l) { s->m.reset(); put(l, s->c->asStringView()); }); p.steps.push_back([s](Log& l) { put(l, s->c->asString()); }); p.steps.push_back([s](Log& l) { dump(l, *s->d); }); return p; }
    static Prog elems(int who, bool shared) { auto s = st(who, shared); Prog p; p.state = s; 
        p.steps.push_back([s](Log&) { s->d.emplace(s->b); s->m.emplace((*s->d)[std::string_view("arr")]); }); p.steps.push_back([s](Log& l) { num(l, s->m->arraySize()); s->c.emplace((*s->m)[size_t(1)]); }); p.steps.push_back([s](Log& l) { s->e.emplace((*s->m)[size_t(3)]); l += s->e->to_string(); });
        p.steps.push_back([s](Log& l) { blobl(l, s->c->asBlob()); num(l, (*s->m)[size_t(0)].asUInt64()); }); p.steps.push_back([s](Log& l) { guard(l, [&] { (void)(*s->m)[size_t(4)]; }); guard(l, [&] { (void)s->c->asInt64(); }); put(l, s->e->asStringView()); }); p.steps.push_back([s](Log& l) { blobl(l, s->c->asBlob()); l += s->m->to_string(); }); return p; }
    // key iteration stepped by hand; the view of the first key is read again at the end
    static Prog iter(int who, bool shared) { auto s = st(who, shared); using KS = std::decay_t<decltype(s->d->mapKeys())>; using It = std::decay_t<decltype(std::declval<KS&>().begin())>; struct T { std::optional<KS> ks; std::optional<It> it; std::string_view first; }; auto t = std::make_shared<T>(); Prog p; p.state = std::make_shared<std::pair<decltype(s), decltype(t)>>(s, t); std::string ch(1, char('a' + who));
        p.steps.push_back([s, t](Log&) { s->d.emplace(s->b); t->ks.emplace(s->d->mapKeys()); }); p.steps.push_back([t](Log& l) { t->it.emplace(t->ks->begin()); t->first = **t->it; put(l, t->first); }); p.steps.push_back([t](Log& l) { ++*t->it; put(l, **t->it); });
        p.steps.push_back([s, t, ch](Log& l) { l += s->d->contains("m" + ch) ? 'y' : 'n'; l += s->d->contains("zz") ? 'y' : 'n'; }); p.steps.push_back([t](Log& l) { ++*t->it; put(l, **t->it); ++*t->it; l += *t->it == t->ks->end() ? '.' : '?'; }); p.steps.push_back([t, s](Log& l) { put(l, t->first); dump(l, *s->d); }); return p; }
    template<class Q> static Prog translates(int who, bool shared) { auto s = st(who, shared); struct T { std::optional<typename Q::Deserializer> t; std::optional<z::ZBuffer> b; }; auto t = std::make_shared<T>(); Prog p; p.state = std::make_shared<std::pair<decltype(s), decltype(t)>>(s, t);
        p.steps.push_back([s](Log&) { s->d.emplace(s->b); }); p.steps.push_back([s, t](Log&) { t->t.emplace(z::translate<Q>(*s->d)); }); p.steps.push_back([t](Log& l) { dump(l, *t->t); }); p.steps.push_back([s](Log& l) { l += s->d->to_string(); }); p.steps.push_back([t](Log& l) { l += t->t->to_string(); dump(l, *t->t); }); return p; }
};
// a tensor and a plain value built, written, opened, viewed
template<class P> Prog tensors(int who) { struct S { xt::xtensor<float, 2> t; std::optional<z::ZBuffer> b; std::optional<typename P::Deserializer> d; }; auto s = std::make_shared<S>(); s->t = xt::xtensor<float, 2>::from_shape({2, 3}); for (size_t j = 0; j < 6; ++j) s->t.data()[j] = float(who * 10) + float(j); Prog p; p.state = s;
    p.steps.push_back([s, who](Log&) { s->b.emplace(z::serialize<P>(z::zmap<"t", "n", "u">(s->t, who, std::string("s") + char('a' + who)))); }); p.steps.push_back([s](Log&) { s->d.emplace(s->b->buf()); });
    p.steps.push_back([s](Log& l) { auto v = z::xtensor::asXTensor<float, 2>((*s->d)[std::string_view("t")]); for (size_t j = 0; j < 2; ++j) for (size_t k = 0; k < 3; ++k) num(l, std::bit_cast<uint32_t>(float(v(j, k)))); });
    p.steps.push_back([s](Log& l) { auto v = z::eigen::asEigenMatrix<float, Eigen::Dynamic, Eigen::Dynamic>((*s->d)[std::string_view("t")]); num(l, uint64_t(v.rows())); num(l, uint64_t(v.cols())); }); p.steps.push_back([s](Log& l) { num(l, uint64_t((*s->d)[std::string_view("n")].asInt64())); put(l, (*s->d)[std::string_view("u")].asStringView()); blobl(l, s->b->buf()); }); return p; }
// a dynamic value and a nested builder written by the one-call interface
template<class P> Prog builders(int who) { struct S { z::dyn::Value v; std::optional<z::ZBuffer> a, b; }; auto s = std::make_shared<S>(); Prog p; p.state = s;
    p.steps.push_back([s, who](Log&) { s->v = z::dyn::map({{"x" + std::to_string(who), z::dyn::array({int64_t(who), "v", 2.5})}, {"y", std::string(20, char('a' + who))}}); }); p.steps.push_back([s](Log&) { s->a.emplace(z::serialize<P>(s->v)); }); p.steps.push_back([s, who](Log&) { s->b.emplace(z::serialize<P>(z::zvec(who, "lit", z::zmap<"q">(std::string(5, char('p' + who)))))); });
    p.steps.push_back([s](Log& l) { blobl(l, s->a->buf()); }); p.steps.push_back([s](Log& l) { blobl(l, s->b->buf()); blobl(l, s->a->to_vector_copy()); }); return p; }
using Make = std::function<Prog(int who, bool shared)>;
struct Named { std::string name; Make make; };
template<class P, class Q> void progs_of(std::vector<Named>& v, const char* n) { auto add = [&](const char* k, Make m) { v.push_back({std::string(n) + "-" + k, std::move(m)}); };
    add("write-array", [](int w, bool) { return writer<P>(ref::arr({ref::str("t" + fill(13, unsigned(w))), ref::i64(-5 - w), ref::blob(fill(3 + size_t(w), unsigned(w)))})); });
    add("write-map", [](int w, bool) { std::string c(1, char('a' + w)); return writer<P>(ref::map({{"key-" + c, ref::str(fill(4, unsigned(w)))}, {c, ref::dbl(0.5 + w)}})); });
    add("write-nested", [](int w, bool) { return grouped(writer<P>(doc(w)), 7); });
    using R = ReaderProgs<P>; add("navigate", &R::nav); add("elements", &R::elems); add("iterate", &R::iter); add("translate", &R::template translates<Q>); add("tensor", [](int w, bool) { return tensors<P>(w); }); add("build", [](int w, bool) { return builders<P>(w); }); }
// CBOR documents of another producer: keys, strings and blobs in chunks, containers of indefinite length
inline Bytes chunked(int who) { cb::Out o; cb::enc(doc(who), o, [](size_t n) { return n - 1; }, true); return Bytes(o.begin(), o.end()); }
inline void chunked_progs(std::vector<Named>& v) { using D = z::CBOR::Deserializer; using KS = std::decay_t<decltype(std::declval<const D&>().mapKeys())>; using It = std::decay_t<decltype(std::declval<KS&>().begin())>; struct S { Bytes b; std::optional<D> d; std::optional<KS> ks; std::optional<It> it; std::string_view now; std::optional<D> m, c; };
    v.push_back({"cbor-chunked-iterate", [](int w, bool) { auto s = std::make_shared<S>(); s->b = chunked(w); Prog p; p.state = s; p.steps.push_back([s](Log&) { s->d.emplace(std::span<const uint8_t>(s->b)); s->ks.emplace(s->d->mapKeys()); s->it.emplace(s->ks->begin()); s->now = **s->it; });
        for (int j = 0; j < 3; ++j) p.steps.push_back([s, j](Log& l) { put(l, s->now); ++*s->it; if (j < 2) s->now = **s->it; else l += *s->it == s->ks->end() ? '.' : '?'; }); p.steps.push_back([s, w](Log& l) { l += s->d->contains(std::string("m") + char('a' + w)) ? 'y' : 'n'; l += s->d->to_string(); }); return p; }});
    v.push_back({"cbor-chunked-read", [](int w, bool) { auto s = std::make_shared<S>(); s->b = chunked(w); std::string ch(1, char('a' + w)); Prog p; p.state = s; p.steps.push_back([s, ch](Log&) { s->d.emplace(std::span<const uint8_t>(s->b)); s->m.emplace((*s->d)["m" + ch]); });
        p.steps.push_back([s, ch](Log& l) { put(l, (*s->m)["k" + ch].asString()); s->c.emplace((*s->d)[std::string_view("arr")]); }); p.steps.push_back([s](Log& l) { blobl(l, (*s->c)[size_t(1)].asBlobVec()); put(l, (*s->c)[size_t(3)].asString()); }); p.steps.push_back([s](Log& l) { guard(l, [&] { put(l, (*s->c)[size_t(3)].asStringView()); }); guard(l, [&] { blobl(l, (*s->c)[size_t(1)].asBlob()); }); }); p.steps.push_back([s](Log& l) { for (std::string_view k : s->d->mapKeys()) put(l, k); auto t = z::translate<z::Zera>(*s->d); dump(l, t); }); return p; }}); }
static const size_t PER = 9, CHUNKED = 5 * PER;
static const std::vector<Named>& progs() { static const std::vector<Named> V = [] { std::vector<Named> v; progs_of<z::Zera, z::MsgPack>(v, "zera"); progs_of<z::MsgPack, z::Flex>(v, "msgpack"); progs_of<z::Flex, z::Zera>(v, "flex"); progs_of<z::JSON, z::CBOR>(v, "json"); progs_of<z::CBOR, z::JSON>(v, "cbor"); chunked_progs(v); return v; }(); return V; }
inline Log alone(const Named& n, int who, bool shared) { Prog p = n.make(who, shared); Log l; for (auto& f : p.steps) guard(l, [&] { f(l); }); return l; }
