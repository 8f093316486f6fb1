#pragma once
#include "val.hpp"
#include <list>
#include <unordered_map>
#include <zerialize/dynamic.hpp>
#include <zerialize/protocols/json.hpp>
#include <zerialize/protocols/cbor.hpp>
using namespace ref;
// A Writer that records the calls it receives, size announcements included: two descriptions with the same
// record are the same to every protocol.
namespace zerialize {
struct Rec {
    std::string* o; std::string& ev;
    explicit Rec(std::string& s) : o(&s), ev(s) {}
    [[gnu::noinline]] void put(char c, const void* p, size_t n) { ev += c; uint64_t m = n; ev.append(reinterpret_cast<const char*>(&m), 8); if (n) ev.append(static_cast<const char*>(p), n); }
    void null() { ev += 'n'; } void boolean(bool b) { ev += b ? 't' : 'f'; } void int64(int64_t v) { put('i', &v, 8); } void uint64(uint64_t v) { put('u', &v, 8); } void double_(double v) { put('d', &v, 8); }
    void string(std::string_view s) { put('s', s.data(), s.size()); } void binary(std::span<const std::byte> b) { put('b', b.data(), b.size()); } void key(std::string_view s) { put('k', s.data(), s.size()); }
    void begin_array(size_t n) { put('[', &n, 8); } void end_array() { ev += ']'; } void begin_map(size_t n) { put('{', &n, 8); } void end_map() { ev += '}'; }
};
}
[[gnu::noinline]] static std::string record(const Val& v) { std::string s; z::Rec r(s); emit(v, r); return s; }
// record of what `serialize` makes of t (builder or value)
template<class T> static std::string rec(T&& t) { std::string s; z::Rec r(s); if constexpr (z::Builder<std::remove_cvref_t<T>>) std::forward<T>(t)(r); else { using z::serialize; serialize(std::forward<T>(t), r); } return s; }
template<class T> static void same(mc::X& x, const Val& v, T&& t, const char* how) { x.op(); if (rec(std::forward<T>(t)) != record(v)) x.fail(std::string(how) + " describes another value than " + show(v)); }
template<class P> static std::vector<uint8_t> direct(const Val& v) { typename P::RootSerializer rs{}; typename P::Serializer w{rs}; emit(v, w); return copy_of(rs.finish()); }
template<class P, class T> static void bytes(mc::X& x, const Val& v, T&& t, const char* how) { x.op(); auto b = copy_of(z::serialize<P>(std::forward<T>(t))); if (b != direct<P>(v)) x.fail(std::string(P::Name) + ": " + how + " serializes to other bytes than direct calls for " + show(v)); }
template<class T> static void everywhere(mc::X& x, const Val& v, T&& t, const char* how) {
    same(x, v, t, how); bytes<z::Zera>(x, v, t, how); bytes<z::MsgPack>(x, v, t, how); bytes<z::Flex>(x, v, t, how); bytes<z::JSON>(x, v, t, how); bytes<z::CBOR>(x, v, t, how); same(x, v, std::forward<T>(t), how);
}
static std::vector<std::byte> bv(const std::string& s) { auto b = as_bytes(s); return {b.begin(), b.end()}; }

// ---- every supported element type, with the value it stands for ------------------------------------------
namespace user { struct Point { std::string name; double x; std::vector<int> tags; bool operator==(const Point&) const = default; };
template<z::Writer W> void serialize(const Point& p, W& w) { w.begin_map(3); w.key("name"); w.string(p.name); w.key("x"); w.double_(p.x); w.key("tags"); using z::serialize; serialize(p.tags, w); w.end_map(); } 
struct Wrap { Point p; std::map<std::string, Point> m; bool operator==(const Wrap&) const = default; };
template<z::Writer W> void serialize(const Wrap& p, W& w) { z::zvec(p.p, p.m)(w); } }
static Val point(const std::string& n, double x, std::vector<Val> t) { return map({{"name", str(n)}, {"x", dbl(x)}, {"tags", arr(std::move(t))}}); }
static const std::string LONG = fill(41, 5);   // beyond the small-string buffer, so that dead copies are visible
// ---- builders over one element type: value category x way of using the builder ----------------------------
template<class B> [[gnu::noinline]] static std::string once(B& b) { std::string s; z::Rec r(s); b(r); return s; }
static void must(mc::X& x, const Val& v, const std::string& got, const char* how) { x.op(); if (got != record(v)) x.fail(std::string(how) + " describes another value than " + show(v)); }
template<class M> static void uses(mc::X& x, const Val& v, size_t how, M&& make) { // make() builds a fresh builder
    using B = decltype(make());
    switch (how) {
        case 0: { std::string s; z::Rec r(s); make()(r); must(x, v, s, "a builder used at once"); break; }
        case 1: { B b = make(); must(x, v, once(b), "a stored builder"); must(x, v, once(b), "a builder used twice"); break; }
        case 2: { B b = make(); B c = b; must(x, v, once(b), "a copied builder"); must(x, v, once(c), "the copy of a builder"); must(x, v, once(b), "a copied builder used again"); break; }
        default: { auto p = std::make_unique<B>(make()); B q(std::move(*p)); p.reset(); must(x, v, once(q), "a builder moved out of a destroyed one"); must(x, v, once(q), "a builder moved out of a destroyed one, used twice"); break; }
    }
}
