#include "tens.hpp"
namespace zx = z::xtensor;
using D = P::Deserializer;
template<class T> xt::xarray<T> make(const Shape& s) { xt::xarray<T> a = xt::xarray<T>::from_shape(s); for (size_t j = 0; j < a.size(); ++j) copy_elem(a.data()[j], elem<T>(j)); return a; }
// what must come back: shape and row-major elements
template<class T> struct Want { Shape s; std::vector<T> e; };
template<class T> Want<T> want(const xt::xarray<T>& a) { return {Shape(a.shape().begin(), a.shape().end()), std::vector<T>(a.data(), a.data() + a.size())}; }
template<class T> void is(mc::X& x, const xt::xarray<T>& a, const Want<T>& w) { x.op(2); if (Shape(a.shape().begin(), a.shape().end()) != w.s) x.fail("shape differs from " + show(w.s)); if (a.size() != w.e.size() || !same_bits(a.data(), w.e.data(), w.e.size())) x.fail("elements differ for shape " + show(w.s)); }
template<class T, class R> void read(mc::X& x, const R& r, const Want<T>& w) {
    is(x, zx::asXTensor<T>(r), w);
    auto v = zx::asXTensorView<T>(r); x.op(4); if (v.rank() != w.s.size() || Shape(v.shape().begin(), v.shape().end()) != w.s) x.fail("view shape differs"); is(x, v.array(), w);
    auto t = v.tensor(); if (t.size() != w.e.size() || t.dimension() != w.s.size()) x.fail("adapted tensor has another size"); if (!same_bits(&*t.data(), w.e.data(), w.e.size())) x.fail("adapted tensor elements differ"); for (size_t d = 0; d < w.s.size(); ++d) if (size_t(t.shape(d)) != w.s[d]) x.fail("adapted tensor shape differs");
    // a requested rank must match
    const size_t n = w.s.size(); auto rank = [&]<int K>(std::integral_constant<int, K>) { x.op(); if (n == size_t(K)) is(x, zx::asXTensor<T, K>(r), w); else if (!refuses([&]{ (void)zx::asXTensor<T, K>(r); })) x.fail("read with another rank than stored"); };
    rank(std::integral_constant<int, 0>{}); rank(std::integral_constant<int, 1>{}); rank(std::integral_constant<int, 2>{}); rank(std::integral_constant<int, 3>{});
}
template<class T, class X> void trip(mc::X& x, const X& t, const Want<T>& w, bool embed) {
    if (!embed) { auto b = z::serialize<P>(t); D d(b.buf()); is(x, zx::asXTensor<T>(d), w); read<T>(x, d, w); }
    else { auto b = z::serialize<P>(z::zvec("pre", t, z::zmap<"m", "t">(7, t), 2.5)); D d(b.buf()); read<T>(x, d[size_t(1)], w); read<T>(x, d[size_t(2)]["t"], w); x.check(d[size_t(3)].asDouble() == 2.5 && d.arraySize() == 4, "neighbours of a tensor differ"); }
}
static Shape any_shape(mc::X& x) { size_t r = x.choose(x.thorough ? 6 : 5); Shape s; for (size_t j = 0; j < r; ++j) s.push_back(x.choose(r == 5 ? 3 : r == 4 ? (x.thorough ? 4 : 3) : 5)); return s; }
PART("shapes") { size_t k = x.choose(TYPES); Shape s = any_shape(x); bool emb = x.flip(); x.go(); type_switch(k, [&]<class T>(T) { auto a = make<T>(s); trip<T>(x, a, want(a), emb); }); x.outcome(std::to_string(k) + show(s)); if (x.want_sample()) x.sample("dtype " + std::to_string(CODE[k]) + " shape " + show(s)); }
PART("sizes") { static const std::vector<Shape> S = { {5}, {7}, {15}, {16}, {17}, {31}, {32}, {33}, {63}, {255}, {256}, {257}, {1000}, {16, 16}, {1, 300}, {300, 1}, {3, 5, 7}, {2, 2, 2, 2, 2}, {1, 1, 1, 1, 1, 1}, {0, 5}, {5, 0}, {4096}, {65536}, {2, 0, 3}, {70000} }; size_t k = x.choose(TYPES); const Shape& s = S[x.choose(S.size())]; bool emb = x.flip(); x.go(); type_switch(k, [&]<class T>(T) { auto a = make<T>(s); trip<T>(x, a, want(a), emb); }); }
PART("huge-dimensions") { // empty tensors whose other dimension does not fit the stored width: exact or refused
    static const size_t H[] = {size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 3, size_t(1) << 40}; size_t h = H[x.choose(5)]; bool first = x.flip(); x.go(); Shape s = first ? Shape{h, 0} : Shape{0, h}; auto a = make<int16_t>(s); std::optional<z::ZBuffer> b; bool t = false; try { b.emplace(z::serialize<P>(a)); } catch (const z::SerializationError&) { t = true; } x.op(); if (t) { x.check(h >= size_t(1) << 32, "a representable dimension was refused"); return; } D d(b->buf()); is(x, zx::asXTensor<int16_t>(d), want(a)); }
PART("element-types") { // reading as another element type is refused
    size_t k = x.choose(TYPES), l = x.choose(TYPES); static const std::vector<Shape> S = { {}, {0}, {4}, {2, 2}, {8, 1}, {16} }; const Shape& s = S[x.choose(6)]; x.go();
    std::optional<z::ZBuffer> b; type_switch(k, [&]<class T>(T) { b.emplace(z::serialize<P>(make<T>(s))); }); D d(b->buf());
    type_switch(l, [&]<class U>(U) { x.op(3); if (k == l) { is(x, zx::asXTensor<U>(d), want(make<U>(s))); x.check(z::isTensor<U>(d), "isTensor false for the stored type"); return; } if (!refuses([&]{ (void)zx::asXTensor<U>(d); })) x.fail("read as another element type"); if (!refuses([&]{ (void)zx::asXTensorView<U>(d); })) x.fail("viewed as another element type"); x.check(!z::isTensor<U>(d), "isTensor true for another element type"); }); }
// ---- memory layouts and sub-views ------------------------------------------------------------------------
template<class T, class X> Want<T> want_of(const X& v) { Want<T> w; for (size_t j = 0; j < v.dimension(); ++j) w.s.push_back(size_t(v.shape()[j])); std::vector<size_t> i(w.s.size(), 0); if (count(w.s)) for (;;) { T e; copy_elem(e, T(v.element(i.begin(), i.end()))); w.e.push_back(e); size_t d = w.s.size(); while (d > 0 && ++i[d - 1] == w.s[d - 1]) i[--d] = 0; if (d == 0) break; } return w; }
template<class T, xt::layout_type L, class A> A lay(const Shape& s) { A a; if constexpr (requires { a.resize(s); }) a.resize(s); size_t n = 0; std::vector<size_t> i(s.size(), 0); if (count(s)) for (;;) { a.element(i.begin(), i.end()) = elem<T>(n++ * 3 + 1); size_t d = s.size(); while (d > 0 && ++i[d - 1] == s[d - 1]) i[--d] = 0; if (d == 0) break; } return a; }
template<class T> void layouts(mc::X& x, size_t kind, const Shape& s, bool emb) {
    using RM = xt::xarray<T, xt::layout_type::row_major>; using CM = xt::xarray<T, xt::layout_type::column_major>; using DY = xt::xarray<T, xt::layout_type::dynamic>;
    auto go = [&](const auto& t) { trip<T>(x, t, want_of<T>(t), emb); };
    switch (kind) { case 0: go(lay<T, xt::layout_type::row_major, RM>(s)); break; case 1: go(lay<T, xt::layout_type::column_major, CM>(s)); break;
        case 2: { DY a(s, xt::layout_type::column_major); size_t n = 0; for (size_t j = 0; j < a.size(); ++j) copy_elem(a.data()[j], elem<T>(n++)); go(a); break; } case 3: { DY a(s, xt::layout_type::row_major); for (size_t j = 0; j < a.size(); ++j) copy_elem(a.data()[j], elem<T>(j)); go(a); break; }
        case 4: if (s.size() == 2) { xt::xtensor<T, 2> a; a.resize({s[0], s[1]}); for (size_t j = 0; j < a.size(); ++j) copy_elem(a.data()[j], elem<T>(j)); go(a); } else throw mc::Prune{}; break;
        case 5: if (s.size() == 2) { xt::xtensor<T, 2, xt::layout_type::column_major> a; a.resize({s[0], s[1]}); for (size_t j = 0; j < a.size(); ++j) copy_elem(a.data()[j], elem<T>(j)); go(a); } else throw mc::Prune{}; break;
        case 6: { std::vector<T> mem(count(s)); for (size_t j = 0; j < mem.size(); ++j) copy_elem(mem[j], elem<T>(j)); auto a = xt::adapt(mem, s); go(a); break; }
        case 7: { std::vector<T> mem(count(s)); for (size_t j = 0; j < mem.size(); ++j) copy_elem(mem[j], elem<T>(j)); auto a = xt::adapt<xt::layout_type::column_major>(mem, s); go(a); break; }
        default: if (s.size() == 1 && s[0] == 3) { xt::xtensor_fixed<T, xt::xshape<3>> a; for (size_t j = 0; j < 3; ++j) copy_elem(a.data()[j], elem<T>(j)); go(a); } else if (s.size() == 2 && s[0] == 2 && s[1] == 3) { xt::xtensor_fixed<T, xt::xshape<2, 3>> a; for (size_t j = 0; j < 6; ++j) copy_elem(a.data()[j], elem<T>(j)); go(a); } else throw mc::Prune{}; }
}
template<class F> void few_types(size_t k, F&& f) {
    if (k == 0) f(uint8_t{});
#if PROTO < 3
    else f(double{});
#else
    else throw mc::Prune{};
#endif
}
PART("layouts") { size_t k = x.choose(2), kind = x.choose(9); Shape s = any_shape(x); bool emb = x.flip(); x.go(); few_types(k, [&]<class T>(T) { layouts<T>(x, kind, s, emb); }); }
PART("views-1d") { size_t n = x.choose(6), a = x.choose(6), b = x.choose(7), st = x.choose(3) + 1; if (a > n || b > n || b < a) throw mc::Prune{}; size_t k = x.choose(2); bool emb = x.flip(); x.go(); few_types(k, [&]<class T>(T) { auto m = make<T>({n}); if (st == 1) { auto v = xt::view(m, xt::range(a, b)); trip<T>(x, v, want_of<T>(v), emb); } else { auto v = xt::view(m, xt::range(a, b, st)); trip<T>(x, v, want_of<T>(v), emb); } }); }
PART("views-2d") { // every sub-rectangle of small matrices, with steps, over both storage orders
    size_t r = x.choose(4) + 1, c = x.choose(4) + 1, a = x.choose(r + 1), b = x.choose(r + 1), p = x.choose(c + 1), q = x.choose(c + 1); size_t st = x.choose(2) + 1; bool cm = x.flip(); if (b < a || q < p) throw mc::Prune{}; x.go(); using T = double;
    auto go = [&](auto& m) { auto v = xt::view(m, xt::range(a, b, st), xt::range(p, q)); trip<T>(x, v, want_of<T>(v), false); auto w = xt::view(m, xt::range(a, b), xt::range(p, q)); trip<T>(x, w, want_of<T>(w), true); if (a < r) { auto u = xt::view(m, a, xt::range(p, q)); trip<T>(x, u, want_of<T>(u), false); auto o = xt::view(m, a, xt::all()); trip<T>(x, o, want_of<T>(o), false); } if (p < c) { auto u = xt::view(m, xt::all(), p); trip<T>(x, u, want_of<T>(u), false); auto o = xt::view(m, xt::range(a, b), p); trip<T>(x, o, want_of<T>(o), false); } };
    if (cm) { auto m = lay<T, xt::layout_type::column_major, xt::xarray<T, xt::layout_type::column_major>>({r, c}); go(m); } else { auto m = make<T>({r, c}); go(m); } }
PART("views-derived") { size_t r = x.choose(4), c = x.choose(4), e = x.choose(3), kind = x.choose(5); bool cm = x.flip(); x.go(); using T = double;
    auto go = [&](auto& m) { if (kind == 0) { auto v = xt::transpose(m); trip<T>(x, v, want_of<T>(v), false); } else if (kind == 1) { auto v = xt::view(m, xt::all(), xt::all(), e ? e - 1 : 0); if (e) trip<T>(x, v, want_of<T>(v), false); } else if (kind == 2) { if (r) { auto v = xt::view(m, r - 1); trip<T>(x, v, want_of<T>(v), false); } } else if (kind == 3) { xt::xstrided_slice_vector sv{xt::all(), xt::all()}; auto v = xt::strided_view(m, sv); trip<T>(x, v, want_of<T>(v), false); } else if (r) { auto v = xt::strided_view(m, {r - 1, xt::all(), xt::ellipsis()}); trip<T>(x, v, want_of<T>(v), false); } };
    if (cm) { auto m = lay<T, xt::layout_type::column_major, xt::xarray<T, xt::layout_type::column_major>>({r, c, e}); go(m); } else { auto m = make<T>({r, c, e}); go(m); } }
PART("routes") { // wrapped in a dynamic value, in containers, and written twice
    Shape s = any_shape(x); size_t k = x.choose(2); x.go(); few_types(k, [&]<class T>(T) { auto a = make<T>(s); auto w = want(a); auto dv = z::dyn::map({{"x", z::dyn::serializable(a)}, {"y", 1}}); auto b = z::serialize<P>(dv); D d(b.buf()); read<T>(x, d["x"], w); auto c = z::serialize<P>(z::zvec(make<T>(s))); D e(c.buf()); read<T>(x, e[size_t(0)], w); auto st = z::zmap<"t">(make<T>(s)); auto f = z::serialize<P>(st); auto g = z::serialize<P>(st); D h(f.buf()), i(g.buf()); read<T>(x, h["t"], w); read<T>(x, i["t"], w); x.check(same_bits(a.data(), w.e.data(), w.e.size()), "a named tensor was consumed"); }); }
int main(int c, char** v) { return mc::run_main(c, v, "C13"); }
