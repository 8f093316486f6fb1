#include "c12.hpp"
// ---- pairs of element types ------------------------------------------------------------------------------
template<class F> static void pk(size_t i, F&& f) { // the element types used in pairs
    switch (i) { case 0: f(-5, i64(-5)); break; case 1: f(std::string(LONG), str(LONG)); break; case 2: f(std::vector<std::string>{LONG, "x"}, arr({str(LONG), str("x")})); break; case 3: f(z::dyn::Value(z::dyn::array({LONG, 1})), arr({str(LONG), i64(1)})); break; case 4: f(user::Point{LONG, 1, {3}}, point(LONG, 1, {i64(3)})); break; default: f(z::zvec(std::string(LONG), 4), arr({str(LONG), i64(4)})); }
}
static Val pair_of(size_t c, const Val& a, const Val& b) { return c == 0 ? map({{"first", a}, {"second", b}}) : arr({b, map({{"q", a}})}); }
PART("pairs") { size_t a = x.choose(6), b = x.choose(6), how = x.choose(4), c = x.choose(2); x.go();
    pk(a, [&](auto A, const Val& va) { pk(b, [&](auto B, const Val& vb) { const Val w = pair_of(c, va, vb);
        if (c == 0) uses(x, w, how, [&] { return z::zmap<"first", "second">(A, auto(B)); }); else uses(x, w, how, [&] { return z::zvec(auto(B), z::zmap<"q">(A)); });
        same(x, arr({va}), z::zvec(A), "a named argument after use"); }); }); }
PART("arity") { size_t n = x.choose(9), m = x.choose(2), how = x.choose(4); x.go(); std::vector<Val> a; std::vector<std::pair<std::string, Val>> p; const std::vector<std::string> K = {"a", "", "kk", "A", "\xc3\xa9", "with space", "a2", fill(0, 0) + "last"}; for (size_t j = 0; j < n; ++j) { a.push_back(j % 2 ? str(fill(30 + j, unsigned(j))) : i64(int64_t(j))); p.push_back({K[j], a.back()}); }
    auto s = [](size_t j) { return fill(30 + j, unsigned(j)); };
    if (m == 0) switch (n) { case 0: uses(x, arr(a), how, [&] { return z::zvec(); }); break; case 1: uses(x, arr(a), how, [&] { return z::zvec(0); }); break; case 2: uses(x, arr(a), how, [&] { return z::zvec(0, s(1)); }); break; case 3: uses(x, arr(a), how, [&] { return z::zvec(0, s(1), 2); }); break; case 4: uses(x, arr(a), how, [&] { return z::zvec(0, s(1), 2, s(3)); }); break; case 5: uses(x, arr(a), how, [&] { return z::zvec(0, s(1), 2, s(3), 4); }); break; case 6: uses(x, arr(a), how, [&] { return z::zvec(0, s(1), 2, s(3), 4, s(5)); }); break; case 7: uses(x, arr(a), how, [&] { return z::zvec(0, s(1), 2, s(3), 4, s(5), 6); }); break; default: uses(x, arr(a), how, [&] { return z::zvec(0, s(1), 2, s(3), 4, s(5), 6, s(7)); }); }
    else switch (n) { case 0: uses(x, map(p), how, [&] { return z::zmap<>(); }); break; case 1: uses(x, map(p), how, [&] { return z::zmap<"a">(0); }); break; case 2: uses(x, map(p), how, [&] { return z::zmap<"a", "">(0, s(1)); }); break; case 3: uses(x, map(p), how, [&] { return z::zmap<"a", "", "kk">(0, s(1), 2); }); break; case 4: uses(x, map(p), how, [&] { return z::zmap<"a", "", "kk", "A">(0, s(1), 2, s(3)); }); break; case 5: uses(x, map(p), how, [&] { return z::zmap<"a", "", "kk", "A", "\xc3\xa9">(0, s(1), 2, s(3), 4); }); break; case 6: uses(x, map(p), how, [&] { return z::zmap<"a", "", "kk", "A", "\xc3\xa9", "with space">(0, s(1), 2, s(3), 4, s(5)); }); break; case 7: uses(x, map(p), how, [&] { return z::zmap<"a", "", "kk", "A", "\xc3\xa9", "with space", "a2">(0, s(1), 2, s(3), 4, s(5), 6); }); break; default: uses(x, map(p), how, [&] { return z::zmap<"a", "", "kk", "A", "\xc3\xa9", "with space", "a2", "last">(0, s(1), 2, s(3), 4, s(5), 6, s(7)); }); } }
PART("fixed-keys") { // compile-time keys with unusual bytes
    size_t p = x.choose(2); x.go(); Val v = map({{std::string("a\0b", 3), i64(1)}, {std::string("\0", 1), i64(2)}, {"forty-one characters, more than any inline", i64(3)}, {"\xff\x80", i64(4)}}); auto b = z::zmap<"a\0b", "\0", "forty-one characters, more than any inline", "\xff\x80">(1, 2, 3, 4); same(x, v, b, "compile-time keys"); if (p) { bytes<z::Zera>(x, v, b, "compile-time keys"); bytes<z::MsgPack>(x, v, b, "compile-time keys"); } }
PART("nested-builders") { // all array/map nestings of depth <= 5 around temporaries, stored
    size_t d = x.choose(5) + 1, pat = x.choose(size_t(1) << d), how = x.choose(4); x.go(); Val v = str(LONG); for (size_t j = 0; j < d; ++j) v = (pat >> j) & 1 ? map({{"k", v}, {"t", u64(9)}}) : arr({i64(-1), v});
    auto rec_build = [&]<size_t D>(auto& self, std::integral_constant<size_t, D>, auto&& b, auto&& fin) -> void { if (D == d) { if constexpr (D > 0) fin(b); } else if constexpr (D < 5) { if ((pat >> D) & 1) self(self, std::integral_constant<size_t, D + 1>{}, z::zmap<"k", "t">(auto(b), 9u), fin); else self(self, std::integral_constant<size_t, D + 1>{}, z::zvec(-1, auto(b)), fin); } };
    rec_build(rec_build, std::integral_constant<size_t, 0>{}, std::string(LONG), [&](auto& b) { uses(x, v, how, [&] { return auto(b); }); }); }
int main(int c, char** v) { return mc::run_main(c, v, "C12"); }
