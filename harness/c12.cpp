#include "c12.hpp"
using namespace std::string_literals; using namespace std::string_view_literals;
template<class F> static void ekind(size_t i, F&& f) { // representative element types
    switch (i) {
        case 0: f(nullptr, null()); break;
        case 1: f(int(INT32_MIN), i64(INT32_MIN)); break;
        case 2: f(0.1, dbl(0.1)); break;
        case 3: f(static_cast<const char*>("c string"), str("c string")); break;
        case 4: f("view\0nul"sv, str("view\0nul"s)); break;
        case 5: f(LONG, str(LONG)); break;
        case 6: f(bv(LONG), blob(LONG)); break;
        case 7: f(std::vector<int>{1, -2, 3}, arr({i64(1), i64(-2), i64(3)})); break;
        case 8: f(std::list<std::string>{LONG, "", "b"}, arr({str(LONG), str(""), str("b")})); break;
        case 9: f(std::map<std::string, int>{{"b", 2}, {"a", 1}, {"", 0}}, map({{"", i64(0)}, {"a", i64(1)}, {"b", i64(2)}})); break;
        case 10: f(std::vector<std::map<std::string, bool>>{{{"t", true}}, {}}, arr({map({{"t", boolean(true)}}), map()})); break;
        case 11: f(user::Point{LONG, 2.5, {1, 2}}, point(LONG, 2.5, {i64(1), i64(2)})); break;
        case 12: f(user::Wrap{{LONG, 1, {}}, {{"m", {"q", 0.25, {5}}}}}, arr({point(LONG, 1, {}), map({{"m", point("q", 0.25, {i64(5)})}})})); break;
        case 13: f(z::dyn::Value(z::dyn::map({{"a", 1}, {LONG, z::dyn::array({LONG, nullptr, 2u})}})), map({{"a", i64(1)}, {LONG, arr({str(LONG), null(), u64(2)})}})); break;
        case 14: f(std::vector<z::dyn::Value>{LONG, 1.5, false}, arr({str(LONG), dbl(1.5), boolean(false)})); break;
        case 15: f(arr({str(LONG), map({{"z", blob(LONG)}})}), arr({str(LONG), map({{"z", blob(LONG)}})})); break;
    } }
template<class T> constexpr bool k_comparable = requires(const T& a) { bool(a == a); } && !std::is_same_v<T, std::vector<z::dyn::Value>>;
static void sampled(mc::X& x, const Val& v) { if (x.want_sample()) x.sample(show(v)); x.outcome(show(v)); }
static Val expected(size_t cx, const Val& v) { return cx == 0 ? arr({v}) : cx == 1 ? map({{"a", arr({v})}, {"", map({{"in", v}})}}) : arr({i64(1), arr({arr({v})}), map({{"z", v}}), str("end")}); }
PART("elements") { size_t k = x.choose(16), how = x.choose(4), cat = x.choose(3), cx = x.choose(3); x.go();
    ekind(k, [&](const auto& val, const Val& v) {
        using T = std::remove_cvref_t<decltype(val)>; T named = val; const T& cnamed = named; const Val w = expected(cx, v);
#define CTX(E) switch (cx) { case 0: uses(x, w, how, [&] { return z::zvec(E); }); break; case 1: uses(x, w, how, [&] { return z::zmap<"a", "">(z::zvec(E), z::zmap<"in">(E)); }); break; default: uses(x, w, how, [&] { return z::zvec(1, z::zvec(z::zvec(E)), z::zmap<"z">(E), "end"); }); }
        if (cat == 0) { CTX(named) } else if (cat == 1) { CTX(T(cnamed)) } else { CTX(cnamed) }
        same(x, v, named, "a named argument after use"); if constexpr (k_comparable<T>) { x.op(); x.check(bool(named == val), "an argument passed by name was consumed"); }
        sampled(x, v); }); }
int main(int c, char** v) { return mc::run_main(c, v, "C12"); }
