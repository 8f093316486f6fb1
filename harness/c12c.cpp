#include "c12.hpp"
static const size_t KINDS = 46 + 40;
template<class F> static void kind(size_t k, F&& f) { // f(value, model)
    using namespace std::string_literals; using namespace std::string_view_literals;
    switch (k) {
        case 0: f(nullptr, null()); break; case 1: f(true, boolean(true)); break; case 2: f(false, boolean(false)); break;
        case 3: f(char('a'), i64('a')); break; case 4: f(char(-1), i64(-1)); break; case 5: f((signed char)-128, i64(-128)); break; case 6: f((unsigned char)255, u64(255)); break;
        case 7: f(short(-32768), i64(-32768)); break; case 8: f((unsigned short)65535, u64(65535)); break; case 9: f(int(INT32_MIN), i64(INT32_MIN)); break; case 10: f(unsigned(UINT32_MAX), u64(UINT32_MAX)); break;
        case 11: f(long(INT64_MIN), i64(INT64_MIN)); break; case 12: f((unsigned long)UINT64_MAX, u64(UINT64_MAX)); break; case 13: f((long long)INT64_MAX, i64(INT64_MAX)); break; case 14: f((unsigned long long)(1ull << 63), u64(1ull << 63)); break;
        case 15: f(0.1f, dbl(double(0.1f))); break; case 16: f(0.1, dbl(0.1)); break; case 17: f(-0.0, dbl_bits(1ull << 63)); break;
        case 18: f(static_cast<const char*>("c string"), str("c string")); break; case 19: f("view\0nul"sv, str("view\0nul"s)); break; case 20: f(LONG, str(LONG)); break; case 21: f(std::string("\0x\xff", 3), str(std::string("\0x\xff", 3))); break;
        case 22: f(bv(LONG), blob(LONG)); break; case 23: f(std::vector<std::byte>{}, blob("")); break; case 24: { static const auto keep = bv("span"); f(std::span<const std::byte>(keep), blob("span")); break; }
        case 25: f(std::vector<int>{1, -2, 3}, arr({i64(1), i64(-2), i64(3)})); break; case 26: f(std::vector<uint8_t>{1, 255}, arr({u64(1), u64(255)})); break; case 27: f(std::vector<bool>{true, false, true}, arr({boolean(true), boolean(false), boolean(true)})); break;
        case 28: f(std::list<std::string>{LONG, "", "b"}, arr({str(LONG), str(""), str("b")})); break; case 29: f(std::array<double, 2>{1.5, -2.5}, arr({dbl(1.5), dbl(-2.5)})); break; case 30: f(std::array<int, 0>{}, arr()); break; case 31: f(std::vector<std::vector<std::string>>{{LONG}, {}, {"x", "y"}}, arr({arr({str(LONG)}), arr(), arr({str("x"), str("y")})})); break;
        case 32: f(std::map<std::string, int>{{"b", 2}, {"a", 1}, {"", 0}}, map({{"", i64(0)}, {"a", i64(1)}, {"b", i64(2)}})); break; case 33: f(std::unordered_map<std::string, std::string>{{LONG, LONG}}, map({{LONG, str(LONG)}})); break; case 34: f(std::map<std::string, std::vector<double>>{{"v", {0.5}}}, map({{"v", arr({dbl(0.5)})}})); break;
        case 35: f(std::vector<std::map<std::string, bool>>{{{"t", true}}, {}}, arr({map({{"t", boolean(true)}}), map()})); break; case 36: f(std::vector<std::vector<std::byte>>{bv("one"), bv("")}, arr({blob("one"), blob("")})); break; case 37: f(std::map<std::string_view, const char*>{{"k", "v"}}, map({{"k", str("v")}})); break;
        case 38: f(user::Point{LONG, 2.5, {1, 2}}, point(LONG, 2.5, {i64(1), i64(2)})); break; case 39: f(std::vector<user::Point>{{"p", 1, {}}, {LONG, 2, {7}}}, arr({point("p", 1, {}), point(LONG, 2, {i64(7)})})); break;
        case 40: f(user::Wrap{{LONG, 1, {}}, {{"m", {"q", 0.25, {5}}}}}, arr({point(LONG, 1, {}), map({{"m", point("q", 0.25, {i64(5)})}})})); break;
        case 41: f(z::dyn::Value(z::dyn::map({{"a", 1}, {LONG, z::dyn::array({LONG, nullptr, 2u})}})), map({{"a", i64(1)}, {LONG, arr({str(LONG), null(), u64(2)})}})); break; case 42: f(std::vector<z::dyn::Value>{LONG, 1.5, false}, arr({str(LONG), dbl(1.5), boolean(false)})); break; case 43: f(z::dyn::serializable(user::Point{LONG, 3, {}}), point(LONG, 3, {})); break;
        case 44: f(arr({str(LONG), map({{"z", blob(LONG)}})}), arr({str(LONG), map({{"z", blob(LONG)}})})); break;
        case 45: f(std::list<std::list<int>>{{1}, {}}, arr({arr({i64(1)}), arr()})); break;
        default: { // every numeric type at its own boundaries
            auto at = [&]<class T>(T*, size_t j) { using L = std::numeric_limits<T>; if constexpr (std::is_floating_point_v<T>) { const T V[] = {T(-0.0), T(0), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::min(), L::epsilon(), T(16777217), T(1) / T(3)}; f(V[j], dbl(double(V[j]))); } else { const T V[] = {L::min(), L::max(), T(0), T(-1), T(L::min() + 1)}; if constexpr (std::is_signed_v<T>) f(V[j], i64(V[j])); else f(V[j], u64(V[j])); } };
            size_t j = k - 46; if (j < 10) at((float*)0, j); else if (j < 20) at((double*)0, j - 10); else switch ((j - 20) / 5) { case 0: at((int16_t*)0, j % 5); break; case 1: at((uint16_t*)0, j % 5); break; case 2: at((long long*)0, j % 5); break; default: at((unsigned long long*)0, j % 5); } } break;
    }
}
PART("roots") { // every element type as the root value
    size_t k = x.choose(KINDS); x.go(); kind(k, [&](const auto& val, const Val& v) { auto named = val; same(x, v, named, "a root value"); same(x, v, val, "a const root value"); bytes<z::Zera>(x, v, named, "a root value"); }); }
PART("serializable") { // every element type wrapped in a dynamic value
    size_t k = x.choose(KINDS), cx = x.choose(4), h = x.choose(4); x.go();
    kind(k, [&](const auto& val, const Val& v) { using T = std::remove_cvref_t<decltype(val)>;
        {
            T named = val; z::dyn::Value a = h == 0 ? z::dyn::serializable(named) : h == 1 ? z::dyn::serializable(T(val)) : h == 2 ? z::dyn::Value::serializable(val) : z::dyn::Value(z::dyn::Serializable::make(std::move(named)));
            if (h == 0) same(x, v, named, "a named argument after wrapping");
            Val w = cx == 0 ? v : cx == 1 ? arr({v, i64(1), v}) : cx == 2 ? map({{"k", v}, {"l", arr({v})}}) : arr({map({{"d", v}}), str(LONG)});
            z::dyn::Value d = cx == 0 ? a : cx == 1 ? z::dyn::array({a, 1, a}) : cx == 2 ? z::dyn::map({{"k", a}, {"l", z::dyn::array({a})}}) : z::dyn::array({z::dyn::map({{"d", a}}), LONG});
            same(x, w, d, "a dynamic value"); a = z::dyn::Value(); same(x, w, d, "a dynamic value whose parts were dropped"); auto e = d; d = z::dyn::Value(7); same(x, w, e, "the copy of a dropped dynamic value"); same(x, arr({w, w}), z::zvec(e, e), "dynamic values in a builder"); auto g = std::move(e); same(x, w, g, "a moved dynamic value"); } }); }
int main(int c, char** v) { return mc::run_main(c, v, "C12"); }
