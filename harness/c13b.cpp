#include "tens.hpp"
namespace ze = z::eigen;
using D = P::Deserializer;
constexpr int Dy = Eigen::Dynamic;
template<class M> void set(M& m) { using T = typename M::Scalar; for (Eigen::Index j = 0; j < m.size(); ++j) copy_elem(m.data()[j], elem<T>(size_t(j))); }
template<class A, class B> bool eq(const A& a, const B& b) { using T = typename A::Scalar; if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) { T p = a(i, j), q = b(i, j); if (!same_bits(&p, &q, 1)) return false; } return true; }
template<class T, int R, int C, int O, class Rd, class M> void ok(mc::X& x, const Rd& r, const M& m) {
    x.op(4); auto a = ze::asEigenMatrix<T, R, C, false, O>(r); if (!eq(a, m)) x.fail("matrix differs"); auto v = ze::asEigenMatrixView<T, R, C, false, O>(r); if (v.rows() != size_t(m.rows()) || v.cols() != size_t(m.cols())) x.fail("view dimensions differ"); if (!eq(v.map(), m)) x.fail("mapped view differs"); if (!eq(v.matrix(), m)) x.fail("matrix of the view differs"); auto w = v; if (!eq(w.map(), m)) x.fail("copied view differs");
}
template<class T, int R, int C, int O, class Rd> void no(mc::X& x, const Rd& r, const char* what) { x.op(2); if (!refuses([&]{ (void)ze::asEigenMatrix<T, R, C, false, O>(r); })) x.fail(what); if (!refuses([&]{ (void)ze::asEigenMatrixView<T, R, C, false, O>(r); })) x.fail(what); }
// reads m through dynamic, half-fixed and fixed requests
template<class T, int O, class Rd, class M> void reads(mc::X& x, const Rd& r, const M& m) {
    ok<T, Dy, Dy, O>(x, r, m); const auto R = m.rows(), C = m.cols();
    if (R == 2) ok<T, 2, Dy, O>(x, r, m); else no<T, 2, Dy, O>(x, r, "read with another number of rows");
    if (C == 3) ok<T, Dy, 3, O>(x, r, m); else no<T, Dy, 3, O>(x, r, "read with another number of columns");
    if (R == 2 && C == 3) ok<T, 2, 3, O>(x, r, m); else no<T, 2, 3, O>(x, r, "read with another fixed size");
    if (R == 3 && C == 2) ok<T, 3, 2, O>(x, r, m); else no<T, 3, 2, O>(x, r, "read with another fixed size");
}
template<class M> void trip(mc::X& x, const M& m, bool emb) { using T = typename M::Scalar; constexpr int O = M::IsRowMajor && M::ColsAtCompileTime != 1 ? Eigen::RowMajor : Eigen::ColMajor;
    if (!emb) { auto b = z::serialize<P>(m); D d(b.buf()); reads<T, O>(x, d, m); }
    else { auto b = z::serialize<P>(z::zvec("pre", m, z::zmap<"m", "t">(7, m), 2.5)); D d(b.buf()); ok<T, Dy, Dy, O>(x, d[size_t(1)], m); reads<T, O>(x, d[size_t(2)]["t"], m); x.check(d[size_t(3)].asDouble() == 2.5, "neighbours of a matrix differ"); } }
template<class F> void mtypes(size_t k, F&& f) {
#if PROTO >= 3
    if (k == 0) f(uint8_t{}); else if (k == 1) f(float{}); else throw mc::Prune{}; }
#else
    if (k == 0) f(uint8_t{}); else if (k == 1) f(float{}); else if (k == 2) f(int64_t{}); else f(std::complex<double>{}); }
#endif
PART("dynamic") { size_t k = x.choose(4), r = x.choose(x.thorough ? 8 : 6), c = x.choose(x.thorough ? 8 : 6); bool row = x.flip(), emb = x.flip(); x.go(); mtypes(k, [&]<class T>(T) { if (row) { Eigen::Matrix<T, Dy, Dy, Eigen::RowMajor> m(r, c); set(m); trip(x, m, emb); } else { Eigen::Matrix<T, Dy, Dy> m(r, c); set(m); trip(x, m, emb); } }); x.outcome(std::to_string(k) + "," + std::to_string(r) + "," + std::to_string(c)); if (x.want_sample()) x.sample(std::to_string(r) + "x" + std::to_string(c) + " element kind " + std::to_string(k)); }
PART("large") { static const size_t N[][2] = {{16, 16}, {1, 255}, {255, 1}, {256, 1}, {1, 257}, {33, 31}, {100, 100}, {0, 1000}, {1000, 0}, {1, 70000}}; size_t n = x.choose(10), k = x.choose(4); bool row = x.flip(), emb = x.flip(); x.go(); mtypes(k, [&]<class T>(T) { if (row) { Eigen::Matrix<T, Dy, Dy, Eigen::RowMajor> m(N[n][0], N[n][1]); set(m); trip(x, m, emb); } else { Eigen::Matrix<T, Dy, Dy> m(N[n][0], N[n][1]); set(m); trip(x, m, emb); } }); }
PART("fixed") { size_t k = x.choose(2), kind = x.choose(9); bool emb = x.flip(); x.go(); auto run = [&]<class M>(M m) { set(m); trip(x, m, emb); };
    mtypes(k, [&]<class T>(T) { switch (kind) { case 0: run(Eigen::Matrix<T, 1, 1>{}); break; case 1: run(Eigen::Matrix<T, 2, 3>{}); break; case 2: run(Eigen::Matrix<T, 3, 2, Eigen::RowMajor>{}); break; case 3: run(Eigen::Matrix<T, 4, 4>{}); break; case 4: run(Eigen::Matrix<T, 4, 4, Eigen::RowMajor>{}); break; case 5: run(Eigen::Matrix<T, 5, 1>{}); break; case 6: run(Eigen::Matrix<T, 1, 5, Eigen::RowMajor>{}); break; case 7: run(Eigen::Matrix<T, 2, 3, Eigen::DontAlign>{}); break; default: run(Eigen::Matrix<T, Dy, 3>(2, 3)); } }); }
template<class T> void one_type(mc::X& x, size_t r, size_t c) { Eigen::Matrix<T, Dy, Dy> m(r, c); set(m); auto b = z::serialize<P>(m); D d(b.buf()); ok<T, Dy, Dy, Eigen::ColMajor>(x, d, m); }
template<class F> void etypes(size_t k, F&& f) {
#if PROTO >= 3
    switch (k) { case 4: f(uint8_t{}); break; case 9: f(double{}); break; default: throw mc::Prune{}; } }
#else
    switch (k) { case 0: f(int8_t{}); break; case 1: f(int16_t{}); break; case 2: f(int32_t{}); break; case 3: f(int64_t{}); break; case 4: f(uint8_t{}); break; case 5: f(uint16_t{}); break; case 6: f(uint32_t{}); break; case 7: f(uint64_t{}); break; case 8: f(float{}); break; case 9: f(double{}); break; case 10: f(std::complex<float>{}); break; default: f(std::complex<double>{}); } }
#endif
PART("all-types") { size_t k = x.choose(12), r = x.choose(5), c = x.choose(5); x.go(); etypes(k, [&]<class T>(T) { one_type<T>(x, r, c); }); }
PART("element-types") { size_t k = x.choose(12), l = x.choose(12), sh = x.choose(4); static const size_t S[][2] = {{0, 0}, {2, 2}, {8, 1}, {1, 16}}; x.go(); if (k == l) return; std::optional<z::ZBuffer> b; etypes(k, [&]<class T>(T) { Eigen::Matrix<T, Dy, Dy> m(S[sh][0], S[sh][1]); set(m); b.emplace(z::serialize<P>(m)); }); D d(b->buf()); etypes(l, [&]<class U>(U) { no<U, Dy, Dy, Eigen::ColMajor>(x, d, "read as another element type"); }); }
PART("ranks") { // only rank 2 is a matrix
    size_t r = x.choose(5), k = x.choose(2); size_t fillv = x.choose(3); x.go(); Shape s(r, fillv); mtypes(k, [&]<class T>(T) { auto a = xt::xarray<T>::from_shape(s); for (size_t j = 0; j < a.size(); ++j) copy_elem(a.data()[j], elem<T>(j)); auto b = z::serialize<P>(a); D d(b.buf()); if (r != 2) no<T, Dy, Dy, Eigen::ColMajor>(x, d, "a tensor of another rank was read as a matrix"); else ok<T, Dy, Dy, Eigen::RowMajor>(x, d, [&] { Eigen::Matrix<T, Dy, Dy, Eigen::RowMajor> m(fillv, fillv); for (size_t j = 0; j < a.size(); ++j) copy_elem(m.data()[j], elem<T>(j)); return m; }()); }); }
PART("routes") { size_t r = x.choose(4), c = x.choose(4); x.go(); Eigen::MatrixXd m(r, c); set(m); Eigen::MatrixXd keep = m; auto b = z::serialize<P>(z::dyn::map({{"x", z::dyn::serializable(m)}, {"y", 1}})); D d(b.buf()); ok<double, Dy, Dy, Eigen::ColMajor>(x, d["x"], keep); auto st = z::zmap<"t">(Eigen::MatrixXd(keep)); auto f = z::serialize<P>(st); auto g = z::serialize<P>(st); D h(f.buf()), i(g.buf()); ok<double, Dy, Dy, Eigen::ColMajor>(x, h["t"], keep); ok<double, Dy, Dy, Eigen::ColMajor>(x, i["t"], keep); x.check(eq(m, keep), "a named matrix was consumed"); }
int main(int c, char** v) { return mc::run_main(c, v, "C13"); }
