// C09: one program, compiled under every build option and language standard,
// must compile, link and give the values of the reference spline.
#include <fstream>
#include <iostream>
#include "h.hpp"
using namespace h;

#ifndef SEL
#define SEL 0
#endif
double other_unit(int n, double x);  // conf2.cpp: same headers, second unit

template <size_t D, size_t O>
struct One {
    void operator()(const Grid<D>& g, size_t idx) const {
        if (!mine()) return;
        setcase("%s D=%zu", g.str(O).c_str(), D);
        const std::string base = scase();
        Ref<D> r(g, O);
        ++st().states;
        sample();
        std::vector<double> data = generic_data(g.total(), idx);
        std::vector<real> rd = to_real(data);
        intp::Mesh<double, D> mesh = to_mesh<double, D>(g, data);
        typedef intp::InterpolationFunction<double, D, O> F;
        typedef intp::InterpolationFunctionTemplate<double, D, O> T;
        const F f1 = make_fun<double, D, O>(g, mesh);
        const T t = make_tpl<double, D, O>(g);
        T t2(t);
        const F f2 = t.interpolate(mesh);
        F f3;
        t2.interpolate(f3, mesh);
        const F f4 = std::move(t2).interpolate(mesh);
        F f5(f3);
        f5 = f2;
        const F* fs[5] = {&f1, &f2, &f3, &f4, &f5};
        std::array<std::vector<double>, D> p;
        std::array<std::vector<std::vector<Cand>>, D> w;
        for (size_t d = 0; d < D; ++d) {
            const Axis& a = g.ax[d];
            std::vector<double> q = thin(piece_points(r.s[d], O + 1),
                                         D == 1 ? 24 : D == 2 ? 7 : 3, idx);
            keep_inside(a, q);
            std::vector<double> s = thin(special_points(r.s[d], false),
                                         D == 1 ? 24 : D == 2 ? 5 : 2, idx);
            keep_inside(a, s);
            q.insert(q.end(), s.begin(), s.end());
            q.push_back(a.a() - 0.21 * (a.b() - a.a()));
            q.push_back(a.b() + 0.34 * (a.b() - a.a()));
            q.push_back(a.b());
            p[d] = q;
            for (size_t m = 0; m <= O + 1; ++m)
                w[d].push_back(weights_at(r.s[d], q, m));
        }
        std::array<size_t, D> k;
        k.fill(0);
        for (size_t n = 0;; ++n) {
            std::array<double, D> x;
            std::array<size_t, D> m, z;
            z.fill(0);
            for (size_t d = 0; d < D; ++d) {
                x[d] = p[d][k[d]];
                m[d] = (n / (d + 1) + d) % (O + 2);
            }
            const F& f = *fs[n % 5];
            for (int e = 0; e < 2; ++e) {
                double got = e ? f.derivative(x, m) : f(x);
                ++st().transitions;
                std::array<const Cand*, D> c;
                for (size_t d = 0; d < D; ++d)
                    c[d] = &w[d][e ? m[d] : 0][k[d]];
                real want;
                if (!matches<D>(r, rd, c, got, 1e-8L, &want)) {
                    char b[200];
                    snprintf(b, sizeof b, " x0=%.17g form=%zu derivative=%d",
                             x[0], n % 5, e);
                    setcase("%s%s", base.c_str(), b);
                    fail("got %.17g, expected %.17Lg", got, want);
                }
            }
#ifdef INTP_CELL_LAYOUT
            if (n % 3 == 0) {
                auto px = t.eval_proxy(x);
                double a = px(f), b = f(x);
                ++st().transitions;
                if (!near(a, b, 1e-9L * (1 + std::fabs(b)) * r.cond *
                                    1e3L))
                    fail("proxy %.17g, value %.17g", a, b);
            }
#endif
            size_t d = 0;
            for (; d < D; ++d) {
                if (++k[d] < p[d].size()) break;
                k[d] = 0;
            }
            if (d == D) break;
        }
        ++st().traces;
    }
};

template <size_t O>
void all() {
    size_t idx = O;
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni) {
            std::vector<Axis> as = axes_1d(O, per, uni, false);
            for (size_t i = 0; i < as.size();
                 i += (st().thorough ? 1 : as.size() / 12 + 1)) {
                Grid<1> g;
                g.ax[0] = as[i];
                One<1, O>()(g, idx++);
            }
        }
    std::vector<std::array<size_t, 2>> e2 = {{{0, 1}}, {{3, 2}}};
    for_grids<2>(O, e2, One<2, O>());
#if SEL != 2
    std::vector<std::array<size_t, 3>> e3 = {{{1, 0, 2}}};
    if (O <= 3) for_grids<3>(O, e3, One<3, O>(), st().thorough ? 1 : 3);
#endif
}

// the pieces used on their own
static void parts() {
    setcase("separate parts");
    // band matrices
    intp::BandMatrix<double> A(5, 1, 2);
    for (size_t i = 0; i < 5; ++i)
        for (size_t j = i ? i - 1 : 0; j < 5 && j <= i + 2; ++j)
            A(i, j) = i == j ? 6 : 0.5 + double(i) - 0.25 * double(j);
    std::vector<double> b = {1, 2, 3, 4, 5};
    intp::BandLU<intp::BandMatrix<double>> lu(A);
    std::vector<double> x = lu.solve(b), y = A * x;
    for (size_t i = 0; i < 5; ++i)
        if (!near(y[i], b[i], 1e-12L)) fail("band solve component %zu", i);
    // direct spline
    typedef intp::BSpline<double, 1, 2> S;
    std::vector<double> kn = {0, 0, 0, 1, 2, 2, 2};
    S::ControlPointContainer cp(4);
    for (size_t i = 0; i < 4; ++i) cp(i) = double(i + 1);
    S s(std::array<bool, 1>{{false}}, cp, std::make_pair(kn.begin(), kn.end()));
    if (!near(s(std::array<double, 1>{{0.5}}), 0.25L + 2 * 0.625L + 3 * 0.125L, 1e-12L))
        fail("direct spline %.17g", s(std::array<double, 1>{{0.5}}));
    if (s.get_order() != 2 || S::order != 2 || S::dim != 1) fail("order");
    // static members bound to references
    const size_t& o = intp::InterpolationFunction<double, 2, 3>::order;
    const size_t& d = intp::InterpolationFunction<double, 2, 3>::dim;
    const size_t& o2 = intp::InterpolationFunctionTemplate<double, 2, 3>::order;
    const size_t& o3 = S::order;
    if (o != 3 || d != 2 || o2 != 3 || o3 != 2) fail("static members");
    // other value and coordinate types
    std::vector<float> fv = {1, 3, 2, 5, 4, 6};
    intp::InterpolationFunction<float, 1, 3, float> ff(
        false, std::make_pair(fv.begin(), fv.end()), std::make_pair(0.f, 5.f));
    intp::InterpolationFunction1D<3> fd(std::make_pair(fv.begin(), fv.end()));
    for (double q = -1; q < 6; q += 0.37)
        if (!near(ff(q), fd(q), 1e-3L)) fail("float spline at %g", q);
    if (!near(other_unit(4, 1.5), other_unit(4, 1.5), 0)) fail("second unit");
    st().transitions += 20;
    ++st().states;
}

int main(int argc, char** argv) {
    init(argc, argv);
    // logging options write to std::cout
    struct Null : std::streambuf {
        int overflow(int c) { return c; }
        std::streamsize xsputn(const char*, std::streamsize n) { return n; }
    };
    static Null nul;
    std::streambuf* old = std::cout.rdbuf(&nul);
#if SEL == 0
    all<3>();
    all<2>();
#elif SEL == 1
    all<1>();
    all<4>();
#else
    all<5>();
    all<0>();
#endif
#if SEL == 0
    many_dims<4, 3>(0);
    many_dims<6, 1>(0);
#elif SEL == 1
    many_dims<5, 2>(0);
    many_dims<6, 2>(0);
#else
    many_dims<7, 1>(0);
    many_dims<4, 1>(0);
#endif
    parts();
    (void)old;
    return done();
}
