// C06: checked access. Every combination of boundary coordinates.
#include <limits>
#include "h.hpp"
using namespace h;

template <size_t D, size_t O>
struct Access {
    typedef intp::InterpolationFunction<double, D, O> F;
    static bool same(double a, double b) {
        return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b);
    }
    // 1: value returned, 0: domain_error, -1: another exception
    template <typename Call>
    static int run(Call c, double& v) {
        ++st().transitions;
        try {
            v = c();
            return 1;
        } catch (const std::domain_error&) {
            return 0;
        } catch (...) {
            return -1;
        }
    }
    // variadic forms for each arity
    static double at_list(const F& f, const std::array<double, 1>& x) {
        return f.at(x[0]);
    }
    static double at_list(const F& f, const std::array<double, 2>& x) {
        return f.at(x[0], x[1]);
    }
    static double at_list(const F& f, const std::array<double, 3>& x) {
        return f.at(x[0], x[1], x[2]);
    }
    static double at_list(const F& f, const std::array<double, 4>& x) {
        return f.at(x[0], x[1], x[2], x[3]);
    }
    typedef std::pair<double, size_t> P;
    static double dl(const F& f, const std::array<double, 1>& x,
                     const std::array<size_t, 1>& m) {
        return f.derivative_at(x, int(m[0]));
    }
    static double dl(const F& f, const std::array<double, 2>& x,
                     const std::array<size_t, 2>& m) {
        return f.derivative_at(x, int(m[0]), unsigned(m[1]));
    }
    static double dl(const F& f, const std::array<double, 3>& x,
                     const std::array<size_t, 3>& m) {
        return f.derivative_at(x, m[0], m[1], m[2]);
    }
    static double dl(const F& f, const std::array<double, 4>& x,
                     const std::array<size_t, 4>& m) {
        return f.derivative_at(x, m[0], m[1], m[2], m[3]);
    }
    static double dp(const F& f, const std::array<double, 1>& x,
                     const std::array<size_t, 1>& m) {
        return f.derivative_at(P(x[0], m[0]));
    }
    static double dp(const F& f, const std::array<double, 2>& x,
                     const std::array<size_t, 2>& m) {
        return f.derivative_at(P(x[0], m[0]), P(x[1], m[1]));
    }
    static double dp(const F& f, const std::array<double, 3>& x,
                     const std::array<size_t, 3>& m) {
        return f.derivative_at(P(x[0], m[0]), P(x[1], m[1]), P(x[2], m[2]));
    }
    static double dp(const F& f, const std::array<double, 4>& x,
                     const std::array<size_t, 4>& m) {
        return f.derivative_at(P(x[0], m[0]), P(x[1], m[1]), P(x[2], m[2]),
                               P(x[3], m[3]));
    }

    static std::vector<double> coords(const Axis& a, size_t idx) {
        std::vector<double> p;
        double A = a.a(), B = a.b(), L = B - A;
        p.push_back(A);
        p.push_back(B);
        if (D <= 2 || idx % 2) {
            p.push_back(down(A));
            p.push_back(up(B));
        }
        if (D > 2 && idx % 2 == 0) {
            p.push_back(A - 0.3 * L);
            p.push_back(B + 0.3 * L);
        }
        if (D <= 3) p.push_back(A + 0.37 * L);
        if (D <= 2) {
            p.push_back(up(A));
            p.push_back(down(B));
            p.push_back(down(down(A)));
            p.push_back(up(up(B)));
            p.push_back(A - 1e-9 * L);
            p.push_back(B + 1e-9 * L);
            p.push_back(A - 0.4 * L);
            p.push_back(B + 0.4 * L);
            p.push_back(A + 0.99 * L);
        }
        if (D == 1) {
            p.push_back(A - 1e-12 * L);
            p.push_back(B + 1e-12 * L);
            p.push_back(A - 1e-6 * L);
            p.push_back(B + 1e-6 * L);
            p.push_back(A - 5 * L);
            p.push_back(B + 5 * L);
            p.push_back(-1e12);
            p.push_back(1e12);
            for (double x : a.x) {
                p.push_back(x);
                p.push_back(up(x));
                p.push_back(down(x));
            }
            for (size_t i = 0; i + 1 < a.x.size(); ++i)
                p.push_back(0.5 * (a.x[i] + a.x[i + 1]));
            // half a cell beyond the ends
            p.push_back(A - 0.5 * (a.x[1] - a.x[0]));
            p.push_back(B + 0.5 * (B - a.x[a.x.size() - 2]));
        }
        return p;
    }

    void operator()(const Grid<D>& g, size_t idx) const {
        setcase("%s D=%zu construct", g.str(O).c_str(), D);
        if (!mine()) return;
        ++st().states;
        sample();
        const std::string base = g.str(O);
        intp::Mesh<double, D> mesh =
            to_mesh<double, D>(g, generic_data(g.total(), idx));
        F direct = make_fun<double, D, O>(g, mesh);
        intp::InterpolationFunctionTemplate<double, D, O> t =
            make_tpl<double, D, O>(g);
        F filled;
        t.interpolate(filled, mesh);
        F copy(direct);
        F moved(std::move(copy));
        const F* fs[3] = {&direct, &filled, &moved};
        std::array<std::vector<double>, D> p;
        for (size_t d = 0; d < D; ++d) p[d] = coords(g.ax[d], idx);
        for (int w = 0; w < 3; ++w) {
            const F& f = *fs[w];
            for (size_t d = 0; d < D; ++d) {
                if (f.periodicity(d) != g.ax[d].periodic ||
                    f.uniform(d) != g.ax[d].uniform)
                    fail("periodicity/uniform of dim %zu misreported", d);
                if (!g.ax[d].periodic && (f.range(d).first != g.ax[d].a() ||
                                          f.range(d).second != g.ax[d].b()))
                    fail("range of dim %zu is [%.17g,%.17g], given "
                         "[%.17g,%.17g]", d, f.range(d).first,
                         f.range(d).second, g.ax[d].a(), g.ax[d].b());
            }
        }
        size_t n = 0;
        std::array<size_t, D> k;
        k.fill(0);
        for (;; ++n) {
            const F& f = *fs[(n + idx) % 3];
            std::array<double, D> x;
            std::array<size_t, D> m;
            bool in = true;
            for (size_t d = 0; d < D; ++d) {
                x[d] = p[d][k[d]];
                m[d] = (n + d * 2 + idx) % (O + 2);
                const Axis& a = g.ax[d];
                if (!a.periodic && (x[d] < a.a() || x[d] > a.b())) in = false;
            }
            double ref = f(x), dref = f.derivative(x, m);
            double v[5] = {ref, ref, dref, dref, dref};
            int r[5];
            r[0] = run([&]() { return f.at(x); }, v[0]);
            r[1] = run([&]() { return at_list(f, x); }, v[1]);
            r[2] = run([&]() { return f.derivative_at(x, m); }, v[2]);
            r[3] = run([&]() { return dl(f, x, m); }, v[3]);
            r[4] = run([&]() { return dp(f, x, m); }, v[4]);
            for (int i = 0; i < 5; ++i) {
                bool bad = r[i] != (in ? 1 : 0);
                bool diff = in && !same(v[i], i < 2 ? ref : dref);
                if (bad || diff) {
                    std::string s = base + " x=(";
                    char b[64];
                    for (size_t d = 0; d < D; ++d) {
                        snprintf(b, sizeof b, "%s%.17g", d ? "," : "", x[d]);
                        s += b;
                    }
                    setcase("%s) form=%d", s.c_str(), i);
                    if (bad)
                        fail("%s, expected %s",
                             r[i] == 1 ? "accepted"
                             : r[i]    ? "threw something else"
                                       : "rejected",
                             in ? "a value" : "std::domain_error");
                    else
                        fail("checked access gives %.17g, unchecked %.17g",
                             v[i], i < 2 ? ref : dref);
                }
            }
            // a rejection leaves the function as it was
            if (!in && (!same(f(x), ref) || !same(f.derivative(x, m), dref)))
                fail("evaluation changed after a rejected access");
            size_t d = 0;
            for (; d < D; ++d) {
                if (++k[d] < p[d].size()) break;
                k[d] = 0;
            }
            if (d == D) break;
        }
        // beyond every finite coordinate: only rejection can be right
        for (size_t e = 0; e < D; ++e) {
            if (g.ax[e].periodic) continue;
            for (double y : {std::numeric_limits<double>::infinity(),
                             -std::numeric_limits<double>::infinity(),
                             std::numeric_limits<double>::max(),
                             -std::numeric_limits<double>::max()}) {
                const F& f = *fs[(n + e) % 3];
                std::array<double, D> x;
                std::array<size_t, D> m;
                for (size_t d = 0; d < D; ++d) {
                    x[d] = d == e ? y : p[d][(idx + d) % 2];
                    m[d] = (d * 2 + idx) % (O + 2);
                }
                double v = 0;
                int r[5];
                r[0] = run([&]() { return f.at(x); }, v);
                r[1] = run([&]() { return at_list(f, x); }, v);
                r[2] = run([&]() { return f.derivative_at(x, m); }, v);
                r[3] = run([&]() { return dl(f, x, m); }, v);
                r[4] = run([&]() { return dp(f, x, m); }, v);
                for (int i = 0; i < 5; ++i)
                    if (r[i] != 0) {
                        setcase("%s x[%zu]=%.17g form=%d", base.c_str(), e, y, i);
                        fail("accepted, expected std::domain_error");
                    }
            }
            // the two zeros are the same coordinate
            if (g.ax[e].a() == 0 || g.ax[e].b() == 0) {
                std::array<double, D> x;
                for (size_t d = 0; d < D; ++d) x[d] = p[d][0];
                x[e] = -0.;
                double v = 0;
                if (run([&]() { return direct.at(x); }, v) != 1) {
                    setcase("%s x[%zu]=-0", base.c_str(), e);
                    fail("rejected, expected a value");
                }
            }
        }
        ++st().traces;
    }
};

template <size_t O>
void all() {
    size_t idx = 0;
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni)
            for (const Axis& a : axes_1d(O, per, uni, st().thorough)) {
                Grid<1> g;
                g.ax[0] = a;
                Access<1, O>()(g, idx++);
            }
    for (size_t n : {size_t(1029), size_t(4099)})
        for (int c = 0; c < 4; ++c) {
            Grid<1> g;
            g.ax[0] = c & 1 ? uniform_axis(c & 2, n, idx)
                            : nonuniform_axis(c & 2, n, 5, idx);
            Access<1, O>()(g, idx++);
        }
    std::vector<std::array<size_t, 2>> e2 = {{{0, 1}}, {{3, 0}}, {{2, 4}}};
    if (st().thorough) e2.push_back({{7, 5}});
    for_grids<2>(O, e2, Access<2, O>());
#if MAXD >= 3
    std::vector<std::array<size_t, 3>> e3 = {{{0, 1, 2}}, {{2, 0, 1}}};
    for_grids<3>(O, e3, Access<3, O>());
#endif
#if MAXD >= 4
    std::vector<std::array<size_t, 4>> e4 = {{{0, 1, 2, 1}}};
    for_grids<4>(O, e4, Access<4, O>(), st().thorough ? 1 : 3);
#endif
    // integral and single precision coordinates
    {
        Axis a;
        a.periodic = false;
        a.uniform = true;
        for (int i = 0; i < 12; ++i) a.x.push_back(i - 3);
        Grid<1> g;
        g.ax[0] = a;
        intp::InterpolationFunction<double, 1, O> f = make_fun<double, 1, O>(
            g, to_mesh<double, 1>(g, generic_data(12, 3)));
        for (int i = -6; i <= 11; ++i) {
            setcase("order=%zu integral coordinate %d", size_t(O), i);
            bool in = i >= -3 && i <= 8;
            double v = 0;
            ++st().transitions;
            int r = Access<1, O>::run([&]() { return f.at(i); }, v);
            if (r != (in ? 1 : 0) || (in && v != f(double(i))))
                fail("at(int) gives %d %.17g", r, v);
            r = Access<1, O>::run([&]() { return f.at(float(i)); }, v);
            if (r != (in ? 1 : 0) || (in && v != f(double(i))))
                fail("at(float) gives %d %.17g", r, v);
        }
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    all<ORD>();
    return done();
}
