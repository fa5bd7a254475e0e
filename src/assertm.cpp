// C17: assertion mode. Every coordinate sequence over a small alphabet, every
// count mismatch, every index within a margin around the valid ones.
#include <iostream>
#include <limits>
#include <list>
#include "h.hpp"
using namespace h;
#if !defined(INTP_ENABLE_ASSERTION)
#error "assertion mode expected"
#endif

enum Out { OK, RUNTIME, OTHER };
template <typename C>
static Out attempt(C c) {
    ++st().transitions;
    try {
        c();
        return OK;
    } catch (const std::runtime_error&) {
        return RUNTIME;
    } catch (...) {
        return OTHER;
    }
}
static const char* name(Out o) {
    return o == OK ? "accepted" : o == RUNTIME ? "runtime_error" : "another exception";
}
static std::string xs_str(const std::vector<double>& x) {
    std::string s = "{";
    char b[40];
    for (double v : x) {
        snprintf(b, sizeof b, " %.17g", v);
        s += b;
    }
    return s + " }";
}
static bool increasing(const std::vector<double>& x) {
    for (size_t i = 0; i + 1 < x.size(); ++i)
        if (!(x[i + 1] > x[i])) return false;
    return true;
}

// the program is still usable
static std::vector<double> health_first;
template <size_t O>
static void healthy() {
    Grid<2> g;
    g.ax[0] = small_axis(O, false, false, 1, 1);
    g.ax[1] = small_axis(O, true, true, 1, 2);
    intp::InterpolationFunction<double, 2, O> f = make_fun<double, 2, O>(
        g, to_mesh<double, 2>(g, generic_data(g.total(), 8)));
    static double first = f(0.3, 0.4);
    if (f(0.3, 0.4) != first) fail("later valid construction gives another result");
}

// one nonuniform dimension at position `pos` of D, given sequence x, data count n
template <size_t O>
struct Try {
    // 1-D
    static Out d1(bool per, const std::vector<double>& x, size_t n, int form) {
        return attempt([&]() {
            std::vector<double> v = generic_data(n, 3);
            auto xr = std::make_pair(x.begin(), x.end());
            if (form == 0) {
                intp::InterpolationFunction<double, 1, O> f(
                    per, std::make_pair(v.begin(), v.end()), xr);
                volatile double y = f(x[0]);
                (void)y;
            } else if (form == 1) {
                intp::InterpolationFunctionTemplate<double, 1, O> t(per, n, xr);
                auto f = t.interpolate(std::make_pair(v.begin(), v.end()));
            } else {
                intp::InterpolationFunction1D<O> f(
                    xr, std::make_pair(v.begin(), v.end()), per);
            }
        });
    }
    // 2-D: pos 0 or 1 nonuniform with x, the other uniform
    static Out d2(int pos, bool per, const std::vector<double>& x, size_t n) {
        return attempt([&]() {
            size_t other = O + 2;
            std::array<size_t, 2> sz = {{pos == 0 ? n : other, pos == 0 ? other : n}};
            intp::Mesh<double, 2> m{intp::MeshDimension<2>(sz)};
            std::array<bool, 2> p = {{pos == 0 && per, pos == 1 && per}};
            auto xr = std::make_pair(x.begin(), x.end());
            auto ur = std::make_pair(0., 1.);
            if (pos == 0)
                intp::InterpolationFunction<double, 2, O>(p, m, xr, ur);
            else
                intp::InterpolationFunction<double, 2, O>(p, m, ur, xr);
        });
    }
    // 3-D: nonuniform everywhere, dimension pos gets x
    static Out d3(int pos, bool per, const std::vector<double>& x, size_t n) {
        return attempt([&]() {
            size_t oth = O + 2;
            std::vector<double> good;
            for (size_t i = 0; i < oth; ++i) good.push_back(double(i) * 1.5);
            std::array<size_t, 3> sz = {{oth, oth, oth}};
            sz[size_t(pos)] = n;
            std::array<bool, 3> p = {{false, false, false}};
            p[size_t(pos)] = per;
            std::array<const std::vector<double>*, 3> q = {{&good, &good, &good}};
            q[size_t(pos)] = &x;
            intp::InterpolationFunctionTemplate<double, 3, O> t(
                p, intp::MeshDimension<3>(sz),
                std::make_pair(q[0]->begin(), q[0]->end()),
                std::make_pair(q[1]->begin(), q[1]->end()),
                std::make_pair(q[2]->begin(), q[2]->end()));
        });
    }
    static void one(const std::vector<double>& x, bool per, size_t n) {
        // valid: strictly increasing, count matches
        size_t need = n + (per && !VERIF_DUMMY ? 1 : 0);
        bool valid = increasing(x) && x.size() == need;
        ++st().states;
        for (int form = 0; form < 8; ++form) {
            setcase("order=%zu %s n=%zu x=%s form=%d", size_t(O),
                    per ? "periodic" : "aperiodic", n, xs_str(x).c_str(), form);
            Out o = form < 3   ? d1(per, x, n, form)
                    : form < 5 ? d2(form - 3, per, x, n)
                               : d3(form - 5, per, x, n);
            if (o != (valid ? OK : RUNTIME))
                fail("%s, should be %s", name(o), valid ? "accepted" : "rejected");
        }
        sample();
        if (!valid) healthy<O>();
        ++st().traces;
    }
    static void sequences(bool per) {
        size_t sites = min_sites(O, per, false);
        // all sequences of `len` values out of an alphabet
        for (size_t extra = 0; extra < 2; ++extra) {
            size_t n = sites + extra;             // data values
            size_t len = per ? n + 1 : n;         // coordinates
            size_t count = per && VERIF_DUMMY ? n + 1 : n;
            // exhaustive up to 5 points, else all single modifications
            if (len <= 5) {
                size_t total = 1;
                for (size_t i = 0; i < len; ++i) total *= len + (len < 5 ? 1 : 0);
                size_t base = len + (len < 5 ? 1 : 0);
                for (size_t c = 0; c < total; ++c) {
                    if (!mine()) continue;
                    std::vector<double> x;
                    size_t t = c;
                    for (size_t i = 0; i < len; ++i) {
                        x.push_back(double(t % base) - 1.5);
                        t /= base;
                    }
                    one(x, per, count);
                }
            }
            // every single replacement and every swap in a good sequence
            for (size_t i = 0; i < len; ++i)
                for (size_t v = 0; v <= 2 * len; ++v) {
                    std::vector<double> x;
                    for (size_t k = 0; k < len; ++k) x.push_back(double(k));
                    x[i] = double(v) * 0.5;
                    if (mine()) one(x, per, count);
                    // barely equal / barely different from the neighbour
                    if (v == 0 && i > 0) {
                        x[i] = x[i - 1];
                        if (mine()) one(x, per, count);
                        x[i] = x[i - 1] + 1e-6;
                        if (i + 1 < len && mine()) {
                            // close together, but increasing: valid
                            size_t need = count + (per && !VERIF_DUMMY ? 1 : 0);
                            setcase("order=%zu close step at %zu", size_t(O), i);
                            Out o = attempt([&]() {
                                intp::InterpolationFunctionTemplate<double, 1, O> t(
                                    per, count, std::make_pair(x.begin(), x.end()));
                            });
                            if (o != OK && x.size() == need) fail("%s", name(o));
                        }
                        x[i] = down(x[i - 1]);
                        if (mine()) one(x, per, count);
                    }
                }
            // count mismatches
            for (size_t m = 0; m <= len + 3; ++m) {
                std::vector<double> x;
                for (size_t k = 0; k < m; ++k) x.push_back(double(k) * 1.25);
                if (mine()) one(x, per, count);
            }
            // a value that is no number is not in order
            for (size_t i = 0; i < len; ++i) {
                std::vector<double> x;
                for (size_t k = 0; k < len; ++k) x.push_back(double(k) - 1);
                x[i] = std::numeric_limits<double>::quiet_NaN();
                if (mine()) one(x, per, count);
            }
            // other units, far from the origin: the order alone matters
            static const double unit[6] = {1e-9, 1e-30, 1e8, 1e60, 1., 1e-3};
            static const double off[6] = {0, 0, -4e8, 0, 1e6, -1e3};
            for (size_t u = 0; u < 6; ++u)
                for (size_t i = 0; i < len; ++i) {
                    std::vector<double> x;
                    for (size_t k = 0; k < len; ++k)
                        x.push_back(off[u] + unit[u] * double(k));
                    if (i == 0 && mine()) one(x, per, count);
                    if (i > 0) {
                        x[i] = x[i - 1];
                        if (mine()) one(x, per, count);
                        x[i] = down(x[i - 1]);
                        if (mine()) one(x, per, count);
                    }
                }
        }
    }
    // long sequences with one step that does not increase, of several types
    template <typename X>
    static void long_one(bool per, size_t len, size_t at, int how, bool list) {
        std::vector<X> x;
        for (size_t k = 0; k < len; ++k) x.push_back(X(k * 3));
        if (at > 0 && how == 0) x[at] = x[at - 1];
        if (at > 0 && how == 1) std::swap(x[at], x[at - 1]);
        bool valid = at == 0;
        size_t n = per && !VERIF_DUMMY ? len - 1 : len;
        setcase("order=%zu %s %zu coordinates of %zu bytes, bad step %zu how=%d "
                "list=%d", size_t(O), per ? "periodic" : "aperiodic", len,
                sizeof(X), at, how, int(list));
        ++st().states;
        std::list<X> l(x.begin(), x.end());
        Out o = attempt([&]() {
            if (list)
                intp::InterpolationFunctionTemplate<double, 1, O> t(
                    per, n, std::make_pair(l.begin(), l.end()));
            else
                intp::InterpolationFunctionTemplate<double, 1, O> t(
                    per, n, std::make_pair(x.begin(), x.end()));
        });
        if (o != (valid ? OK : RUNTIME))
            fail("%s, should be %s", name(o), valid ? "accepted" : "rejected");
        ++st().traces;
    }
    static void long_sequences(bool per) {
        static const size_t lens[5] = {17, 40, 133, 300, 1031};
        for (size_t l = 0; l < 5; ++l)
            for (size_t i = 0; i < lens[l];
                 i += i < 20 || i + 20 > lens[l] ? 1 : 13)
                for (int how = 0; how < 2; ++how) {
                    if (!mine()) continue;
                    bool list = (i + l) % 3 == 0;
                    long_one<double>(per, lens[l], i, how, list);
                    if (i % 2 == 0) long_one<int>(per, lens[l], i, how, !list);
                    if (i % 3 == 0) long_one<float>(per, lens[l], i, how, list);
                    if (i % 3 == 1) long_one<unsigned>(per, lens[l], i, how, list);
                }
    }
    // direct splines: knots against control points
    static void spline() {
        for (int per = 0; per < 2; ++per)
            for (size_t n = O + 1; n < O + 5; ++n)
                for (size_t k = 2 * O + 2; k < n + 2 * O + 5; ++k) {
                    std::vector<double> kn;
                    for (size_t i = 0; i < k; ++i) kn.push_back(double(i));
                    bool valid = k == n + (per ? 2 * O + 1 : O + 1);
                    typedef intp::BSpline<double, 1, O> S;
                    typedef intp::BSpline<double, 2, O> S2;
                    setcase("order=%zu direct spline periodic=%d ctrl=%zu knots=%zu",
                            size_t(O), per, n, k);
                    ++st().states;
                    Out o = attempt([&]() {
                        typename S::ControlPointContainer c(n);
                        S s(std::array<bool, 1>{{per != 0}}, c,
                            std::make_pair(kn.begin(), kn.end()));
                    });
                    if (o != (valid ? OK : RUNTIME))
                        fail("%s, should be %s", name(o), valid ? "accepted" : "rejected");
                    for (int pos = 0; pos < 2; ++pos) {
                        size_t on = O + 3;
                        std::vector<double> good;
                        for (size_t i = 0; i < on + O + 1; ++i) good.push_back(double(i));
                        o = attempt([&]() {
                            typename S2::ControlPointContainer c(
                                intp::MeshDimension<2>(std::array<size_t, 2>{
                                    {pos ? on : n, pos ? n : on}}));
                            const std::vector<double>&a = pos ? good : kn,
                                               &b = pos ? kn : good;
                            S2 s(std::array<bool, 2>{{!pos && per, pos && per}}, c,
                                 std::make_pair(a.begin(), a.end()),
                                 std::make_pair(b.begin(), b.end()));
                        });
                        if (o != (valid ? OK : RUNTIME))
                            fail("2D pos %d: %s, should be %s", pos, name(o),
                                 valid ? "accepted" : "rejected");
                    }
                    if (!per) {
                        o = attempt([&]() {
                            typename S::ControlPointContainer c(n);
                            S s(c, std::make_pair(kn.begin(), kn.end()));
                        });
                        if (o != (valid ? OK : RUNTIME))
                            fail("short form: %s", name(o));
                    }
                }
    }
};

static void elements() {
    for (size_t a = 1; a <= 4; ++a)
        for (size_t b = 1; b <= 4; ++b) {
            intp::Mesh<double, 2> m(a, b);
            const intp::Mesh<double, 2>& c = m;
            intp::Mesh<double, 3> m3(a, size_t(2), b);
            for (size_t i = 0; i < a + 3; ++i)
                for (size_t j = 0; j < b + 3; ++j) {
                    bool in = i < a && j < b;
                    setcase("mesh %zux%zu element %zu,%zu", a, b, i, j);
                    Out o[5];
                    o[0] = attempt([&]() { m(i, j) = 1; });
                    o[1] = attempt([&]() { volatile double v = c(i, j); (void)v; });
                    o[2] = attempt([&]() { m.dimension().indexing_safe(i, j); });
                    o[3] = attempt([&]() {
                        m.dimension().indexing_safe(std::array<size_t, 2>{{i, j}});
                    });
                    o[4] = attempt([&]() { m3(i, 1, j) = 2; });
                    for (int k = 0; k < 5; ++k)
                        if (o[k] != (in ? OK : RUNTIME))
                            fail("form %d: %s, should be %s", k, name(o[k]),
                                 in ? "accepted" : "rejected");
                    // per-dimension iterators check the fixed indices
                    if (attempt([&]() { m.begin(0, {{i, j}}); }) != (j < b ? OK : RUNTIME))
                        fail("begin(0)");
                    if (attempt([&]() { c.begin(1, {{i, j}}); }) != (i < a ? OK : RUNTIME))
                        fail("begin(1)");
                }
            ++st().states;
        }
    if (attempt([&]() {
            intp::Mesh<double, 1> m(3);
            m(-1) = 1;
        }) != RUNTIME)
        fail("negative index accepted");
    for (size_t n = 1; n <= 6; ++n)
        for (size_t p = 0; p < n; ++p)
            for (size_t q = 0; q < n; ++q) {
                intp::BandMatrix<double> A(n, p, q);
                intp::ExtendedBandMatrix<double> E(n, p, q);
                const intp::BandMatrix<double>& CA = A;
                const intp::ExtendedBandMatrix<double>& CE = E;
                ++st().states;
                for (size_t i = 0; i < n; ++i)
                    for (size_t j = 0; j < n; ++j) {
                        bool in = i <= j + p && j <= i + q;
                        bool ex = in || (j > i + q ? j + p >= n : i + q >= n);
                        setcase("band n=%zu p=%zu q=%zu (%zu,%zu)", n, p, q, i, j);
                        Out o[8];
                        o[0] = attempt([&]() { A(i, j) = 1; });
                        o[1] = attempt([&]() { volatile double v = CA(i, j); (void)v; });
                        o[2] = attempt([&]() { E.main_bands_val(i, j) = 1; });
                        o[3] = attempt([&]() { volatile double v = CE.main_bands_val(i, j); (void)v; });
                        for (int k = 0; k < 4; ++k)
                            if (o[k] != (in ? OK : RUNTIME))
                                fail("form %d: %s, should be %s", k, name(o[k]),
                                     in ? "accepted" : "rejected");
                        o[4] = attempt([&]() { E(i, j) = 1; });
                        o[5] = attempt([&]() { volatile double v = CE(i, j); (void)v; });
                        for (int k = 4; k < 6; ++k)
                            if (o[k] != (ex ? OK : RUNTIME))
                                fail("form %d: %s, should be %s", k, name(o[k]),
                                     ex ? "accepted" : "rejected");
                        if (!in) {
                            o[6] = attempt([&]() { E.side_bands_val(i, j) = 1; });
                            o[7] = attempt([&]() { volatile double v = CE.side_bands_val(i, j); (void)v; });
                            for (int k = 6; k < 8; ++k)
                                if (o[k] != (ex ? OK : RUNTIME))
                                    fail("form %d: %s, should be %s", k, name(o[k]),
                                         ex ? "accepted" : "rejected");
                        }
                    }
                if (attempt([&]() { A(n, n) = 1; }) != RUNTIME) fail("A(n,n) accepted");
            }
    // a solver never touches entries outside the bands
    for (size_t n = 1; n <= 7; ++n)
        for (size_t p = 0; p < n; ++p)
            for (size_t q = 0; q < n; ++q) {
                setcase("band n=%zu p=%zu q=%zu solve", n, p, q);
                Out o = attempt([&]() {
                    intp::BandMatrix<double> A(n, p, q);
                    intp::ExtendedBandMatrix<double> E(n, p, q);
                    for (size_t i = 0; i < n; ++i) A(i, i) = E(i, i) = 2;
                    std::vector<double> v(n, 1.);
                    std::vector<double> a = A * v, b = E * v;
                    intp::BandLU<intp::BandMatrix<double>>(A).solve(v);
                    intp::BandLU<intp::ExtendedBandMatrix<double>>(E).solve(v);
                });
                if (o != OK) fail("valid solve: %s", name(o));
            }
}

// valid input is never rejected and gives the reference values
template <size_t D, size_t O>
struct Valid {
    void operator()(const Grid<D>& g, size_t idx) const {
        if (!mine()) return;
        setcase("%s D=%zu", g.str(O).c_str(), D);
        std::string base = scase();
        Ref<D> r(g, O);
        std::vector<double> data = generic_data(g.total(), idx);
        std::vector<real> rd = to_real(data);
        ++st().states;
        try {
            auto mesh = to_mesh<double, D>(g, data);
            auto f = make_fun<double, D, O>(g, mesh);
            auto t = make_tpl<double, D, O>(g);
            intp::InterpolationFunction<double, D, O> f2;
            t.interpolate(f2, mesh);
            std::array<std::vector<double>, D> p;
            std::array<std::vector<std::vector<Cand>>, D> w;
            for (size_t d = 0; d < D; ++d) {
                const Axis& a = g.ax[d];
                p[d] = thin(piece_points(r.s[d], O + 1), D == 1 ? 30 : D == 2 ? 6 : 3, idx);
                keep_inside(a, p[d]);
                p[d].push_back(a.a());
                p[d].push_back(a.b());
                p[d].push_back(a.b() + 0.3 * (a.b() - a.a()));
                p[d].push_back(a.a() - 0.2 * (a.b() - a.a()));
                for (size_t m = 0; m < 2; ++m) w[d].push_back(weights_at(r.s[d], p[d], m));
            }
            std::array<size_t, D> k;
            k.fill(0);
            for (size_t n = 0;; ++n) {
                std::array<double, D> x;
                std::array<size_t, D> m;
                std::array<const Cand*, D> c, c1;
                for (size_t d = 0; d < D; ++d) {
                    x[d] = p[d][k[d]];
                    m[d] = (n + d) % 2;
                    c[d] = &w[d][0][k[d]];
                    c1[d] = &w[d][m[d]][k[d]];
                }
                real want;
                double got = n % 2 ? f(x) : f2(x);
                double der = f.derivative(x, m);
                st().transitions += 2;
                if (!matches<D>(r, rd, c, got, 1e-8L, &want))
                    fail("value %.17g, reference %.17Lg", got, want);
                if (!matches<D>(r, rd, c1, der, 1e-8L, &want))
                    fail("derivative %.17g, reference %.17Lg", der, want);
                size_t d = 0;
                for (; d < D; ++d) {
                    if (++k[d] < p[d].size()) break;
                    k[d] = 0;
                }
                if (d == D) break;
            }
        } catch (const std::exception& e) {
            setcase("%s", base.c_str());
            fail("valid input rejected: %s", e.what());
        }
        ++st().traces;
    }
};

template <size_t O>
void all() {
    for (int per = 0; per < 2; ++per) {
        Try<O>::sequences(per != 0);
        Try<O>::long_sequences(per != 0);
    }
    Try<O>::spline();
    size_t idx = 0;
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni)
            for (const Axis& a : axes_1d(O, per, uni, st().thorough)) {
                Grid<1> g;
                g.ax[0] = a;
                Valid<1, O>()(g, idx++);
            }
    std::vector<std::array<size_t, 2>> e2 = {{{0, 1}}, {{3, 2}}};
    for_grids<2>(O, e2, Valid<2, O>());
    std::vector<std::array<size_t, 3>> e3 = {{{1, 0, 2}}};
    for_grids<3>(O, e3, Valid<3, O>(), st().thorough ? 1 : 3);
}

int main(int argc, char** argv) {
    init(argc, argv);
    struct Null : std::streambuf {
        int overflow(int c) { return c; }
        std::streamsize xsputn(const char*, std::streamsize n) { return n; }
    };
    static Null nul;
    std::cout.rdbuf(&nul);
    elements();
    all<ORD>();
    return done();
}
