// C01..C05: exhaustive comparison of values/derivatives with the reference
// spline. Compile with -DPART=1..5 -DORD=<order> [-DMAXD=1..4].
#include "h.hpp"
#ifndef MAXD
#define MAXD 3
#endif
using namespace h;
static const real REL = PART == 1 ? 1e-10L : PART == 2 ? 1e-9L : 1e-8L;

template <size_t D>
struct Pts {
    std::array<std::vector<double>, D> p;
};

// per-dimension coordinates for this part
static std::vector<double> coords(const Spline1D& s, size_t dim, size_t D,
                                  size_t idx) {
    const Axis& a = s.ax;
    std::vector<double> p;
    size_t cap = D == 1 ? 100000 : D == 2 ? 26 : D == 3 ? 9 : 5;
    if (D == 3 && s.k >= 4) cap = 6;
    if (D == 2 && s.k >= 5) cap = 16;
    if (st().thorough) cap = D == 1 ? 100000 : D == 2 ? 60 : D == 3 ? 14 : 6;
    if (PART == 1) {
        for (double x : a.x) p.push_back(x);
        return p;
    }
    std::vector<double> piece =
        piece_points(s, D == 1 ? s.k + 2 : s.k / 2 + 1);
    std::vector<double> spec = special_points(s, D == 1);
    keep_inside(a, piece);
    keep_inside(a, spec);
    if (PART == 2 || PART == 5) {
        size_t c1 = PART == 5 && D == 1 ? 160 : cap - cap / 3;
        p = thin(piece, c1, idx + dim);
        std::vector<double> q = thin(spec, PART == 5 && D == 1 ? 60 : cap / 3 + 2, idx);
        p.insert(p.end(), q.begin(), q.end());
        // ends of the range always
        p.push_back(a.a());
        p.push_back(a.b());
        return p;
    }
    if (PART == 3) {
        if (a.periodic) return thin(piece, 3, idx);
        double L = a.b() - a.a();
        static const double f[] = {1e-9, 0.01, 0.26, 0.5, 1, 1.75, 4, 11, 3e3};
        size_t nf = D == 1 ? 9 : 8;
        if (D < 3) {
            p.push_back(down(a.a()));
            p.push_back(up(a.b()));
        }
        for (size_t i = 0; i < nf; ++i) {
            if (D == 3 && i % 3 != idx % 3 && i != 3) continue;
            if (D == 4 && i != 2 + idx % 4) continue;
            p.push_back(a.a() - f[i] * L);
            p.push_back(a.b() + f[i] * L);
        }
        std::vector<double> q = thin(piece, D == 1 ? 6 : 2, idx);
        p.insert(p.end(), q.begin(), q.end());
        p.push_back(a.a());
        p.push_back(a.b());
        return p;
    }
    // PART 4
    if (!a.periodic) {
        p = thin(piece, 3, idx);
        p.push_back(a.a());
        p.push_back(a.b());
        return p;
    }
    double P = a.period();
    std::vector<double> base = thin(piece, D == 1 ? 60 : D == 2 ? 4 : 2, idx);
    std::vector<double> q = thin(spec, D == 1 ? 400 : D == 2 ? 16 : 6, idx);
    if (D == 1 && a.x.size() > 12) q = thin(spec, 60, idx);
    base.insert(base.end(), q.begin(), q.end());
    base.push_back(a.a());
    base.push_back(a.b());
    base.push_back(double(s.lo()));
    base.push_back(double(s.hi()));
    if (D <= 2) {
        base.push_back(down(a.a()));
        base.push_back(up(a.b()));
        base.push_back(down(double(s.lo())));
        base.push_back(up(double(s.hi())));
    }
    // large orders: fewer, but all special, coordinates
    if (D == 1 && s.k >= 4 && a.x.size() > 9) base = thin(base, 70, idx);
    static const long ks[] = {1, -1, 2, -2, 3, -3, 7, -11, 1000, -1000, 0};
    for (size_t i = 0; i < base.size(); ++i)
        for (size_t j = 0; j < 11; ++j) {
            if (D == 2 && (i + j + idx) % 4 && base.size() - i > 8) continue;
            if (D >= 3 && (i * 3 + j + idx) % 7) continue;
            p.push_back(base[i] + double(ks[j]) * P);
        }
    // far away, where coordinates, grid points and the middles between them are
    // still exact (the number of periods multiplies every rounding)
    bool exact = a.a() == 0 && P == std::floor(P) && P < 1e3;
    for (double x : a.x) exact = exact && x * 32 == std::floor(x * 32);
    if (exact)
        for (double k : {65537., -65537., 2147483649., -2147483649.,
                         4294967297., -4294967297., 1e12, -1e12})
            for (size_t i = 0; i < (D == 1 ? 8 : 1); ++i) {
                double x = std::floor(P * 8 * double(i + idx % 5) / 8) / 8;
                if (D > 1 && (idx + size_t(k < 0)) % 2) continue;
                p.push_back(x + k * P);
            }
    if (D == 2) p = thin(p, st().thorough ? 120 : 60, idx);
    if (D >= 3) p = thin(p, st().thorough ? 14 : 9, idx);
    return p;
}

// derivative order tuples checked in this part
template <size_t D>
static std::vector<std::array<size_t, D>> derivs(size_t O, size_t idx) {
    std::vector<std::array<size_t, D>> v;
    std::array<size_t, D> z;
    z.fill(0);
    if (PART <= 2) {
        v.push_back(z);
        return v;
    }
    size_t m = PART == 5 ? O + 3 : O + 1;  // orders 0..m-1
    size_t tot = 1;
    for (size_t d = 0; d < D; ++d) tot *= m;
    for (size_t i = 0; i < tot; ++i) {
        size_t t = i;
        std::array<size_t, D> a;
        for (size_t d = 0; d < D; ++d) {
            a[d] = t % m;
            t /= m;
        }
        // outside C05 every order is still met, combinations are thinned
        if (PART != 5 && D == 2 && i && (i + idx) % 3) continue;
        if (PART != 5 && D >= 3 && i && (i + idx) % 11) continue;
        if (PART == 5 && D == 3 && !st().thorough &&
            (i + idx) % (O < 4 ? 3 : 3 * O))
            continue;
        if (PART == 5 && D == 4 && (i + idx) % 9) continue;
        if (PART == 5 && D == 5 && (i + idx) % 31) continue;
        v.push_back(a);
    }
    return v;
}

template <size_t D, size_t O>
static void check_grid(const Grid<D>& g, size_t idx) {
    if (!mine()) return;
    setcase("%s D=%zu", g.str(O).c_str(), D);
    Ref<D> r(g, O);
    if (!r.ok) {
        fail("reference collocation matrix singular (harness domain error)");
        return;
    }
    ++st().states;
    sample();
    const std::string base = scase();
    std::array<std::vector<double>, D> p;
    for (size_t d = 0; d < D; ++d) p[d] = coords(r.s[d], d, D, idx);
    if (D == 5 && PART != 1)
        for (size_t d = 0; d < D; ++d) p[d] = thin(p[d], 3, idx + d);
    std::vector<std::array<size_t, D>> ds = derivs<D>(O, idx);
    size_t maxm = 0;
    for (auto& a : ds)
        for (size_t m : a) maxm = m > maxm ? m : maxm;
    // weights[d][m][point]
    std::array<std::vector<std::vector<Cand>>, D> w;
    for (size_t d = 0; d < D; ++d)
        for (size_t m = 0; m <= maxm; ++m)
            w[d].push_back(weights_at(r.s[d], p[d], m));
    size_t total = g.total();
    // data sets: all unit impulses of small grids (they span all data), plus
    // generic data
    size_t nimp = PART == 2 || PART == 1
                      ? (D == 1 ? (total <= 16 ? total : 6)
                         : D == 2 ? (total <= 30 ? total : 12)
                                  : 4)
                      : (D == 1 ? (total <= (O < 4 ? 12 : 0) ? total : 4) : 1);
    for (size_t di = 0; di <= nimp; ++di) {
        std::vector<double> data =
            di == nimp ? generic_data(total, idx)
                       : impulse(total, nimp == total ? di
                                                      : (idx + di * total /
                                                                   nimp) %
                                                            total);
        if (di == nimp) {
            static const double scale[5] = {1, 1e-120, 1e140, 1e7, 1e-9};
            for (double& v : data) v *= scale[idx % 5];
        }
        std::vector<real> rd = to_real(data);
        setcase("%s data=%s%zu construct", base.c_str(),
                di == nimp ? "generic" : "impulse", di == nimp ? idx : di);
        intp::Mesh<double, D> mesh = to_mesh<double, D>(g, data);
        intp::InterpolationFunction<double, D, O> f =
            make_fun<double, D, O>(g, mesh);
        std::array<size_t, D> k;
        k.fill(0);
        for (;;) {
            std::array<double, D> x;
            for (size_t d = 0; d < D; ++d) x[d] = p[d][k[d]];
            for (size_t e = 0; e < ds.size(); ++e) {
                if (D == 2 && PART == 5 && ds.size() > 20 &&
                    (e + k[0] + 3 * k[1]) % (st().thorough ? 2 : O < 4 ? 6 : 2 * O))
                    continue;
                if (D >= 3 && ds.size() > 8 &&
                    (e + k[0] + 3 * k[1] + 5 * k[D - 1]) %
                        (st().thorough ? 4 : 12))
                    continue;
                double got;
                bool allzero = true;
                for (size_t m : ds[e]) allzero = allzero && m == 0;
                if (D == 1) case_buf()[0] = 0;
                if (allzero && PART != 5)
                    got = f(x);
                else
                    got = f.derivative(x, ds[e]);
                ++st().transitions;
                std::array<const Cand*, D> c;
                for (size_t d = 0; d < D; ++d) c[d] = &w[d][ds[e][d]][k[d]];
                real want = 0;
                bool good;
                if (PART == 1) {
                    // the data itself is the oracle
                    size_t flat = 0;
                    for (size_t d = 0; d < D; ++d)
                        flat = flat * r.n[d] + k[d] % r.n[d];
                    want = rd[flat];
                    real dm = 0;
                    for (real v : rd)
                        if (std::fabs(v) > dm) dm = std::fabs(v);
                    good = near(got, want, REL * dm * r.cond);
                } else {
                    good = matches<D>(r, rd, c, got, REL, &want);
                }
                if (!good) {
                    std::string s = base + " x=(", t;
                    char b[80];
                    for (size_t d = 0; d < D; ++d) {
                        snprintf(b, sizeof b, "%s%.17g", d ? "," : "", x[d]);
                        s += b;
                        snprintf(b, sizeof b, "%s%zu", d ? "," : "", ds[e][d]);
                        t += b;
                    }
                    setcase("%s) derivative=(%s) data=%s%zu", s.c_str(),
                            t.c_str(), di == nimp ? "generic" : "impulse",
                            di == nimp ? idx : di);
                    fail("got %.17g, expected %.17Lg", got, want);
                }
                if (PART == 5 && e % 7 == 0 && di == nimp) {
                    // all call forms agree
                    double v1 = f.derivative_at(x, ds[e]);
                    st().transitions += 1;
                    bool same = v1 == got || (v1 != v1 && got != got);
                    if (!same) {
                        setcase("%s", base.c_str());
                        fail("derivative_at %.17g != derivative %.17g", v1,
                             got);
                    }
                }
            }
            size_t d = 0;
            for (; d < D; ++d) {
                if (++k[d] < p[d].size()) break;
                k[d] = 0;
            }
            if (d == D) break;
        }
        ++st().traces;
    }
}

// grids too large for the reference: every datum is met again
template <size_t D, size_t O>
static void check_data(const Grid<D>& g) {
    if (!mine()) return;
    setcase("%s D=%zu", g.str(O).c_str(), D);
    ++st().states;
    sample();
    const std::string base = scase();
    size_t total = g.total();
    std::vector<size_t> n = g.sites();
    std::vector<double> data = generic_data(total, 3);
    intp::InterpolationFunction<double, D, O> f =
        make_fun<double, D, O>(g, to_mesh<double, D>(g, data));
    for (size_t i = 0; i < total; ++i) {
        std::array<size_t, D> k = unflat<D>(i, n);
        std::array<double, D> x;
        for (size_t d = 0; d < D; ++d) x[d] = g.ax[d].x[k[d]];
        double got = f(x);
        ++st().transitions;
        if (!near(got, data[i], 1e-7L)) {
            setcase("%s point %zu", base.c_str(), i);
            fail("got %.17g, expected %.17g", got, data[i]);
            break;
        }
    }
    ++st().traces;
}

#if PART >= 2
// Grids too large for the dense reference: cardinal functions decay
// geometrically, so the spline around a point is that of the surrounding
// window of data (with the true end of the grid where the window reaches it).
static Axis window(const Axis& a, long c, long W, std::vector<size_t>& pick) {
    Axis w;
    w.periodic = a.periodic;
    w.uniform = a.uniform;
    long n = long(a.sites()), lo = c - W, hi = c + W;
    if (!a.periodic) {
        if (lo < 0) lo = 0;
        if (hi > n - 1) hi = n - 1;
    }
    for (long i = lo; i <= hi; ++i) {
        long k = (i % n + n) % n, turn = (i - k) / n;
        w.x.push_back(a.x[size_t(k)] + double(turn) * a.period());
        if (!a.periodic || i < hi) pick.push_back(size_t(k));
    }
    return w;
}
template <size_t D, size_t O>
static void check_window(const Grid<D>& g,
                         const intp::InterpolationFunction<double, D, O>& f,
                         const std::vector<double>& data,
                         std::array<long, D> c, long W, size_t idx) {
    if (!mine()) return;
    setcase("%s D=%zu window at %ld", g.str(O).c_str(), D, c[0]);
    ++st().states;
    sample();
    const std::string base = scase();
    Grid<D> sub;
    std::array<std::vector<size_t>, D> pick;
    for (size_t d = 0; d < D; ++d)
        sub.ax[d] = window(g.ax[d], c[d], W, pick[d]);
    Ref<D> r(sub, O);
    if (!r.ok) {
        fail("reference collocation matrix singular (harness domain error)");
        return;
    }
    std::vector<size_t> n = g.sites(), wn = sub.sites();
    std::vector<real> rd;
    for (size_t i = 0; i < sub.total(); ++i) {
        std::array<size_t, D> k = unflat<D>(i, wn);
        size_t flat = 0;
        for (size_t d = 0; d < D; ++d) flat = flat * n[d] + pick[d][k[d]];
        rd.push_back(data[flat]);
    }
    // coordinates in the cells around the centre
    std::array<std::vector<double>, D> p;
    std::array<std::vector<bool>, D> knot;
    for (size_t d = 0; d < D; ++d) {
        const Axis& w = sub.ax[d];
        long mid = c[d] < W && !g.ax[d].periodic ? c[d] : W;
        long last = long(w.x.size()) - 1;
        for (long i = mid - 2; i <= mid + 2; ++i) {
            if (i < 0 || i > last) continue;
            double x = w.x[size_t(i)];
            p[d].push_back(x);
            knot[d].push_back(true);
            if (i == last) continue;
            double h = w.x[size_t(i) + 1] - x;
            static const double fr[4] = {0.13, 0.41, 0.5, 0.87};
            for (size_t k = 0; k < 4; ++k) {
                if (D > 1 && (k + size_t(i) + idx) % 4) continue;
                p[d].push_back(x + fr[k] * h);
                knot[d].push_back(k == 2);
            }
        }
        if (PART == 3 && !g.ax[d].periodic) {
            double h0 = w.x[1] - w.x[0],
                   h1 = w.x[size_t(last)] - w.x[size_t(last) - 1];
            static const double fr[4] = {1e-3, 0.5, 3, 11};
            for (double e : fr) {
                if (mid < 3) {
                    p[d].push_back(w.a() - e * h0);
                    knot[d].push_back(false);
                }
                if (mid > last - 3) {
                    p[d].push_back(w.b() + e * h1);
                    knot[d].push_back(false);
                }
            }
        }
    }
    std::vector<std::array<size_t, D>> ds;
    for (size_t m = 0; m <= (PART == 2 ? 0 : O); ++m) {
        std::array<size_t, D> t;
        t.fill(m);
        if (D > 1) t[1] = (m + idx) % (O + 1);
        if (PART == 2) t.fill(0);
        ds.push_back(t);
    }
    std::array<std::vector<std::vector<Cand>>, D> w;
    for (size_t d = 0; d < D; ++d)
        for (size_t m = 0; m <= O; ++m)
            w[d].push_back(weights_at(r.s[d], p[d], m));
    std::array<size_t, D> k;
    k.fill(0);
    for (;;) {
        for (size_t e = 0; e < ds.size(); ++e) {
            // the highest derivative jumps at knots
            bool skip = D > 1 && e && (e + k[0] + k[D - 1]) % 3 == 0;
            for (size_t d = 0; d < D; ++d)
                if (ds[e][d] == O && knot[d][k[d]]) skip = true;
            if (skip) continue;
            static const double turns[] = {0, 1, -1, 5, -100};
            for (size_t t = 0; t < (PART == 4 ? 5 : 1); ++t) {
                std::array<double, D> x;
                for (size_t d = 0; d < D; ++d) {
                    const Axis& a = g.ax[d];
                    x[d] = p[d][k[d]];
                    if (!a.periodic) continue;
                    if (PART == 4) x[d] += turns[t] * a.period();
                    else if (x[d] < a.a()) x[d] += a.period();
                    else if (x[d] > a.b()) x[d] -= a.period();
                }
                bool zero = true;
                for (size_t m : ds[e]) zero = zero && m == 0;
                double got = zero && PART != 5 ? f(x) : f.derivative(x, ds[e]);
                ++st().transitions;
                std::array<const Cand*, D> cd;
                for (size_t d = 0; d < D; ++d) cd[d] = &w[d][ds[e][d]][k[d]];
                real want = 0;
                if (!matches<D>(r, rd, cd, got, 1e-7L, &want)) {
                    setcase("%s x=%.17g,%.17g derivative=%zu,%zu", base.c_str(),
                            x[0], x[D - 1], ds[e][0], ds[e][D - 1]);
                    fail("got %.17g, expected %.17Lg", got, want);
                }
            }
        }
        size_t d = 0;
        for (; d < D; ++d) {
            if (++k[d] < p[d].size()) break;
            k[d] = 0;
        }
        if (d == D) break;
    }
    ++st().traces;
}
template <size_t O>
static void large_grids() {
    size_t idx = 0;
    for (size_t n : {size_t(1029), size_t(4099), size_t(66003)})
        for (int per = 0; per < 2; ++per)
            for (int uni = 0; uni < 2; ++uni) {
                if (PART == 3 && per) continue;
                if (PART == 4 && !per) continue;
                Grid<1> g;
                g.ax[0] = uni ? uniform_axis(per, n, n % 4)
                              : nonuniform_axis(per, n, 5 + n, 1);
                std::vector<double> data = generic_data(n, 11);
                intp::InterpolationFunction<double, 1, O> f =
                    make_fun<double, 1, O>(g, to_mesh<double, 1>(g, data));
                for (long c : {0L, 3L, 256L, 512L, 1024L, 4096L, 32768L, 65536L,
                               long(n) / 2, long(n) - 5, long(n) - 1}) {
                    if (c >= long(n)) continue;
                    if (PART == 3 && c > 3 && c < long(n) - 5) continue;
                    check_window<1, O>(g, f, data, {{c}}, O < 4 ? 40 : 60,
                                       idx++);
                }
            }
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni) {
            Grid<2> g;
            g.ax[0] = uni ? uniform_axis(per, 263, 1)
                          : nonuniform_axis(per, 263, 7, 1);
            g.ax[1] = uni ? nonuniform_axis(!per, 259, 8, 0)
                          : uniform_axis(!per, 259, 0);
            std::vector<double> data = generic_data(g.total(), 12);
            intp::InterpolationFunction<double, 2, O> f =
                make_fun<double, 2, O>(g, to_mesh<double, 2>(g, data));
            check_window<2, O>(g, f, data, {{1, 257}}, 30, idx++);
            check_window<2, O>(g, f, data, {{131, 2}}, 30, idx++);
            check_window<2, O>(g, f, data, {{256, 130}}, 30, idx++);
        }
}
#endif

template <size_t D>
struct Fwd {
    template <size_t O>
    struct With {
        void operator()(const Grid<D>& g, size_t i) const {
            check_grid<D, O>(g, i);
        }
    };
};

template <size_t O>
static void run_all() {
    bool th = st().thorough;
    size_t idx = 0;
#if MAXD >= 1
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni)
            for (const Axis& a : axes_1d(O, per, uni, th)) {
                Grid<1> g;
                g.ax[0] = a;
                check_grid<1, O>(g, idx++);
            }
#endif
#if PART == 1
    // far more points than fit a 16 bit index
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni) {
            Grid<1> g;
            g.ax[0] = uni ? uniform_axis(per, 66003, 1)
                          : nonuniform_axis(per, 66003, 5, 1);
            check_data<1, O>(g);
            Grid<2> g2;
            g2.ax[0] = uni ? uniform_axis(per, 263, 1)
                           : nonuniform_axis(per, 263, 7, 1);
            g2.ax[1] = uni ? nonuniform_axis(!per, 259, 8, 0)
                           : uniform_axis(!per, 259, 0);
            check_data<2, O>(g2);
        }
#endif
#if PART >= 2
    large_grids<O>();
#endif
#if MAXD >= 2
    {
        std::vector<std::array<size_t, 2>> ex = {
            {{0, 0}}, {{1, 0}}, {{0, 2}}, {{2, 3}}};
        if (th) {
            ex.push_back({{3, 1}});
            ex.push_back({{5, 4}});
        }
        for_grids<2>(O, ex, typename Fwd<2>::template With<O>());
        // larger, coprime sizes: block splitting, strides
        std::vector<std::array<size_t, 2>> big = {{{12, 7}}, {{9, 16}}};
        for_grids<2>(O, big, typename Fwd<2>::template With<O>(), 3);
        // many lines: more blocks than a thread fetches from a queue at once
        if (PART <= 2) {
            Grid<2> g;
            g.ax[0] = uniform_axis(false, 295, 1);
            g.ax[1] = small_axis(O, true, false, 1, 2);
            check_grid<2, O>(g, 1);
            g.ax[1] = nonuniform_axis(true, 290, 91, 1);
            g.ax[0] = small_axis(O, false, true, 1, 2);
            check_grid<2, O>(g, 2);
        }
    }
#endif
#if MAXD >= 3
    {
        std::vector<std::array<size_t, 3>> ex = {{{0, 1, 2}}, {{2, 0, 1}}};
        if (th) {
            ex.push_back({{0, 0, 0}});
            ex.push_back({{1, 3, 2}});
        }
        if (O >= 5 && !th) ex.resize(1);
        for_grids<3>(O, ex, typename Fwd<3>::template With<O>(),
                     th ? 1 : O >= 5 ? 7 : 2);
    }
#endif
#if MAXD >= 4
    {
        std::vector<std::array<size_t, 4>> ex = {{{0, 1, 2, 1}}};
        for_grids<4>(O, ex, typename Fwd<4>::template With<O>(),
                     th ? 5 : 15);
    }
#endif
#if MAXD >= 5
    {
        std::vector<std::array<size_t, 5>> ex = {{{1, 0, 2, 0, 1}}};
        for_grids<5>(O, ex, typename Fwd<5>::template With<O>(),
                     th ? 11 : 31);
    }
#if ORD == 1
    many_dims<5, 2>(PART == 2 || PART == 5 ? 0 : PART);
    many_dims<6, 1>(PART == 2 || PART == 5 ? 0 : PART);
    many_dims<6, 2>(PART == 2 || PART == 5 ? 0 : PART);
    many_dims<7, 1>(PART == 2 || PART == 5 ? 0 : PART);
#endif
#endif
}

// call forms with fixed arity (C05)
template <size_t O>
static void call_forms() {
#if PART == 5
    Grid<2> g;
    g.ax[0] = small_axis(O, false, true, 2, 1);
    g.ax[1] = small_axis(O, true, false, 2, 2);
    std::vector<double> data = generic_data(g.total(), 5);
    intp::InterpolationFunction<double, 2, O> f =
        make_fun<double, 2, O>(g, to_mesh<double, 2>(g, data));
    Grid<1> g1;
    g1.ax[0] = g.ax[1];
    intp::InterpolationFunction<double, 1, O> f1 =
        make_fun<double, 1, O>(g1, to_mesh<double, 1>(g1, generic_data(g1.total(), 6)));
    Ref<2> r(g, O);
    for (double x : piece_points(r.s[0], 2))
        for (double y : piece_points(r.s[1], 2))
            for (size_t i = 0; i <= O + 2; ++i)
                for (size_t j = 0; j <= O + 2; ++j) {
                    setcase("order=%zu call forms x=(%.17g,%.17g) m=(%zu,%zu)",
                            size_t(O), x, y, i, j);
                    std::array<double, 2> c = {{x, y}};
                    std::array<size_t, 2> m = {{i, j}};
                    double v[6] = {
                        f.derivative(c, m),
                        f.derivative(c, i, j),
                        f.derivative(std::make_pair(x, int(i)),
                                     std::make_pair(y, int(j))),
                        f.derivative_at(c, m),
                        f.derivative_at(c, int(i), unsigned(j)),
                        f.derivative_at(std::make_pair(x, i),
                                        std::make_pair(y, j)),
                    };
                    st().transitions += 6;
                    for (int k = 1; k < 6; ++k)
                        if (!(v[k] == v[0]))
                            fail("call form %d gives %.17g, form 0 %.17g", k,
                                 v[k], v[0]);
                    if (i == 0 && j == 0 &&
                        !near(f(c), v[0], 1e-11L * 10))
                        fail("derivative of order 0 %.17g is not the value "
                             "%.17g", v[0], f(c));
                    if (i == j && i < 9) {
                        static const size_t huge[9] = {
                            17, 127, 128, 255, 256, 65536, 65537,
                            size_t(1) << 32, size_t(-1)};
                        m[j % 2] = huge[i];
                        double z = f.derivative(c, m), z2 = f.derivative_at(c, m);
                        if (z != 0 || z2 != 0)
                            fail("derivative of order %zu is %.17g", huge[i], z);
                        double q[4] = {
                            f.derivative(c, m[0], m[1]),
                            f.derivative_at(c, m[0], m[1]),
                            f.derivative(std::make_pair(x, m[0]),
                                         std::make_pair(y, m[1])),
                            f.derivative_at(std::make_pair(x, m[0]),
                                            std::make_pair(y, m[1]))};
                        st().transitions += 4;
                        for (double u : q)
                            if (u != 0)
                                fail("derivative of order %zu is %.17g in "
                                     "another call form", huge[i], u);
                    }
                    if ((i > O || j > O) && v[0] != 0)
                        fail("derivative above spline order is %.17g", v[0]);
                    double w[4] = {f1.derivative({{y}}, j),
                                   f1.derivative(std::make_pair(y, j)),
                                   f1.derivative_at({{y}}, j),
                                   f1.derivative_at(std::make_pair(y, j))};
                    st().transitions += 4;
                    for (int k = 1; k < 4; ++k)
                        if (!(w[k] == w[0]))
                            fail("1D call form %d gives %.17g, form 0 %.17g",
                                 k, w[k], w[0]);
                }
    ++st().states;
#endif
}

int main(int argc, char** argv) {
    init(argc, argv);
    run_all<ORD>();
    call_forms<ORD>();
    return done();
}
