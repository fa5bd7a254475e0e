// C20: value and coordinate types. Every supported type must give the spline
// of its components; coordinate types denote the same grid as double.
#include <complex>
#include "h.hpp"
using namespace h;

// a small vector value type with the minimum of operations the library needs
struct Vec3 {
    double v[3];
    Vec3(double a = 0) : v{a, a, a} {}
    Vec3(double a, double b, double c) : v{a, b, c} {}
    Vec3& operator+=(const Vec3& o) {
        for (int i = 0; i < 3; ++i) v[i] += o.v[i];
        return *this;
    }
    Vec3& operator-=(const Vec3& o) {
        for (int i = 0; i < 3; ++i) v[i] -= o.v[i];
        return *this;
    }
    Vec3& operator*=(double s) {
        for (int i = 0; i < 3; ++i) v[i] *= s;
        return *this;
    }
    Vec3& operator/=(double s) {
        for (int i = 0; i < 3; ++i) v[i] /= s;
        return *this;
    }
    Vec3 operator-() const { return Vec3(-v[0], -v[1], -v[2]); }
    bool operator==(const Vec3& o) const {
        return v[0] == o.v[0] && v[1] == o.v[1] && v[2] == o.v[2];
    }
    bool operator!=(const Vec3& o) const { return !(*this == o); }
    friend Vec3 operator+(Vec3 a, const Vec3& b) { return a += b; }
    friend Vec3 operator-(Vec3 a, const Vec3& b) { return a -= b; }
    friend Vec3 operator*(double s, Vec3 a) { return a *= s; }
    friend Vec3 operator*(Vec3 a, double s) { return a *= s; }
    friend Vec3 operator/(Vec3 a, double s) { return a /= s; }
};

template <typename T>
struct Comp {  // real scalars
    static const size_t n = 1;
    static const bool deriv = true;
    static T make(const real* c) { return T(c[0]); }
    static real get(const T& t, size_t) { return t; }
    static real eps() { return std::numeric_limits<T>::epsilon(); }
};
template <typename R>
struct Comp<std::complex<R>> {
    static const size_t n = 2;
    static const bool deriv = true;
    static std::complex<R> make(const real* c) {
        return std::complex<R>(R(c[0]), R(c[1]));
    }
    static real get(const std::complex<R>& t, size_t i) {
        return i ? t.imag() : t.real();
    }
    static real eps() { return std::numeric_limits<R>::epsilon(); }
};
template <>
struct Comp<Vec3> {
    static const size_t n = 3;
    static const bool deriv = true;
    static Vec3 make(const real* c) { return Vec3(double(c[0]), double(c[1]), double(c[2])); }
    static real get(const Vec3& t, size_t i) { return t.v[i]; }
    static real eps() { return std::numeric_limits<double>::epsilon(); }
};

template <bool B>
struct Der {
    template <typename F, typename X, typename M>
    static auto go(const F& f, const X& x, const M& m) -> decltype(f(x)) {
        return f.derivative(x, m);
    }
};
template <>
struct Der<false> {
    template <typename F, typename X, typename M>
    static auto go(const F& f, const X& x, const M&) -> decltype(f(x)) {
        return f(x);
    }
};

// how coordinates are handed over
// SCALED: a third of the grid, whose coordinates use all digits of their type
enum Form { NATIVE, FLOAT, INT, LONG_DOUBLE, SCALED };

static real& worst_data() {
    static real w = 0;
    return w;
}
static const real DATA_TOL = 8;

template <typename T, size_t D, size_t O, typename U>
struct Types {
    typedef Comp<T> C;
    typedef intp::InterpolationFunction<T, D, O, U> F;
    typedef intp::InterpolationFunctionTemplate<T, D, O, U> TP;
    template <size_t I, typename E>
    struct Mk {
        template <typename Fn, typename... Ps>
        static F go(Fn& fn, const std::array<std::vector<E>, D>& xs,
                    const std::array<bool, D>& uni, Ps... ps) {
            return uni[I] ? Mk<I + 1, E>::go(fn, xs, uni, ps...,
                                             std::make_pair(xs[I].front(),
                                                            xs[I].back()))
                          : Mk<I + 1, E>::go(fn, xs, uni, ps...,
                                             std::make_pair(xs[I].begin(),
                                                            xs[I].end()));
        }
    };
    template <typename E>
    struct Mk<D, E> {
        template <typename Fn, typename... Ps>
        static F go(Fn& fn, const std::array<std::vector<E>, D>&,
                    const std::array<bool, D>&, Ps... ps) {
            return fn(ps...);
        }
    };
    struct Direct {
        std::array<bool, D> per;
        const intp::Mesh<T, D>& m;
        template <typename... Ps>
        F operator()(Ps... ps) {
            return F(per, m, ps...);
        }
    };
    struct ViaT {
        std::array<bool, D> per;
        const intp::Mesh<T, D>& m;
        template <typename... Ps>
        F operator()(Ps... ps) {
            TP t(per, m.dimension(), ps...);
            return t.interpolate(m);
        }
    };
    template <typename E>
    static F make(const Grid<D>& g, const intp::Mesh<T, D>& m, bool tpl,
                  bool third = false) {
        std::array<std::vector<E>, D> xs;
        std::array<bool, D> uni;
        for (size_t d = 0; d < D; ++d) {
            for (double x : g.ax[d].x)
                xs[d].push_back(third ? E(x) / E(3) : E(x));
            uni[d] = g.ax[d].uniform;
        }
        ++st().transitions;
        if (tpl) {
            ViaT v{g.per(), m};
            return Mk<0, E>::go(v, xs, uni);
        }
        Direct v{g.per(), m};
        return Mk<0, E>::go(v, xs, uni);
    }
    // evaluation arguments of every arithmetic type mean the same point
    static void same(const T& a, const T& b, const char* w) {
        ++st().transitions;
        for (size_t c = 0; c < C::n; ++c)
            if (C::get(a, c) != C::get(b, c))
                fail("%s argument: %.17Lg instead of %.17Lg", w, C::get(a, c),
                     C::get(b, c));
    }
    template <size_t N>
    struct IntTag {};
    template <typename F1>
    static void args(const F1& f, const Grid<1>& g, IntTag<1>) {
        for (double x : g.ax[0].x) {
            std::array<U, 1> a{{U(x)}};
            T w = f(a);
            same(f(int(x)), w, "int");
            same(f(float(x)), w, "float");
            same(f(double(x)), w, "double");
            same(f((long double)(x)), w, "long double");
            same(f.at(int(x)), w, "checked int");
            same(f.at(float(x)), w, "checked float");
            for (size_t m = 0; m < 3; ++m) {
                T z = f.derivative(a, std::array<size_t, 1>{{m}});
                same(f.derivative(std::make_pair(int(x), m)), z, "int pair");
                same(f.derivative(std::make_pair(float(x), int(m))), z, "float pair");
                same(f.derivative((std::make_pair)((long double)(x), m)), z, "long double pair");
                same(f.derivative_at(std::make_pair(int(x), char(m))), z, "checked int pair");
                same(f.derivative_at(std::make_pair(double(x), short(m))), z, "checked double pair");
                same(f.derivative_at((std::make_pair)((long double)(x), m)), z, "checked long double pair");
            }
        }
    }
    template <typename F1>
    static void args(const F1& f, const Grid<2>& g, IntTag<2>) {
        for (double x : g.ax[0].x)
            for (double y : g.ax[1].x) {
                std::array<U, 2> a{{U(x), U(y)}};
                T w = f(a);
                same(f(int(x), double(y)), w, "int,double");
                same(f(float(x), int(y)), w, "float,int");
                same(f((long double)(x), float(y)), w, "long double,float");
                same(f.at(double(x), int(y)), w, "checked double,int");
                T z = f.derivative(a, std::array<size_t, 2>{{1, 0}});
                same(f.derivative(std::make_pair(int(x), 1), std::make_pair(float(y), 0)), z, "int,float pairs");
                same(f.derivative_at(std::make_pair(float(x), 1u), std::make_pair((long double)(y), 0)), z, "checked float,long double pairs");
            }
    }
    template <typename F1, size_t N>
    static void args(const F1&, const Grid<N>&, IntTag<N>) {}
#ifdef INTP_CELL_LAYOUT
    template <typename T1, typename F1>
    static void proxy(const T1& t, const F1& f, const Grid<1>& g, IntTag<1>) {
        for (double x : g.ax[0].x) {
            std::array<U, 1> a{{U(x)}};
            T w = t.eval_proxy(a)(f);
            same(t.eval_proxy(int(x))(f), w, "proxy int");
            same(t.eval_proxy(float(x))(f), w, "proxy float");
            same(t.eval_proxy((long double)(x))(f), w, "proxy long double");
        }
    }
    template <typename T1, typename F1>
    static void proxy(const T1& t, const F1& f, const Grid<2>& g, IntTag<2>) {
        for (double x : g.ax[0].x) {
            double y = g.ax[1].x[1];
            std::array<U, 2> a{{U(x), U(y)}};
            T w = t.eval_proxy(a)(f);
            same(t.eval_proxy(int(x), float(y))(f), w, "proxy int,float");
            same(t.eval_proxy((long double)(x), int(y))(f), w, "proxy long double,int");
        }
    }
    template <typename T1, typename F1, size_t N>
    static void proxy(const T1&, const F1&, const Grid<N>&, IntTag<N>) {}
    struct ProxyArgs {
        const Grid<D>& g;
        const intp::Mesh<T, D>& m;
        template <typename... Ps>
        F operator()(Ps... ps) {
            TP t(g.per(), m.dimension(), ps...);
            F f = t.interpolate(m);
            proxy(t, f, g, IntTag<D>());
            return f;
        }
    };
#endif
    static void go(const Grid<D>& g, size_t idx, const char* tn, Form form) {
        if (!mine()) return;
        setcase("%s form=%d %s D=%zu", tn, int(form), g.str(O).c_str(), D);
        Ref<D> r(g, O);
        if (!r.ok) return;
        ++st().states;
        sample();
        size_t n = g.total();
        // data using all digits of the value type
        std::vector<std::vector<real>> comp(C::n);
        for (size_t c = 0; c < C::n; ++c) {
            comp[c] = to_real(generic_data(n, idx * 3 + c));
            for (real& x : comp[c]) {
                real t[3] = {x / 3, x / 3, x / 3};
                x = C::get(C::make(t), c);
            }
        }
        std::vector<T> v(n), v2(n), vs(n);
        for (size_t i = 0; i < n; ++i) {
            real c[3], c2[3], c3[3];
            for (size_t k = 0; k < C::n; ++k) {
                c[k] = comp[k][i];
                c2[k] = comp[(k + 1) % C::n][(i * 7 + 3) % n];
                c3[k] = c[k] * 2 - c2[k] * 0.5;
            }
            v[i] = C::make(c);
            v2[i] = C::make(c2);
            vs[i] = C::make(c3);
        }
        intp::Mesh<T, D> m = to_mesh<T, D>(g, v);
        bool tpl = idx % 2;
        const bool third = form == SCALED;
        F f = form == FLOAT ? make<float>(g, m, tpl)
              : form == INT ? make<int>(g, m, tpl)
              : form == LONG_DOUBLE ? make<long double>(g, m, tpl)
                                    : make<U>(g, m, tpl, third);
        F f2 = make<U>(g, to_mesh<T, D>(g, v2), !tpl, third);
        F fs = make<U>(g, to_mesh<T, D>(g, vs), tpl, third);
        real ue = std::numeric_limits<U>::epsilon();
        real te = C::eps();
        real eps = ue > te ? ue : te;
        // coordinates of the grid are exact in U; where the library derives
        // knots or wraps, it rounds in U
        std::array<std::vector<U>, D> p;
        for (size_t d = 0; d < D; ++d) {
            std::vector<double> q = piece_points(r.s[d], O < 2 ? 2 : 1);
            // grid points of an order whose pieces join continuously
            if (O >= 1)
                for (double x : g.ax[d].x) q.push_back(x);
            for (double x : thin(q, D == 1 ? 40 : D == 2 ? 7 : 4, idx + d)) {
                if (O >= 1 || std::fabs(x) != std::floor(std::fabs(x)))
                    p[d].push_back(U(x));
                // coordinates using all digits of their type
                U y = U(real(x) + (real(g.ax[d].x[1]) - g.ax[d].x[0]) / 37);
                if (y >= U(g.ax[d].a()) && y <= U(g.ax[d].b()))
                    p[d].push_back(y);
            }
        }
        if (!third) args(f, g, IntTag<D>());
#ifdef INTP_CELL_LAYOUT
        if (form == NATIVE) {
            std::array<std::vector<U>, D> xs;
            std::array<bool, D> uni;
            for (size_t d = 0; d < D; ++d) {
                xs[d].assign(g.ax[d].x.begin(), g.ax[d].x.end());
                uni[d] = g.ax[d].uniform;
            }
            ProxyArgs pa{g, m};
            Mk<0, U>::go(pa, xs, uni);
        }
#endif
        // the data is met again to the precision of the types
        if (!third && O >= 1) {
            real dm = 0;
            for (size_t c = 0; c < C::n; ++c)
                for (real z : comp[c]) dm = std::fabs(z) > dm ? std::fabs(z) : dm;
            std::vector<size_t> sn = g.sites();
            for (size_t i = 0; i < n; ++i) {
                std::array<size_t, D> k = unflat<D>(i, sn);
                std::array<U, D> x;
                for (size_t d = 0; d < D; ++d) x[d] = U(g.ax[d].x[k[d]]);
                T got = f(x);
                ++st().transitions;
                for (size_t c = 0; c < C::n; ++c) {
                    real e = std::fabs(C::get(got, c) - comp[c][i]) /
                             (eps * dm * r.cond);
                    if (e > worst_data()) worst_data() = e;
                    if (!(e <= DATA_TOL))
                        fail("datum %zu component %zu: %.20Lg instead of "
                             "%.20Lg (%.3Lg units)", i, c, C::get(got, c),
                             comp[c][i], e);
                }
            }
        }
        // data scaled by a power of two: everything scales exactly
        real p2 = idx % 2 ? 1.0L / (1 << 30) : real(1 << 30);
        std::vector<T> vp(n);
        for (size_t i = 0; i < n; ++i) {
            real c[3];
            for (size_t k = 0; k < C::n; ++k) c[k] = comp[k][i] * p2;
            vp[i] = C::make(c);
        }
        F fp = make<U>(g, to_mesh<T, D>(g, vp), tpl, third);
        F fu = form == NATIVE || third ? f : make<U>(g, m, tpl, third);
        std::array<size_t, D> k, mo;
        k.fill(0);
        for (size_t step = 0;; ++step) {
            std::array<U, D> x;
            std::array<real, D> X;  // the point in terms of the grid
            for (size_t d = 0; d < D; ++d) {
                x[d] = third ? p[d][k[d]] / U(3) : p[d][k[d]];
                X[d] = third ? real(x[d]) * 3 : real(x[d]);
            }
            for (size_t q = 0; q < (C::deriv ? 3u : 1u); ++q) {
                // derivative orders that keep the result continuous
                bool cont = true;
                for (size_t d = 0; d < D; ++d) {
                    mo[d] = q == 0 ? 0 : (q + d + step) % (O + 1);
                    if (O == 0) mo[d] = 0;
                }
                std::array<Cand, D> cs;
                std::array<const Cand*, D> cp;
                real h = 1, tolx = 0;
                for (size_t d = 0; d < D; ++d) {
                    cs[d] = r.s[d].weights(X[d], mo[d]);
                    cp[d] = &cs[d];
                    // distance to the nearest knot: with coarse coordinate
                    // types a jump may be taken on the other side
                    if (mo[d] + 1 > O) {
                        const Spline1D& s = r.s[d];
                        for (size_t i = s.seg0; i <= s.seg1; ++i)
                            if (std::fabs(s.wrap(X[d]) - s.t[i]) <
                                1e3L * ue * (s.hi() - s.lo() + std::fabs(s.lo())))
                                cont = false;
                    }
                    // argument error of the coordinate type
                    const Spline1D& s = r.s[d];
                    real span = s.hi() - s.lo();
                    real mag = std::fabs(s.lo()) > std::fabs(s.hi())
                                   ? std::fabs(s.lo()) : std::fabs(s.hi());
                    real hm = span;
                    for (size_t i = s.seg0; i < s.seg1; ++i)
                        if (s.t[i + 1] - s.t[i] < hm) hm = s.t[i + 1] - s.t[i];
                    real a = (mag + span) / hm;
                    if (a > tolx) tolx = a;
                    h *= a;
                }
                (void)h;
                if (!cont) continue;
                T got = q == 0 ? f(x) : Der<C::deriv>::go(f, x, mo);
                ++st().transitions;
                real rel = 2 * eps * (1 + tolx) * real(1 + O) *
                           (O > 3 ? real(O - 2) * 2 : 2);
                for (size_t d = 0; d < D; ++d)
                    for (size_t i = 0; i < mo[d]; ++i) rel *= 4;
                real want = 0, unit = 1;  // derivatives by a stretched variable
                for (size_t d = 0; third && d < D; ++d)
                    for (size_t i = 0; i < mo[d]; ++i) unit *= 3;
                for (size_t c = 0; c < C::n; ++c)
                    if (!matches<D>(r, comp[c], cp, C::get(got, c) / unit, rel,
                                    &want)) {
                        std::string xs;
                        for (size_t d = 0; d < D; ++d) {
                            char b[80];
                            snprintf(b, sizeof b, " %.17g(d%zu)", double(x[d]),
                                     mo[d]);
                            xs += b;
                        }
                        fail("component %zu at%s: %.17Lg, reference %.17Lg", c,
                             xs.c_str(), C::get(got, c), want);
                    }
                {
                    T a = q == 0 ? fu(x) : Der<C::deriv>::go(fu, x, mo);
                    T b = q == 0 ? fp(x) : Der<C::deriv>::go(fp, x, mo);
                    for (size_t c = 0; c < C::n; ++c)
                        if (C::get(b, c) != C::get(a, c) * p2)
                            fail("data scaled by %.4Lg: component %zu %.17Lg, "
                                 "not %.17Lg", p2, c, C::get(b, c),
                                 C::get(a, c) * p2);
                }
                // linearity on the implementation itself
                T a = q == 0 ? f2(x) : Der<C::deriv>::go(f2, x, mo);
                T b = q == 0 ? fs(x) : Der<C::deriv>::go(fs, x, mo);
                real ws = 1;
                for (size_t d = 0; d < D; ++d) {
                    real t = 0;
                    for (real z : cs[d][0]) t += std::fabs(z);
                    ws *= t + 1e-3L;
                }
                for (size_t c = 0; c < C::n; ++c) {
                    real lin = 2 * C::get(got, c) - 0.5L * C::get(a, c);
                    if (!near(C::get(b, c), lin, 32 * rel * ws * r.cond * unit))
                        fail("not linear: component %zu %.17Lg vs %.17Lg", c,
                             C::get(b, c), lin);
                }
            }
            size_t d = 0;
            for (; d < D; ++d) {
                if (++k[d] < p[d].size()) break;
                k[d] = 0;
            }
            if (d == D) break;
        }
        ++st().traces;
    }
};

// integer grids: every coordinate exact in all types
static Axis int_axis(size_t order, bool per, bool uni, size_t extra, size_t v) {
    size_t n = min_sites(order, per, uni) + extra;
    Axis a;
    a.periodic = per;
    a.uniform = uni;
    static const int sp[4] = {1, 3, 2, 4};
    static const int start[3] = {0, -7, 5};
    double x = start[v % 3];
    size_t cells = per ? n : n - 1;
    a.x.push_back(x);
    for (size_t i = 0; i < cells; ++i) {
        x += uni ? 1 + double(v % 2) : sp[(v + i * (1 + v / 4)) % 4];
        a.x.push_back(x);
    }
    return a;
}
template <typename T, size_t D, size_t O, typename U>
void sweep(const char* tn, bool forms) {
    size_t idx = 0;
    size_t ne = st().thorough ? 7 : (D == 1 ? 4 : D == 2 ? 2 : 1);
    for (size_t e = 0; e < ne; ++e)
        for (size_t pm = 0; pm < (size_t(1) << D); ++pm)
            for (size_t um = 0; um < (size_t(1) << D); ++um) {
                if (D > 2 && !st().thorough && (pm * 3 + um) % 5) continue;
                Grid<D> g;
                for (size_t d = 0; d < D; ++d)
                    g.ax[d] = int_axis(O, (pm >> d) & 1, !((um >> d) & 1),
                                       (e + d) % 3 + (D == 1 ? e : 0),
                                       idx + d * 2 + e);
                Types<T, D, O, U>::go(g, idx++, tn, NATIVE);
                Types<T, D, O, U>::go(g, idx++, tn, SCALED);
                if (forms) {
                    Types<T, D, O, U>::go(g, idx++, tn, FLOAT);
                    Types<T, D, O, U>::go(g, idx++, tn, INT);
                    Types<T, D, O, U>::go(g, idx++, tn, LONG_DOUBLE);
                }
            }
}
// ranges and coordinates given in an integer type, up to its limits
template <typename E, size_t O>
void int_limits(const char* en) {
    typedef std::numeric_limits<E> L;
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni)
            for (size_t n = min_sites(O, per, uni) + 1; n < O + 7; ++n) {
                setcase("order=%zu integer limits %s %d%d n=%zu", size_t(O), en,
                        per, uni, n);
                ++st().states;
                size_t cells = per ? n : n - 1;
                std::vector<E> xi;
                std::vector<double> xd;
                // same signed step in integer and floating-point arithmetic
                E lo = L::is_signed ? E(L::min() / 2 + L::min() / 4) : E(1);
                E hi = E(L::max() / 2 + L::max() / 4);
                E step = E(hi / E(cells));
                if (L::is_signed) step = E(step + step);
                E x = lo;
                for (size_t i = 0; i <= cells; ++i) {
                    xi.push_back(x);
                    xd.push_back(double(x));
                    if (i < cells) x = E(x + step - (!uni && i % 2 ? step / 2 : 0));
                }
                size_t md = per && !VERIF_DUMMY ? n : per ? n + 1 : n;
                std::vector<double> data = generic_data(md, n);
                typedef intp::InterpolationFunction<double, 1, O> F;
                auto fr = std::make_pair(data.begin(), data.end());
                F a = uni ? F(per, fr, std::make_pair(xi.front(), xi.back()))
                          : F(per, fr, std::make_pair(xi.begin(), xi.end()));
                F b = uni ? F(per, fr, std::make_pair(xd.front(), xd.back()))
                          : F(per, fr, std::make_pair(xd.begin(), xd.end()));
                for (size_t i = 0; i < cells; ++i)
                    for (double t : {0.3, 0.8}) {
                        double p = xd[i] + t * (xd[i + 1] - xd[i]);
                        ++st().transitions;
                        if (!near(a(p), b(p), 1e-9L * (1 + std::fabs(b(p)))))
                            fail("at %.17g: %.17g, with double coordinates "
                                 "%.17g", p, a(p), b(p));
                    }
                ++st().traces;
            }
}
// arguments of different types in one call: each is converted on its own
template <typename A, typename B, size_t O, typename F, typename P>
void mixed_pair(const F& f, const P& px, double x, double y, const char* w) {
    A a = A(x);
    B b = B(y);
    if (double(a) != x || double(b) != y) return;
    setcase("order=%zu arguments %s at (%.17g,%.17g)", size_t(O), w, x, y);
    std::array<double, 2> c = {{x, y}};
    std::array<size_t, 2> m = {{1, 0}};
    double v = f(c), d = f.derivative(c, m);
    double got[] = {f(a, b), f.at(a, b),
                    f.derivative(std::make_pair(a, 1), std::make_pair(b, 0)),
                    f.derivative_at(std::make_pair(a, 1u), std::make_pair(b, 0l)),
                    px(f, a, b)};
    for (int i = 0; i < 5; ++i) {
        ++st().transitions;
        double want = i == 2 || i == 3 ? d : v;
        if (i == 4 ? !near(got[i], want, 1e-9L * (1 + std::fabs(want)))
                   : got[i] != want)
            fail("call form %d gives %.17g, with doubles %.17g", i, got[i], want);
    }
}
template <typename TP>
struct PxArgs {
    const TP& t;
    template <typename F, typename A, typename B>
    double operator()(const F& f, A a, B b) const {
#ifdef INTP_CELL_LAYOUT
        return t.eval_proxy(a, b)(f);
#else
        return f(a, b);
#endif
    }
};
template <size_t O>
void mixed_args() {
    typedef intp::InterpolationFunction<double, 2, O> F;
    typedef intp::InterpolationFunctionTemplate<double, 2, O> TP;
    // units of 1 at 0, and where single precision no longer resolves them
    for (double x0 : {0., 100000000.})
        for (double y0 : {0., 100000000.})
            for (int per = 0; per < 2; ++per) {
                size_t n = O + 4, s = per && !VERIF_DUMMY ? n - 1 : n;
                intp::Mesh<double, 2> m(s, s);
                std::vector<double> data = generic_data(s * s, 3 + O);
                for (size_t i = 0; i < s * s; ++i) m(i / s, i % s) = data[i];
                std::array<bool, 2> p = {{per != 0, per != 0}};
                auto rx = std::make_pair(x0, x0 + double(n - 1)),
                     ry = std::make_pair(y0, y0 + double(n - 1));
                TP t(p, m.dimension(), rx, ry);
                F f = t.interpolate(m);
                PxArgs<TP> px{t};
                ++st().states;
                for (size_t i = 0; i < n; ++i)
                    for (double g : {0., 0.5, 1., double(n - 1)}) {
                        double x = x0 + double(i), y = y0 + g;
#define MIX(A, B)                                                              \
    mixed_pair<A, B, O>(f, px, x, y, #A ", " #B);                              \
    mixed_pair<B, A, O>(f, px, y - y0 + x0, x - x0 + y0, #B ", " #A)
                        MIX(int, float);
                        MIX(int, double);
                        MIX(int, long double);
                        MIX(int, unsigned);
                        MIX(long, float);
                        MIX(short, float);
                        MIX(double, float);
                        MIX(unsigned, float);
                        MIX(unsigned long long, float);
                        MIX(long double, float);
                        MIX(unsigned, double);
                        MIX(signed char, double);
                        MIX(bool, double);
#undef MIX
                    }
                ++st().traces;
            }
}
#define SW(T, D, U, F) sweep<T, D, ORD, U>(#T " over " #U, F)
int main(int argc, char** argv) {
    init(argc, argv);
    typedef std::complex<double> cd;
    typedef std::complex<float> cf;
    typedef std::complex<long double> cl;
#if PART == 0
    SW(double, 1, double, true);
    SW(double, 2, double, true);
    SW(float, 1, float, true);
    SW(float, 2, float, false);
    SW(long double, 1, long double, true);
    SW(long double, 2, long double, false);
    SW(double, 1, float, true);
    SW(double, 2, float, false);
    mixed_args<ORD>();
    int_limits<signed char, ORD>("signed char");
    int_limits<unsigned char, ORD>("unsigned char");
    int_limits<short, ORD>("short");
    int_limits<unsigned short, ORD>("unsigned short");
    int_limits<int, ORD>("int");
    int_limits<unsigned, ORD>("unsigned");
    int_limits<long, ORD>("long");
    int_limits<unsigned long, ORD>("unsigned long");
#elif PART == 1
    SW(float, 1, double, true);
    SW(float, 2, double, false);
    SW(long double, 1, double, false);
    SW(double, 1, long double, false);
    SW(cd, 1, double, true);
    SW(cd, 2, double, false);
    SW(cf, 1, float, false);
    SW(cl, 1, long double, false);
#else
    SW(Vec3, 1, double, true);
    SW(Vec3, 2, double, false);
    SW(double, 3, float, false);
    SW(cd, 3, double, false);
    SW(long double, 2, double, false);
#endif
    return done();
}
