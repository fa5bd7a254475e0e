// C21: splines built directly from knots and control points. Every knot
// multiplicity pattern within bounds, every hint, against the basis expansion.
#include <deque>
#include <BSpline.hpp>
#include "h.hpp"
using namespace h;

struct Knots {
    std::vector<double> t;
    bool per = false, clamped = false;
    size_t k = 0;
    size_t n() const { return t.size() - (per ? 2 * k + 1 : k + 1); }
    double lo() const { return t[k]; }
    double hi() const { return t[t.size() - k - 1]; }
    size_t last() const { return t.size() - k - 2; }  // last segment
    std::string str() const {
        std::string s = per ? "P{" : clamped ? "C{" : "U{";
        for (double x : t) {
            char b[40];
            snprintf(b, sizeof b, " %.17g", x);
            s += b;
        }
        return s + "}";
    }
};
// weights of all control points of the m-th derivative at x, for each
// admissible piece
typedef std::vector<std::vector<real>> W;
struct Axis1 {
    Knots kn;
    std::vector<real> t;
    std::vector<std::vector<ref::Poly>> bas;
    explicit Axis1(const Knots& k_) : kn(k_), t(k_.t.begin(), k_.t.end()) {
        bas.resize(kn.last() + 1);
        for (size_t s = kn.k; s <= kn.last(); ++s)
            if (t[s] < t[s + 1]) bas[s] = ref::segment_basis(t, kn.k, s);
    }
    void push(W& w, size_t s, real x, size_t m) const {
        std::vector<real> v(kn.n(), 0);
        for (size_t j = 0; j <= kn.k; ++j)
            v[(s - kn.k + j) % kn.n()] += ref::horner(bas[s][j], x - t[s], m);
        w.push_back(v);
    }
    W weights(double x0, size_t m) const {
        W w;
        real x = x0;
        if (kn.per) {
            real P = t[kn.last() + 1] - t[kn.k];
            x -= P * std::floor((x - t[kn.k]) / P);
        }
        size_t s = kn.k;
        for (size_t i = kn.k; i <= kn.last(); ++i)
            if (t[i] < t[i + 1] && !(x < t[i])) s = i;
        push(w, s, x, m);
        if (kn.per) {  // wrapping rounds: either side of a knot
            real P = t[kn.last() + 1] - t[kn.k];
            real tol = 1e-9L * P + 4e-16L * std::fabs(x0);
            for (size_t i = kn.k; i <= kn.last(); ++i) {
                if (!(t[i] < t[i + 1]) || i == s) continue;
                for (int sh = -1; sh <= 1; ++sh) {
                    real y = x + real(sh) * P;
                    if (y > t[i] - tol && y < t[i + 1] + tol) push(w, i, y, m);
                }
            }
        }
        return w;
    }
};

template <size_t D>
struct Ctrl {
    std::vector<size_t> n;
    std::vector<double> v;
};
template <size_t D, size_t O>
struct Run {
    typedef intp::BSpline<double, D, O> S;
    typedef typename S::ControlPointContainer C;
    static C mesh(const Ctrl<D>& c) {
        std::array<size_t, D> n;
        for (size_t d = 0; d < D; ++d) n[d] = c.n[d];
        C m{intp::MeshDimension<D>(n)};
        for (size_t i = 0; i < c.v.size(); ++i) m(unflat<D>(i, c.n)) = c.v[i];
        return m;
    }
    template <size_t I, typename... Ps>
    struct Mk {};
    // a spline on other knots, sometimes fewer, sometimes more of them
    static S used(std::array<bool, D> p, size_t salt) {
        S s(p);
        Ctrl<D> c;
        size_t tot = 1;
        for (size_t d = 0; d < D; ++d) {
            size_t cells = O + 1 + (salt + d) % 3 * 9;
            std::vector<double> t;
            for (size_t i = 0; i < cells + 2 * O + 1; ++i)
                t.push_back(double(i) - double(O));
            s.load_knots(d, t);
            c.n.push_back(p[d] ? cells : cells + O);
            tot *= c.n[d];
        }
        c.v = generic_data(tot, salt + 3);
        s.load_ctrlPts(mesh(c));
        return s;
    }
    static S build(const std::array<Knots, 1>& k, const Ctrl<1>& c, int how) {
        std::array<bool, 1> p{{k[0].per}};
        if (how == 1) {
            std::deque<double> q(k[0].t.begin(), k[0].t.end());
            return S(p, mesh(c), std::make_pair(q.begin(), q.end()));
        }
        if (how == 2 && !k[0].per)
            return S(mesh(c), std::make_pair(k[0].t.data(),
                                             k[0].t.data() + k[0].t.size()));
        if (how == 3) {
            S s(p);
            std::vector<double> kt(k[0].t);
            s.load_knots(0, kt);
            C m = mesh(c);
            s.load_ctrlPts(m);
            if (kt != k[0].t) fail("loading changed the knots given");
            for (size_t i = 0; i < c.v.size(); ++i)
                if (m.dimension().size() != c.v.size() ||
                    m(unflat<1>(i, c.n)) != c.v[i])
                    fail("loading changed the control points given");
            return s;
        }
        if (how == 4) {
            // a spline in use, other knots and control points loaded
            S s = used(p, c.v.size());
            (void)s(std::array<double, 1>{{1.25}});
            if (c.v.size() % 2) {
                s.load_ctrlPts(mesh(c));
                s.load_knots(0, std::vector<double>(k[0].t));
            } else {
                s.load_knots(0, std::vector<double>(k[0].t));
                s.load_ctrlPts(mesh(c));
            }
            return s;
        }
        return S(p, mesh(c), std::make_pair(k[0].t.begin(), k[0].t.end()));
    }
    static S build(const std::array<Knots, 2>& k, const Ctrl<2>& c, int how) {
        std::array<bool, 2> p{{k[0].per, k[1].per}};
        if (how == 2 && !k[0].per && !k[1].per)
            return S(mesh(c), std::make_pair(k[0].t.begin(), k[0].t.end()),
                     std::make_pair(k[1].t.begin(), k[1].t.end()));
        if (how == 3) {
            S s(p);
            s.load_knots(1, std::vector<double>(k[1].t));
            s.load_knots(0, std::vector<double>(k[0].t));
            s.load_ctrlPts(mesh(c));
            return s;
        }
        if (how == 4) {
            S s = used(p, c.v.size());
            (void)s(std::array<double, 2>{{1.25, 0.75}});
            s.load_knots(0, std::vector<double>(k[0].t));
            s.load_knots(1, std::vector<double>(k[1].t));
            s.load_ctrlPts(mesh(c));
            return s;
        }
        std::deque<double> q(k[1].t.begin(), k[1].t.end());
        return S(p, mesh(c), std::make_pair(k[0].t.begin(), k[0].t.end()),
                 std::make_pair(q.begin(), q.end()));
    }
    static S build(const std::array<Knots, 3>& k, const Ctrl<3>& c, int) {
        std::array<bool, 3> p{{k[0].per, k[1].per, k[2].per}};
        return S(p, mesh(c), std::make_pair(k[0].t.begin(), k[0].t.end()),
                 std::make_pair(k[1].t.begin(), k[1].t.end()),
                 std::make_pair(k[2].t.begin(), k[2].t.end()));
    }
    static std::vector<size_t> hints(const Knots& k) {
        std::vector<size_t> h;
        size_t a = k.k, b = k.last();
        if (k.clamped) {
            a = 0;
            b = k.t.size() - 2;
        }
        for (size_t i = a; i <= b; ++i) h.push_back(i);
        return h;
    }
    static void same_hint(double a, double b, const char* what) {
        if (memcmp(&a, &b, sizeof a) && !(a == b))
            fail("%s depends on the position hint: %.17g %.17g", what, a, b);
    }
    static void coords(const Knots& k, std::vector<double>& p) {
        double L = k.hi() - k.lo();
        for (size_t i = k.k; i <= k.last() + 1; ++i) {
            if (D == 1 || i % 2 == 0) p.push_back(k.t[i]);
            if (D == 1 && (i == k.k || k.t[i] != k.t[i - 1])) {
                p.push_back(up(k.t[i]));
                p.push_back(down(k.t[i]));
            }
            if (i <= k.last() && k.t[i] < k.t[i + 1])
                for (size_t j = 0; j < (D == 1 ? O + 2 : 1); ++j)
                    p.push_back(k.t[i] + (k.t[i + 1] - k.t[i]) *
                                             (double(j) + 0.41) / double(O + 2));
        }
        p.push_back(k.lo() - 0.3 * L);
        p.push_back(k.hi() + 0.7 * L);
        if (D == 1) {
            p.push_back(k.lo() - 3.1 * L);
            p.push_back(k.hi() + 5 * L);
            p.push_back(k.lo() - L);
        }
        p.push_back(k.hi());
    }
    static void go(const std::array<Knots, D>& k, size_t idx) {
        if (!mine()) return;
        std::string desc;
        Ctrl<D> c;
        size_t tot = 1;
        for (size_t d = 0; d < D; ++d) {
            desc += " " + k[d].str();
            c.n.push_back(k[d].n());
            tot *= k[d].n();
        }
        setcase("order=%zu D=%zu%s", O, D, desc.c_str());
        ++st().states;
        sample();
        // all impulses for one dimension, generic data otherwise
        size_t nd = D == 1 ? tot + 1 : 2;
        std::vector<S> sp;
        std::vector<std::vector<real>> dat;
        for (size_t i = 0; i < nd; ++i) {
            c.v = i == 0 ? generic_data(tot, idx)
                         : impulse(tot, D == 1 ? i - 1 : (idx * 7) % tot);
            sp.push_back(build(k, c, int((idx + i) % 5)));
            ++st().transitions;
            dat.push_back(to_real(c.v));
        }
        const S& s0 = sp[0];
        if (s0.get_order() != O) fail("order reported as %zu", s0.get_order());
        for (const S& s : sp)
            for (size_t d = 0; d < D; ++d) {
                if (s.periodicity(d) != k[d].per) fail("periodicity of dim %zu", d);
                if (s.knots_num(d) != k[d].t.size())
                    fail("number of knots of dim %zu", d);
                if (s.range(d).first != k[d].lo() || s.range(d).second != k[d].hi())
                    fail("range of dim %zu: [%.17g, %.17g]", d, s.range(d).first,
                         s.range(d).second);
                size_t i = 0;
                for (auto it = s.knots_begin(d); it != s.knots_end(d); ++it, ++i)
                    if (i >= k[d].t.size() || *it != k[d].t[i])
                        fail("knot %zu of dim %zu changed", i, d);
            }
        std::vector<Axis1> ax;
        std::array<std::vector<double>, D> p;
        std::array<std::vector<size_t>, D> hs;
        for (size_t d = 0; d < D; ++d) {
            ax.push_back(Axis1(k[d]));
            coords(k[d], p[d]);
            hs[d] = hints(k[d]);
            if (D == 3) p[d] = thin(p[d], 4, idx + d);
        }
        std::array<size_t, D> q, m;
        q.fill(0);
        for (size_t step = 0;; ++step) {
            std::array<double, D> x;
            for (size_t d = 0; d < D; ++d) x[d] = p[d][q[d]];
            m.fill(0);
            for (size_t mi = 0;; ++mi) {
                std::array<W, D> w;
                for (size_t d = 0; d < D; ++d) w[d] = ax[d].weights(x[d], m[d]);
                for (size_t i = 0; i < nd; ++i) {
                    if (D == 1 && i > 1 && (step + i) % 3 && !st().thorough) continue;
                    double got;
                    std::array<std::pair<double, size_t>, D> xm;
                    for (size_t d = 0; d < D; ++d)
                        xm[d] = std::make_pair(x[d], m[d]);
                    if (mi == 0)
                        got = (step + i) % 2
                                  ? sp[i](std::array<double, D>(x))
                                  : sp[i].derivative_at(xm);
                    else
                        got = sp[i].derivative_at(xm);
                    ++st().transitions;
                    // any admissible choice of pieces
                    std::array<size_t, D> pick;
                    pick.fill(0);
                    bool ok = false;
                    real want = 0;
                    for (;;) {
                        std::vector<const std::vector<real>*> ww;
                        real ws = 1;
                        for (size_t d = 0; d < D; ++d) {
                            ww.push_back(&w[d][pick[d]]);
                            real a = 0;
                            for (real z : *ww[d]) a += std::fabs(z);
                            ws *= a + 1;
                        }
                        want = ref::contract(dat[i], c.n, ww, 0);
                        if (near(got, want, 1e-10L * ws)) ok = true;
                        size_t d = 0;
                        for (; d < D; ++d) {
                            if (++pick[d] < w[d].size()) break;
                            pick[d] = 0;
                        }
                        if (ok || d == D) break;
                    }
                    if (!ok) {
                        std::string xs;
                        for (size_t d = 0; d < D; ++d) {
                            char b[60];
                            snprintf(b, sizeof b, " %.17g(d%zu)", x[d], m[d]);
                            xs += b;
                        }
                        fail("at%s: %.17g, expansion %.17Lg", xs.c_str(), got, want);
                    }
                    // hints
                    if (i == 0) {
                        size_t nh = 0;
                        for (size_t d = 0; d < D; ++d)
                            if (hs[d].size() > nh) nh = hs[d].size();
                        for (size_t h = 0; h < nh; ++h) {
                            if (D > 1 && (h + step + mi) % 2) continue;
                            std::array<std::pair<double, size_t>, D> xh;
                            std::array<std::tuple<double, size_t, size_t>, D> xt;
                            for (size_t d = 0; d < D; ++d) {
                                size_t hd = hs[d][(h + d * step) % hs[d].size()];
                                xh[d] = std::make_pair(x[d], hd);
                                xt[d] = std::make_tuple(x[d], hd, m[d]);
                            }
                            ++st().transitions;
                            if (mi == 0)
                                same_hint(sp[0](xh), sp[0](std::array<double, D>(x)),
                                          "value");
#ifdef INTP_CELL_LAYOUT
                            // precomputed evaluator, applied to other splines
                            // on the same knots as well
                            if (mi == 0 && (h == 0 || (h + step) % 3 == 0)) {
                                auto ev = sp[0].pre_calc_coef(xh);
                                real sc = 1;
                                for (size_t d = 0; d < D; ++d) {
                                    real a = 1;
                                    for (real z : w[d][0]) a += std::fabs(z);
                                    sc *= a;
                                }
                                for (size_t e = 0; e < nd; e += 1 + nd / 3) {
                                    double a = ev(sp[e]);
                                    double b = sp[e](std::array<double, D>(x));
                                    if (!near(a, b, 1e-10L * sc))
                                        fail("precomputed evaluator: %.17g, "
                                             "value %.17g", a, b);
                                }
                            }
#endif
                            same_hint(sp[0].derivative_at(xt),
                                      sp[0].derivative_at(xm), "derivative");
                        }
                    }
                }
                size_t d = 0;
                for (; d < D; ++d) {
                    if (++m[d] <= O + 1) break;
                    m[d] = 0;
                }
                if (d == D) break;
                if (D == 3) break;  // value only
            }
            size_t d = 0;
            for (; d < D; ++d) {
                if (++q[d] < p[d].size()) break;
                q[d] = 0;
            }
            if (d == D) break;
        }
        ++st().traces;
    }
};

// all aperiodic knot vectors with b distinct interior knots
static void aperiodic(size_t k, size_t b, int ends, size_t salt,
                      std::vector<Knots>& out) {
    std::vector<size_t> mul(b, 1);
    static const double sp[3] = {1., 2.5, 0.5};
    static const double start[4] = {0., -3.25, 10., -0.5};
    for (size_t i = 0;; ++i) {
        Knots q;
        q.k = k;
        size_t s = salt + i;
        double x = start[s % 4];
        q.clamped = ends == 0;
        // knots before the domain
        std::vector<double> pre, post;
        double y = x;
        for (size_t j = 0; j < k; ++j) {
            if (ends == 1) y -= sp[(s + j) % 3];
            if (ends == 2 && j % 2 == 0) y -= sp[(s + j) % 3];
            pre.insert(pre.begin(), y);
        }
        q.t = pre;
        q.t.push_back(x);
        for (size_t j = 0; j < b; ++j) {
            x += sp[(s / 3 + j * 2) % 3];
            for (size_t r = 0; r < mul[j]; ++r) q.t.push_back(x);
        }
        x += sp[(s / 5) % 3];
        q.t.push_back(x);
        for (size_t j = 0; j < k; ++j) {
            if (ends == 1) x += sp[(s + 2 * j) % 3];
            if (ends == 2 && j % 2 == 0) x += sp[(s + j) % 3];
            q.t.push_back(x);
        }
        out.push_back(q);
        size_t d = 0;
        for (; d < b; ++d) {
            if (++mul[d] <= k + 1) break;
            mul[d] = 1;
        }
        if (d == b) break;
    }
}
// periodic: multiplicity pattern over one period (the seam stays simple)
static void periodic(size_t k, size_t n, size_t salt, bool rep,
                     std::vector<Knots>& out) {
    static const double sp[4] = {1., 2.5, 0.5, 0.};
    size_t lim = 1;
    for (size_t i = 2; i < n && lim < 64; ++i) lim *= rep ? 2 : 1;
    for (size_t pat = 0; pat < lim; ++pat) {
        Knots q;
        q.k = k;
        q.per = true;
        std::vector<double> base;
        double x = salt % 2 ? -2.25 : 0;
        size_t run = 1;
        for (size_t j = 0; j < n; ++j) {
            base.push_back(x);
            bool z = j > 0 && j + 1 < n && ((pat >> (j - 1)) & 1) && run < k + 1;
            run = z ? run + 1 : 1;
            x += z ? 0. : sp[(salt + pat + j * 2) % 3];
        }
        double P = x - base[0];
        for (long j = -long(k); j <= long(n + k); ++j) {
            long w = j >= 0 ? j / long(n) : -((-j + long(n) - 1) / long(n));
            q.t.push_back(base[size_t(j - w * long(n))] + double(w) * P);
        }
        out.push_back(q);
    }
}

// many knots: the reference looks at the pieces around the point only
template <size_t O>
static void many(size_t n, int ends, bool rep, size_t salt) {
    if (!mine()) return;
    static const double sp[3] = {1., 2.5, 0.5};
    Knots q;
    q.k = O;
    q.per = ends == 3;
    q.clamped = ends == 0;
    std::vector<double> base;
    double x = salt % 2 ? -7.25 : 0;
    for (size_t j = 0; j <= n; ++j) {
        base.push_back(x);
        if (!(rep && O > 0 && j > 1 && j + 2 < n && j % 5 == 2))
            x += sp[(salt + j * 2 + j / 7) % 3];
    }
    double P = base[n] - base[0];
    for (size_t j = O; j > 0; --j)
        q.t.push_back(q.per ? base[n - j] - P
                            : q.clamped ? base[0] : base[0] - 0.75 * double(j));
    q.t.insert(q.t.end(), base.begin(), base.end());
    for (size_t j = 1; j <= O; ++j)
        q.t.push_back(q.per ? base[j] + P
                            : q.clamped ? base[n] : base[n] + 0.5 * double(j));
    setcase("order=%zu %zu knots ends=%d rep=%d", O, q.t.size(), ends, int(rep));
    ++st().states;
    sample();
    Ctrl<1> c;
    c.n.push_back(q.n());
    c.v = generic_data(q.n(), salt);
    typename Run<1, O>::S s = Run<1, O>::build({{q}}, c, int(salt % 4));
    std::vector<real> t(q.t.begin(), q.t.end());
    std::vector<size_t> hs;
    for (size_t h : Run<1, O>::hints(q))
        if (h % 211 == 0 || h < O + 2 || h + O + 4 > q.t.size()) hs.push_back(h);
    std::string base_case = scase();
    for (size_t i = q.k; i <= q.last(); ++i) {
        if (!(t[i] < t[i + 1])) continue;
        bool edge = i < q.k + 4 || i + 4 > q.last() || (i & (i + 1)) == 0 ||
                    (i & (i - 1)) == 0;
        if (!edge && i % 7 && n > 2000) continue;
        std::vector<ref::Poly> b = ref::segment_basis(t, O, i);
        for (int e = 0; e < 3; ++e) {
            double y = e == 0 ? q.t[i]
                              : q.t[i] + (q.t[i + 1] - q.t[i]) * (e == 1 ? 0.3 : 0.93);
            if (q.per && e == 0) continue;  // wrapping rounds
            for (int w = 0; w < (q.per ? 3 : 1); ++w) {
                double z = w == 0 ? y : w == 1 ? y + P : y - 2 * P;
                for (size_t m = 0; m <= O + 1; ++m) {
                    if (m > 2 && !edge) continue;
                    setcase("%s x=%.17g d%zu", base_case.c_str(), z, m);
                    real want = 0, ws = 1;
                    for (size_t j = 0; j <= O; ++j) {
                        real a = ref::horner(b[j], real(y) - t[i], m);
                        want += a * real(c.v[(i - O + j) % q.n()]);
                        ws += std::fabs(a);
                    }
                    double got = s.derivative_at(std::array<std::pair<double, size_t>, 1>{{std::make_pair(z, m)}});
                    ++st().transitions;
                    if (!near(got, want, 1e-8L * ws))
                        fail("%.17g, expansion %.17Lg", got, want);
                    if (m == 0 && s(std::array<double, 1>{{z}}) != got) fail("value and derivative 0 differ");
                    if (!edge && i % 91) continue;
                    for (size_t k = 0; k < hs.size() + 5; ++k) {
                        size_t h = k < hs.size() ? hs[k]
                                                 : i + k - hs.size() - 2;
                        if (h < hs[0] || h > hs.back()) continue;
                        ++st().transitions;
                        Run<1, O>::same_hint(
                            s.derivative_at(std::array<std::tuple<double, size_t, size_t>, 1>{{std::make_tuple(z, h, m)}}), got,
                            "derivative");
                        if (m == 0)
                            Run<1, O>::same_hint(s(std::array<std::pair<double, size_t>, 1>{{std::make_pair(z, h)}}), got,
                                                 "value");
                    }
                }
            }
        }
    }
    ++st().traces;
}
int main(int argc, char** argv) {
    init(argc, argv);
    bool th = st().thorough;
    const size_t O = ORD;
    std::vector<Knots> v, sm;
    for (int e = 0; e < 3; ++e) {
        if (O == 0 && e) continue;
        for (size_t b = 0; b <= (O > 5 ? th ? 2u : 1u : th || O < 4 ? 3u : 2u); ++b)
            for (size_t salt = 0; salt < (b < 2 ? 6u : th && O < 6 ? 3u : 1u); ++salt)
                aperiodic(O, b, e, salt * 5 + b, v);
        // long simple vectors
        for (size_t b = 6; b < 24; b += 8) {
            std::vector<Knots> t;
            size_t k1 = O;
            Knots q;
            (void)k1;
            aperiodic(0, b, 0, b + size_t(e), t);
            q.k = O;
            q.clamped = e == 0;
            std::vector<double> in(t[0].t.begin(), t[0].t.end());
            double lo = in.front(), hi = in.back();
            for (size_t j = O; j > 0; --j)
                q.t.push_back(e == 0 ? lo : lo - 0.75 * double(j));
            q.t.insert(q.t.end(), in.begin(), in.end());
            for (size_t j = 1; j <= O; ++j)
                q.t.push_back(e == 0 ? hi : hi + 0.5 * double(j));
            v.push_back(q);
        }
    }
    for (size_t n = 2; n < O + 6; ++n)
        for (size_t salt = 0; salt < 4; ++salt) periodic(O, n, salt, O > 0, v);
    periodic(O, 33, 1, false, v);
    size_t idx = 0;
    for (const Knots& k : v) {
        std::array<Knots, 1> a{{k}};
        Run<1, O>::go(a, idx++);
    }
    for (int e = 0; e < 4; ++e)
        for (size_t n : {size_t(259), size_t(1031), size_t(4111)})
            for (int r = 0; r < 2; ++r) many<O>(n, e, r != 0, n + size_t(e + r));
#if ORD > 5
    return done();
#endif
    // several dimensions
    for (int e = 0; e < (O ? 3 : 1); ++e) {
        aperiodic(O, 1, e, 2, sm);
        std::vector<Knots> t;
        aperiodic(O, 2, e, 3, t);
        sm.push_back(t[t.size() / 2]);
    }
    periodic(O, 2, 1, false, sm);
    periodic(O, O + 3, 2, true, sm);
    size_t step = th ? 1 : 1 + sm.size() * sm.size() / 120;
    for (size_t i = 0, c = 0; i < sm.size(); ++i)
        for (size_t j = 0; j < sm.size(); ++j)
            if (c++ % step == 0) {
                std::array<Knots, 2> a{{sm[i], sm[j]}};
                Run<2, O>::go(a, idx++);
            }
#if ORD <= 3
    for (size_t i = 0; i < sm.size(); i += 2)
        for (size_t j = 0; j < sm.size(); j += 3)
            for (size_t l = 1; l < sm.size(); l += 3) {
                std::array<Knots, 3> a{{sm[i], sm[j], sm[l]}};
                Run<3, O>::go(a, idx++);
            }
#endif
    return done();
}
