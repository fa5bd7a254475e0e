// C10: evaluation proxies (cell layout). Every enumerated coordinate tuple.
#include <functional>
#include "h.hpp"
using namespace h;

template <size_t D, size_t O>
struct Proxy {
    typedef intp::InterpolationFunction<double, D, O> F;
    typedef intp::InterpolationFunctionTemplate<double, D, O> T;
    typedef typename T::eval_proxy_t P;
    static P list(const T& t, const std::array<double, 1>& x) {
        return t.eval_proxy(x[0]);
    }
    static P list(const T& t, const std::array<double, 2>& x) {
        return t.eval_proxy(x[0], x[1]);
    }
    static P list(const T& t, const std::array<double, 3>& x) {
        return t.eval_proxy(x[0], x[1], x[2]);
    }
    static std::vector<double> coords(const Spline1D& s, size_t idx, size_t d) {
        const Axis& a = s.ax;
        double L = a.b() - a.a();
        std::vector<double> q;
        size_t c = D == 1 ? 100000 : D == 2 ? 6 : 3;
        if (st().thorough) c = D == 1 ? 100000 : D == 2 ? 20 : 6;
        q = thin(piece_points(s, D == 1 ? 3 : 2), c, idx + d);
        std::vector<double> z = thin(special_points(s, D == 1), c, idx + 2 * d);
        q.insert(q.end(), z.begin(), z.end());
        q.push_back(a.a());
        q.push_back(a.b());
        static const double f[] = {0.03, 0.6, 1.7, 5};
        for (size_t i = 0; i < 4; ++i) {
            if (D >= 2 && i != (idx + d) % 4 && i != (idx + d + 2) % 4) continue;
            q.push_back(a.a() - f[i] * L);
            if (D == 3) continue;
            q.push_back(a.b() + f[i] * L);
        }
        if (D == 1) {
            q.push_back(down(a.a()));
            q.push_back(up(a.b()));
            if (a.periodic) {
                q.push_back(a.a() - 3 * L);
                q.push_back(a.b() + 2 * L);
                q.push_back(double(s.lo()) - L);
                q.push_back(double(s.hi()) + L);
            }
        }
        return q;
    }
    void operator()(const Grid<D>& g, size_t idx) const {
        if (!mine()) return;
        setcase("%s D=%zu", g.str(O).c_str(), D);
        const std::string base = scase();
        Ref<D> r(g, O);
        ++st().states;
        sample();
        T* t = new T(make_tpl<double, D, O>(g));
        T tcopy(*t);
        std::array<std::vector<double>, D> p;
        std::array<std::vector<Cand>, D> w;
        for (size_t d = 0; d < D; ++d) {
            p[d] = coords(r.s[d], idx, d);
            w[d] = weights_at(r.s[d], p[d], 0);
        }
        std::vector<std::vector<double>> data;
        for (size_t i = 0; i < 3; ++i)
            data.push_back(i == 2 ? impulse(g.total(), idx % g.total())
                                  : generic_data(g.total(), idx * 3 + i));
        // functions in various states of the template's life
        std::vector<F> fs;
        const F f0 = t->interpolate(to_mesh<double, D>(g, data[0]));
        F f1;
        t->interpolate(f1, to_mesh<double, D>(g, data[1]));
        // proxies are made before, during and after
        std::vector<P> early, late;
        std::vector<std::array<double, D>> xs;
        std::array<size_t, D> k;
        k.fill(0);
        std::vector<std::array<const Cand*, D>> cs;
        for (;;) {
            std::array<double, D> x;
            std::array<const Cand*, D> c;
            for (size_t d = 0; d < D; ++d) x[d] = p[d][k[d]], c[d] = &w[d][k[d]];
            xs.push_back(x);
            cs.push_back(c);
            early.push_back(xs.size() % 2 ? t->eval_proxy(x) : list(*t, x));
            late.push_back(xs.size() % 2 ? list(tcopy, x) : tcopy.eval_proxy(x));
            st().transitions += 2;
            size_t d = 0;
            for (; d < D; ++d) {
                if (++k[d] < p[d].size()) break;
                k[d] = 0;
            }
            if (d == D) break;
        }
        const F f2 = std::move(*t).interpolate(to_mesh<double, D>(g, data[2]));
        delete t;  // later fate of the template
        const F* all[3] = {&f0, &f1, &f2};
        std::vector<real> rd[3] = {to_real(data[0]), to_real(data[1]),
                                   to_real(data[2])};
        for (size_t i = 0; i < xs.size(); ++i) {
            for (size_t rep = 0; rep < 4; ++rep) {
                size_t which = (rep + i) % 3;
                const F& f = *all[which];
                const P& px = rep % 2 ? late[i] : early[i];
                double got = px(f), val = f(xs[i]);
                st().transitions += 2;
                real want = 0;
                bool ok = matches<D>(r, rd[which], cs[i], got, 1e-8L, &want);
                // against direct evaluation: same numbers, other summation order
                real scale = 0;
                {
                    std::vector<const std::vector<real>*> ww;
                    for (size_t d = 0; d < D; ++d) ww.push_back(&(*cs[i][d])[0]);
                    ref::contract(rd[which], r.n, ww, &scale);
                    real s2 = 1;
                    for (size_t d = 0; d < D; ++d) {
                        real q = 0;
                        for (real v : *ww[d]) q += std::fabs(v);
                        s2 *= q;
                    }
                    scale += s2;
                }
                bool ok2 = near(got, val, 1e-10L * scale * r.cond);
                if (!ok || !ok2) {
                    std::string s = base + " x=(";
                    char b[64];
                    for (size_t d = 0; d < D; ++d) {
                        snprintf(b, sizeof b, "%s%.17g", d ? "," : "", xs[i][d]);
                        s += b;
                    }
                    setcase("%s) use=%zu function=%zu", s.c_str(), rep, which);
                    fail("proxy %.17g, function %.17g, reference %.17Lg", got,
                         val, want);
                }
            }
        }
        ++st().traces;
    }
};
// grids too large for the reference: proxy against function
template <size_t D, size_t O>
void big(const Grid<D>& g, const std::vector<std::array<long, D>>& cells) {
    if (!mine()) return;
    typedef Proxy<D, O> X;
    setcase("%s D=%zu", g.str(O).c_str(), D);
    const std::string base = scase();
    ++st().states;
    sample();
    typename X::T t = make_tpl<double, D, O>(g);
    const typename X::F f =
        t.interpolate(to_mesh<double, D>(g, generic_data(g.total(), 5)));
    for (auto& c : cells)
        for (int e = 0; e < 25; ++e) {
            std::array<double, D> x;
            int q = e;
            for (size_t d = 0; d < D; ++d) {
                static const double fr[5] = {0, 0.2, 0.5, 0.7, 0.95};
                const Axis& a = g.ax[d];
                size_t i = size_t(c[d] < 0 ? c[d] + long(a.x.size()) - 1 : c[d]);
                x[d] = a.x[i] + fr[q % 5] * (a.x[i + 1] - a.x[i]);
                if (D == 1 && e > 4 && a.periodic)
                    x[d] += double(q / 5 - 2) * a.period();
                if (D == 1 && e > 4 && !a.periodic)
                    x[d] += double(q / 5 - 2) * (a.x[1] - a.x[0]);
                q /= 5;
            }
            double got = t.eval_proxy(x)(f), val = f(x);
            st().transitions += 2;
            double tol = 1e-7 * (std::fabs(val) + 1);
            if (!near(got, val, tol)) {
                setcase("%s x=%.17g,%.17g", base.c_str(), x[0], x[D - 1]);
                fail("proxy %.17g, function %.17g", got, val);
            }
        }
    ++st().traces;
}
template <size_t O>
void all() {
    for (int c = 0; c < 4; ++c) {
        bool per = c & 1, uni = c & 2;
        for (size_t n : {size_t(4099), size_t(66003)}) {
            Grid<1> g;
            g.ax[0] = uni ? uniform_axis(per, n, n % 4)
                          : nonuniform_axis(per, n, 5, 1);
            std::vector<std::array<long, 1>> w = {
                {{0}}, {{1}}, {{255}}, {{1023}}, {{4095}}, {{-2}}, {{-1}}};
            if (n > 65536) w.push_back({{65535}}), w.push_back({{32768}});
            big<1, O>(g, w);
        }
        Grid<2> g;
        g.ax[0] = uni ? uniform_axis(per, 263, 1) : nonuniform_axis(per, 263, 7, 1);
        g.ax[1] = uni ? nonuniform_axis(!per, 259, 8, 0) : uniform_axis(!per, 259, 0);
        big<2, O>(g, {{{0, 0}}, {{1, 257}}, {{-1, -1}}, {{131, 2}}, {{256, 130}}});
    }
    size_t idx = 0;
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni)
            for (const Axis& a : axes_1d(O, per, uni, st().thorough)) {
                if (a.x.size() > 70 && !st().thorough) continue;
                Grid<1> g;
                g.ax[0] = a;
                Proxy<1, O>()(g, idx++);
            }
    std::vector<std::array<size_t, 2>> e2 = {{{0, 1}}, {{3, 0}}, {{2, 5}}};
    for_grids<2>(O, e2, Proxy<2, O>());
#if ORD < 8
    std::vector<std::array<size_t, 3>> e3 = {{{0, 1, 2}}, {{2, 0, 1}}};
    if (!st().thorough && O > 3) e3.resize(1);
    for_grids<3>(O, e3, Proxy<3, O>(), st().thorough ? 1 : O > 2 ? 3 : 1);
#endif
}
int main(int argc, char** argv) {
    init(argc, argv);
    all<ORD>();
    return done();
}
