// C18: everything a user may do with valid input, executed under memory and
// arithmetic monitors (address, undefined, memory sanitizers, checked standard
// library). The monitors are the oracle; results are consumed bit by bit so
// that uninitialised values are noticed.
#include "h.hpp"
using namespace h;

static volatile unsigned sink;
static void use(double v) {
    // a branch on the value makes an uninitialised one visible
    unsigned char b[sizeof v];
    memcpy(b, &v, sizeof v);
    unsigned s = 0;
    for (unsigned char c : b)
        if (c & 1) ++s;
    if (v > 0) s += 3;
    sink = sink + s;
    ++st().transitions;
}
template <typename F, size_t D>
static void consume(const F& f, const std::array<double, D>& x,
                    const std::array<size_t, D>& m) {
    use(f(x));
    use(f.derivative(x, m));
    try {
        use(f.at(x));
        use(f.derivative_at(x, m));
    } catch (const std::domain_error&) {
    }
}
static void coefs(const double* p, size_t n) {
    for (size_t i = 0; i < n; ++i) use(p[i]);
}

template <size_t D, size_t O>
struct Mem {
    typedef intp::InterpolationFunction<double, D, O> F;
    typedef intp::InterpolationFunctionTemplate<double, D, O> T;
    static std::vector<double> coords(const Axis& a, size_t idx, size_t d) {
        std::vector<double> p;
        double A = a.a(), B = a.b(), L = B - A;
        Spline1D s(a, O);
        std::vector<double> q = special_points(s, D == 1);
        p = thin(q, D == 1 ? 90 : D == 2 ? 7 : 3, idx + d);
        q = thin(piece_points(s, 1), D == 1 ? 30 : D == 2 ? 4 : 2, idx + d);
        p.insert(p.end(), q.begin(), q.end());
        p.push_back(A);
        p.push_back(B);
        double far[] = {down(A), up(B), A - L, B + L, A - 0.4 * L, B + 0.4 * L,
                        A - 37.7 * L, B + 1234.5 * L, 1e9, -1e9, 1e18, -1e18,
                        1e19, 1e20, -1e20, 1e300, -1e300, 1.7e308, -1.7e308,
                        0., -0., 5e-324, -5e-324, 1e-300, A + L * 1e-16,
                        9.3e18, 1.85e19};
        size_t nf = sizeof far / sizeof *far;
        for (size_t i = 0; i < nf; ++i)
            if (D == 1 || (i + idx + d) % (D == 2 ? 5 : 9) == 0) p.push_back(far[i]);
        return p;
    }
    void operator()(const Grid<D>& g, size_t idx) const {
        if (!mine()) return;
        setcase("%s D=%zu", g.str(O).c_str(), D);
        ++st().states;
        sample();
        // exactly sized, heap allocated inputs
        std::vector<double>* data = new std::vector<double>(generic_data(g.total(), idx));
        // sparse and vanishing data too
        if (idx % 3)
            for (size_t i = 0; i < data->size(); ++i)
                if (idx % 6 == 4 || (i + idx) % 3) (*data)[i] = 0;
        intp::Mesh<double, D>* mesh = new intp::Mesh<double, D>(to_mesh<double, D>(g, *data));
        F* f0 = new F(make_fun<double, D, O>(g, *mesh));
        T* t = new T(make_tpl<double, D, O>(g));
        F f1;
        t->interpolate(f1, *mesh);
        T t2(*t);
        F f2 = t2.interpolate(*mesh);
        F f3(f2), f4;
        f4 = f3;
        f3 = f1;
        F f5 = std::move(*t).interpolate(std::move(*mesh));
        delete t;
        delete mesh;
        delete data;
        F f6(std::move(f4));
        f4 = f2;
        f4 = std::move(f2);
        const F* fs[] = {f0, &f1, &f3, &f4, &f5, &f6};
        for (const F* f : fs) {
            coefs(f->spline().control_points().data(),
                  f->spline().control_points().size());
            for (size_t d = 0; d < D; ++d) {
                use(f->range(d).first);
                use(f->range(d).second);
                for (auto it = f->spline().knots_begin(d);
                     it != f->spline().knots_end(d); ++it)
                    use(*it);
            }
        }
        std::array<std::vector<double>, D> p;
        for (size_t d = 0; d < D; ++d) p[d] = coords(g.ax[d], idx, d);
        std::array<size_t, D> k;
        k.fill(0);
        for (size_t n = 0;; ++n) {
            std::array<double, D> x;
            std::array<size_t, D> m;
            for (size_t d = 0; d < D; ++d) {
                x[d] = p[d][k[d]];
                m[d] = (n + d * 3 + n / 5) % (O + 3);
            }
            consume(*fs[n % 6], x, m);
            if (D == 1) {  // every derivative order
                for (size_t q = 0; q <= O + 1; ++q) {
                    m[0] = q;
                    use(f0->derivative(x, m));
                }
            }
#ifdef INTP_CELL_LAYOUT
            if (n % 3 == 0) {
                auto px = t2.eval_proxy(x);
                use(px(*fs[n % 6]));
                use(px(f1));
            }
#endif
            // direct use of the spline, default hints
            {
                std::array<std::pair<double, size_t>, D> xm;
                for (size_t d = 0; d < D; ++d) xm[d] = std::make_pair(x[d], m[d]);
                use(f0->spline()(x));
                use(f0->spline().derivative_at(xm));
            }
            size_t d = 0;
            for (; d < D; ++d) {
                if (++k[d] < p[d].size()) break;
                k[d] = 0;
            }
            if (d == D) break;
        }
        delete f0;
        ++st().traces;
    }
};

// repeated cycles on one thread of many shapes: nothing left from earlier ones
template <size_t O>
void all() {
    size_t idx = 0;
    bool th = st().thorough;
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni) {
            std::vector<Axis> as = axes_1d(O, per, uni, th);
            for (size_t i = 0; i < as.size(); ++i) {
                if (!th && !uni && i % 4) continue;
                if (!th && uni && i % 3 && i + 8 < as.size()) continue;
                Grid<1> g;
                g.ax[0] = as[i];
                Mem<1, O>()(g, idx++);
            }
        }
#if MAXD >= 2
    std::vector<std::array<size_t, 2>> e2 = {{{0, 0}}, {{1, 4}}};
    if (th) e2.push_back({{4, 2}});
    for_grids<2>(O, e2, Mem<2, O>());
#endif
#if MAXD >= 3
    std::vector<std::array<size_t, 3>> e3 = {{{0, 2, 1}}};
    for_grids<3>(O, e3, Mem<3, O>(), th ? 1 : O > 3 ? 7 : 3);
#endif
}
int main(int argc, char** argv) {
    init(argc, argv);
    all<ORD>();
    return done();
}
