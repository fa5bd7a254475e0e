// C07: template, direct and convenience construction agree.
#include <deque>
#include <iterator>
#include <memory>
#include "h.hpp"
using namespace h;

// single-pass range: all copies of an iterator advance together
struct InIter {
    typedef std::input_iterator_tag iterator_category;
    typedef double value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const double* pointer;
    typedef const double& reference;
    const std::vector<double>* v = nullptr;
    std::shared_ptr<size_t> pos;
    InIter() {}
    explicit InIter(const std::vector<double>& w)
        : v(&w), pos(std::make_shared<size_t>(0)) {}
    bool done() const { return !v || *pos >= v->size(); }
    const double& operator*() const {
        if (done()) {
            fail("dereferenced an exhausted single-pass iterator");
            static const double zero = 0;
            return zero;
        }
        return (*v)[*pos];
    }
    InIter& operator++() {
        if (done()) fail("advanced an exhausted single-pass iterator");
        else ++*pos;
        return *this;
    }
    InIter operator++(int) {
        InIter t;
        t.v = v;
        t.pos = std::make_shared<size_t>(*pos);
        ++*this;
        return t;
    }
    bool operator==(const InIter& o) const { return done() == o.done(); }
    bool operator!=(const InIter& o) const { return !(*this == o); }
};
inline std::pair<InIter, InIter> in_range(const std::vector<double>& v) {
    return std::make_pair(InIter(v), InIter());
}

// observation of a function at fixed probe points
template <size_t D>
std::vector<std::array<double, D>> probes(const Grid<D>& g, size_t idx) {
    std::array<std::vector<double>, D> p;
    for (size_t d = 0; d < D; ++d) {
        const Axis& a = g.ax[d];
        double L = a.b() - a.a();
        double q[] = {a.a(), a.b(), a.a() + 0.013 * L, a.b() - 0.021 * L,
                      a.a() + 0.5003 * L, a.a() + 0.31 * L, a.a() + 0.77 * L,
                      a.a() - 0.07 * L, a.b() + 0.11 * L};
        p[d].assign(q, q + (D == 1 ? 9 : D == 2 ? 5 : 3));
        if (D == 1)
            for (size_t i = 0; i + 1 < a.x.size(); i += a.x.size() > 500 ? 97 : 1) {
                p[d].push_back(a.x[i]);
                p[d].push_back(a.x[i] + 0.3 * (a.x[i + 1] - a.x[i]));
            }
    }
    std::vector<std::array<double, D>> r;
    std::array<size_t, D> k;
    k.fill(0);
    for (;;) {
        std::array<double, D> x;
        for (size_t d = 0; d < D; ++d) x[d] = p[d][k[d]];
        r.push_back(x);
        size_t d = 0;
        for (; d < D; ++d) {
            if (++k[d] < p[d].size()) break;
            k[d] = 0;
        }
        if (d == D) break;
    }
    return r;
}
template <size_t D, typename F>
std::vector<double> observe(const F& f,
                            const std::vector<std::array<double, D>>& ps) {
    std::vector<double> v;
    std::array<size_t, D> m;
    m.fill(0);
    m[D - 1] = 1;
    for (const auto& x : ps) {
        v.push_back(f(x));
        v.push_back(f.derivative(x, m));
        st().transitions += 2;
    }
    for (size_t d = 0; d < D; ++d) {
        v.push_back(f.periodicity(d));
        v.push_back(f.range(d).first);
        v.push_back(f.range(d).second);
        v.push_back(f.uniform(d));
    }
    return v;
}
static void compare(const char* what, const std::vector<double>& got,
                    const std::vector<double>& want) {
    if (got.size() != want.size()) return fail("%s: sizes differ", what);
    double big = 1;
    for (double w : want)
        if (std::fabs(w) > big) big = std::fabs(w);
    for (size_t i = 0; i < got.size(); ++i) {
        if (!near(got[i], want[i], 1e-11L * big + 1e-11L * std::fabs(want[i]))) {
            fail("%s: observation %zu is %.17g, direct construction %.17g",
                 what, i, got[i], want[i]);
            return;
        }
    }
}

// ---- histories of interpolate calls on one template
template <size_t D, size_t O>
struct History {
    typedef intp::InterpolationFunction<double, D, O> F;
    typedef intp::InterpolationFunctionTemplate<double, D, O> T;
    // every sequence of `depth` (form, data) steps
    void operator()(const Grid<D>& g, size_t idx) const {
        if (!mine()) return;
        setcase("%s D=%zu", g.str(O).c_str(), D);
        ++st().states;
        sample();
        std::string base = scase();
        std::vector<std::array<double, D>> ps = probes<D>(g, idx);
        // another grid, whose functions are used as targets to be overwritten
        Grid<D> other;
        for (size_t d = 0; d < D; ++d)
            other.ax[d] = small_axis(O, !g.ax[d].periodic, !g.ax[d].uniform,
                                     4, idx + 3);
        const size_t ND = 2, FORMS = 5;
        std::vector<intp::Mesh<double, D>> mesh;
        std::vector<std::vector<double>> want;
        for (size_t i = 0; i < ND; ++i) {
            mesh.push_back(to_mesh<double, D>(g, generic_data(g.total(), idx * 7 + i)));
            want.push_back(observe<D>(make_fun<double, D, O>(g, mesh[i]), ps));
        }
        const F alien = make_fun<double, D, O>(
            other, to_mesh<double, D>(other, generic_data(other.total(), 99)));
        const size_t steps = ND * FORMS;
        size_t depth = D == 1 ? 3 : 2;
        if (st().thorough) depth = D == 1 ? 4 : 3;
        if (D == 3 || g.total() > 500) depth = 1;
        size_t seqs = 1;
        for (size_t i = 0; i < depth; ++i) seqs *= steps;
        const T t = make_tpl<double, D, O>(g);
        for (size_t s = 0; s < seqs; ++s) {
            if (D == 1 && !st().thorough && idx % 4 && s % 3) continue;
            size_t code = s;
            F target;  // survives the whole sequence
            std::vector<std::pair<F, size_t>> kept;
            kept.reserve(depth + 1);
            for (size_t i = 0; i < depth; ++i) {
                size_t form = code % FORMS, d = (code / FORMS) % ND;
                code /= steps;
                setcase("%s sequence=%zu step=%zu form=%zu", base.c_str(), s,
                        i, form);
                ++st().transitions;
                switch (form) {
                    case 0:
                        kept.push_back(std::make_pair(t.interpolate(mesh[d]), d));
                        break;
                    case 1: {
                        T t2 = make_tpl<double, D, O>(g);
                        kept.push_back(std::make_pair(
                            std::move(t2).interpolate(
                                intp::Mesh<double, D>(mesh[d])), d));
                        break;
                    }
                    case 2:
                        t.interpolate(target, mesh[d]);
                        kept.push_back(std::make_pair(target, d));
                        break;
                    case 3: {
                        F a = alien;
                        t.interpolate(a, mesh[d]);
                        kept.push_back(std::make_pair(a, d));
                        break;
                    }
                    default: {
                        const T t3(t);
                        t3.interpolate(target, intp::Mesh<double, D>(mesh[d]));
                        kept.push_back(std::make_pair(target, d));
                    }
                }
            }
            // the last result of every sequence; all of them now and then
            for (size_t i = (s % 7 ? depth - 1 : 0); i < kept.size(); ++i)
                compare("interpolate sequence", observe<D>(kept[i].first, ps),
                        want[kept[i].second]);
            ++st().traces;
        }
    }
};

// ---- 1D forms
template <size_t O>
struct OneD {
    typedef intp::InterpolationFunction<double, 1, O> F;
    typedef intp::InterpolationFunctionTemplate<double, 1, O> T;
    typedef intp::InterpolationFunction1D<O> F1;
    typedef intp::InterpolationFunctionTemplate1D<O> T1;
    static void forms(const Grid<1>& g, size_t idx) {
        if (!mine()) return;
        const Axis& a = g.ax[0];
        setcase("%s forms", g.str(O).c_str());
        ++st().states;
        sample();
        std::vector<std::array<double, 1>> ps = probes<1>(g, idx);
        intp::Mesh<double, 1> mesh =
            to_mesh<double, 1>(g, generic_data(g.total(), idx));
        std::vector<double> v(mesh.begin(), mesh.end());
        const std::vector<double> cv(v);
        std::list<double> lv(v.begin(), v.end());
        std::deque<float> fv(v.begin(), v.end());
        std::vector<double> want =
            observe<1>(make_fun<double, 1, O>(g, mesh), ps);
        const bool per = a.periodic;
        const size_t n = v.size();
        const double* pv = v.data();
#define CHK(name, expr)                      \
    do {                                     \
        setcase("%s form " name, g.str(O).c_str()); \
        ++st().transitions;                  \
        compare(name, observe<1>((expr), ps), want); \
    } while (0)
#define ALL_FORMS(XR)                                                        \
    {                                                                        \
        auto xr = XR;                                                        \
        CHK("F(bool,vec,x)", F(per, std::make_pair(v.begin(), v.end()), xr)); \
        CHK("F(bool,cvec,x)", F(per, std::make_pair(cv.begin(), cv.end()), xr)); \
        CHK("F(bool,list,x)", F(per, std::make_pair(lv.begin(), lv.end()), xr)); \
        CHK("F(bool,ptr,x)", F(per, std::make_pair(pv, pv + n), xr));         \
        CHK("F(array,mesh,x)", F(std::array<bool, 1>{{per}}, mesh, xr));      \
        CHK("F1(x,vec,bool)", F1(xr, std::make_pair(v.begin(), v.end()), per)); \
        CHK("F1(x,list,bool)", F1(xr, std::make_pair(lv.begin(), lv.end()), per)); \
        CHK("T(bool,n,x)", T(per, n, xr).interpolate(std::make_pair(v.begin(), v.end()))); \
        CHK("T(bool,n,x) mesh", T(per, n, xr).interpolate(mesh));             \
        CHK("T1(x,n,bool)", T1(xr, n, per).interpolate(std::make_pair(lv.begin(), lv.end()))); \
        {                                                                    \
            const T1 t(xr, n, per);                                          \
            CHK("const T1", t.interpolate(std::make_pair(cv.begin(), cv.end()))); \
            F f;                                                             \
            t.interpolate(f, std::make_pair(v.begin(), v.end()));            \
            CHK("T1 fill", f);                                               \
            t.interpolate(f, std::make_pair(pv, pv + n));                    \
            CHK("T1 refill", f);                                             \
        }                                                                    \
        if (!per) {                                                          \
            CHK("F(vec,x)", F(std::make_pair(v.begin(), v.end()), xr));       \
            CHK("F(mesh,x)", F(mesh, xr));                                    \
            CHK("F1(x,vec)", F1(xr, std::make_pair(v.begin(), v.end())));     \
            CHK("T(n,x)", T(n, xr).interpolate(mesh));                        \
            CHK("T(dim,x)", T(intp::MeshDimension<1>(n), xr).interpolate(mesh)); \
            CHK("T1(x,n)", T1(xr, n).interpolate(mesh));                      \
        }                                                                    \
        ++st().traces;                                                       \
    }
        if (a.uniform) {
            ALL_FORMS(std::make_pair(a.a(), a.b()));
            // defaults: coordinates 0, 1, 2, ...
            if (a.a() == 0 && a.b() == double(a.x.size() - 1)) {
                CHK("F1(vec,bool)", F1(std::make_pair(v.begin(), v.end()), per));
                CHK("F1(cvec,bool)", F1(std::make_pair(cv.begin(), cv.end()), per));
                CHK("F1(ptr,bool)", F1(std::make_pair(pv, pv + n), per));
                CHK("T1(n,bool)", T1(n, per).interpolate(mesh));
                CHK("T1(n,bool) pair", T1(n, per).interpolate(std::make_pair(v.begin(), v.end())));
                if (!per) {
                    CHK("F1(vec)", F1(std::make_pair(v.begin(), v.end())));
                    CHK("T1(n)", T1(n).interpolate(mesh));
                }
                // mixed and integral range types
                int ib = int(a.b());
                CHK("F int,double", F(per, std::make_pair(v.begin(), v.end()), std::make_pair(0, a.b())));
                CHK("F1 double,int", F1(std::make_pair(0., ib), std::make_pair(v.begin(), v.end()), per));
            }
        } else {
            std::list<double> lx(a.x.begin(), a.x.end());
            std::deque<double> dx(a.x.begin(), a.x.end());
            const double* px = a.x.data();
            ALL_FORMS(std::make_pair(a.x.begin(), a.x.end()));
            ALL_FORMS(std::make_pair(lx.begin(), lx.end()));
            ALL_FORMS(std::make_pair(dx.cbegin(), dx.cend()));
            ALL_FORMS(std::make_pair(px, px + a.x.size()));
            // ranges that can be read once only
            CHK("single-pass F(bool,list,x)", F(per, std::make_pair(lv.begin(), lv.end()), in_range(a.x)));
            CHK("single-pass F(bool,in,x)", F(per, in_range(v), in_range(a.x)));
            CHK("single-pass F(array,mesh,x)", F(std::array<bool, 1>{{per}}, mesh, in_range(a.x)));
            CHK("single-pass F1", F1(in_range(a.x), in_range(v), per));
            CHK("single-pass T", T(per, n, in_range(a.x)).interpolate(in_range(v)));
            CHK("single-pass T1", T1(in_range(a.x), n, per).interpolate(mesh));
        }
    }
};

// ends of the range of different types
template <size_t O, typename A, typename B>
static void mixed_range(bool per, size_t n, A lo, B hi, const char* types) {
    if (!mine()) return;
    typedef OneD<O> X;
    Grid<1> g;
    Axis& a = g.ax[0];
    a.periodic = per;
    a.uniform = true;
    const size_t cells = per ? n : n - 1;
    for (size_t i = 0; i <= cells; ++i)
        a.x.push_back(i == cells ? double(hi)
                                 : double(lo) + (double(hi) - double(lo)) *
                                                    double(i) / double(cells));
    setcase("order=%zu %s n=%zu range of %s [%.17g, %.17g]", size_t(O),
            per ? "periodic" : "aperiodic", n, types, double(lo), double(hi));
    ++st().states;
    std::vector<std::array<double, 1>> ps = probes<1>(g, n);
    intp::Mesh<double, 1> mesh =
        to_mesh<double, 1>(g, generic_data(g.total(), n));
    std::vector<double> v(mesh.begin(), mesh.end());
    auto vr = std::make_pair(v.begin(), v.end());
    std::vector<double> want = observe<1>(make_fun<double, 1, O>(g, mesh), ps);
    auto xr = std::make_pair(lo, hi);
    size_t m = v.size();
    compare("F", observe<1>(typename X::F(per, vr, xr), ps), want);
    compare("F1", observe<1>(typename X::F1(xr, vr, per), ps), want);
    compare("T", observe<1>(typename X::T(per, m, xr).interpolate(vr), ps), want);
    compare("T1", observe<1>(typename X::T1(xr, m, per).interpolate(mesh), ps), want);
    if (!per) {
        compare("F aperiodic", observe<1>(typename X::F(vr, xr), ps), want);
        compare("T aperiodic", observe<1>(typename X::T(m, xr).interpolate(mesh), ps), want);
        compare("F1 aperiodic", observe<1>(typename X::F1(xr, vr), ps), want);
        compare("T1 aperiodic", observe<1>(typename X::T1(xr, m).interpolate(vr), ps), want);
    }
    st().transitions += per ? 4 : 8;
    ++st().traces;
}
template <size_t O>
static void mixed_ranges() {
    for (int per = 0; per < 2; ++per)
        for (size_t n = min_sites(O, per != 0, true); n < O + 7; ++n) {
            mixed_range<O>(per != 0, n, 0, 2.5, "int, double");
            mixed_range<O>(per != 0, n, -1.75, 3, "double, int");
            mixed_range<O>(per != 0, n, -2, 0.625f, "int, float");
            mixed_range<O>(per != 0, n, 0.5f, 7.0625, "float, double");
            mixed_range<O>(per != 0, n, short(-3), 4L, "short, long");
            mixed_range<O>(per != 0, n, 0.375, 9u, "double, unsigned");
            mixed_range<O>(per != 0, n, 1, 2.1L, "int, long double");
            mixed_range<O>(per != 0, n, char(2), 1e9 + 0.5, "char, double");
        }
}

template <size_t D, size_t O>
struct NdAper {  // shorthand constructors: aperiodic in all dimensions
    void operator()(const Grid<D>& g, size_t idx) const {
        for (size_t d = 0; d < D; ++d)
            if (g.ax[d].periodic || !g.ax[d].uniform) return;
        typedef intp::InterpolationFunction<double, D, O> F;
        typedef intp::InterpolationFunctionTemplate<double, D, O> T;
        setcase("%s shorthand", g.str(O).c_str());
        ++st().states;
        auto ps = probes<D>(g, idx);
        auto mesh = to_mesh<double, D>(g, generic_data(g.total(), idx));
        auto want = observe<D>(make_fun<double, D, O>(g, mesh), ps);
        run(g, mesh, ps, want, std::integral_constant<size_t, D>());
        ++st().traces;
    }
    template <typename M, typename P>
    static void run(const Grid<2>& g, const M& mesh, const P& ps,
                    const std::vector<double>& want,
                    std::integral_constant<size_t, 2>) {
        typedef intp::InterpolationFunction<double, 2, O> F;
        typedef intp::InterpolationFunctionTemplate<double, 2, O> T;
        auto x = std::make_pair(g.ax[0].a(), g.ax[0].b());
        auto y = std::make_pair(g.ax[1].a(), g.ax[1].b());
        compare("F(mesh,x,y)", observe<2>(F(mesh, x, y), ps), want);
        compare("T(dim,x,y)", observe<2>(T(mesh.dimension(), x, y).interpolate(mesh), ps), want);
        compare("T(array,dim,x,y)",
                observe<2>(T(std::array<bool, 2>{{false, false}}, mesh.dimension(), x, y).interpolate(mesh), ps), want);
        st().transitions += 3;
    }
    template <typename M, typename P>
    static void run(const Grid<3>& g, const M& mesh, const P& ps,
                    const std::vector<double>& want,
                    std::integral_constant<size_t, 3>) {
        typedef intp::InterpolationFunction<double, 3, O> F;
        typedef intp::InterpolationFunctionTemplate<double, 3, O> T;
        auto x = std::make_pair(g.ax[0].a(), g.ax[0].b());
        auto y = std::make_pair(g.ax[1].a(), g.ax[1].b());
        auto z = std::make_pair(g.ax[2].a(), g.ax[2].b());
        compare("F(mesh,x,y,z)", observe<3>(F(mesh, x, y, z), ps), want);
        compare("T(dim,x,y,z)", observe<3>(T(mesh.dimension(), x, y, z).interpolate(mesh), ps), want);
        st().transitions += 2;
    }
};

template <size_t O>
void all() {
    size_t idx = 0;
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni) {
            for (const Axis& a : axes_1d(O, per, uni, st().thorough)) {
                Grid<1> g;
                g.ax[0] = a;
                OneD<O>::forms(g, idx++);
            }
            for (size_t e = 0; e < 3; ++e) {
                Grid<1> g;
                g.ax[0] = small_axis(O, per, uni, e * 2, e + 1);
                History<1, O>()(g, idx++);
            }
        }
    // large grids
    for (int c = 0; c < 4; ++c) {
        for (size_t n : {size_t(1029), size_t(4099)}) {
            Grid<1> g;
            g.ax[0] = c & 1 ? uniform_axis(c & 2, n, n % 4)
                            : nonuniform_axis(c & 2, n, 5, 1);
            if (n < 2000) OneD<O>::forms(g, idx);
            History<1, O>()(g, idx++);
        }
        Grid<2> g;
        g.ax[0] = c & 1 ? uniform_axis(c & 2, 70, 1) : nonuniform_axis(c & 2, 37, 7, 1);
        g.ax[1] = c & 1 ? nonuniform_axis(!(c & 2), 35, 8, 0) : uniform_axis(!(c & 2), 67, 0);
        History<2, O>()(g, idx++);
    }
    // the direct construction itself is right
    {
        for (int per = 0; per < 2; ++per)
            for (int uni = 0; uni < 2; ++uni) {
                Grid<1> g;
                g.ax[0] = small_axis(O, per, uni, 3, 0);
                Ref<1> r(g, O);
                std::vector<double> data = generic_data(g.total(), 17);
                std::vector<real> rd = to_real(data);
                auto f = make_tpl<double, 1, O>(g).interpolate(to_mesh<double, 1>(g, data));
                for (double x : piece_points(r.s[0], 3)) {
                    setcase("%s x=%.17g", g.str(O).c_str(), x);
                    Cand c = r.s[0].weights(x, 0);
                    real want;
                    double got = f(x);
                    if (inside(g.ax[0], x) && !matches<1>(r, rd, {{&c}}, got, 1e-9L, &want))
                        fail("template function %.17g, reference %.17Lg", got, want);
                }
            }
    }
    std::vector<std::array<size_t, 2>> e2 = {{{0, 1}}, {{3, 0}}};
    for_grids<2>(O, e2, History<2, O>());
    for_grids<2>(O, e2, NdAper<2, O>());
    mixed_ranges<O>();
#if ORD < 7
    std::vector<std::array<size_t, 3>> e3 = {{{1, 0, 2}}};
    for_grids<3>(O, e3, History<3, O>(), st().thorough ? 1 : 3);
    for_grids<3>(O, e3, NdAper<3, O>());
#endif
}
int main(int argc, char** argv) {
    init(argc, argv);
    all<ORD>();
#if ORD == 3
    {
        setcase("default order");
        std::vector<double> v = generic_data(9, 4);
        intp::InterpolationFunction1D<> f(std::make_pair(v.begin(), v.end()));
        intp::InterpolationFunction1D<3, double, double> g(std::make_pair(v.begin(), v.end()));
        if (f.get_order() != 3) fail("default order is %zu", size_t(f.get_order()));
        for (double x = -1; x < 9; x += 0.13)
            if (f(x) != g(x)) fail("default template arguments differ at %g", x);
    }
#endif
    return done();
}
