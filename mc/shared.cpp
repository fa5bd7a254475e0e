// C16: const operations on shared functions, templates and proxies.
#include "mcrt.hpp"
#include <Interpolation.hpp>
#include <InterpolationTemplate.hpp>
#include <cstring>
#include <memory>
#include <thread>
#include "cases.hpp"

namespace {
typedef std::vector<double> Out;
typedef std::pair<double, double> R;

template <size_t O>
intp::InterpolationFunction<double, 1, O> from_iterators(
    const intp::InterpolationFunctionTemplate<double, 1, O>& t,
    const intp::Mesh<double, 1>& m) {
    return t.interpolate(std::make_pair(m.begin(), m.end()));
}
template <size_t D, size_t O>
intp::InterpolationFunction<double, D, O> from_iterators(
    const intp::InterpolationFunctionTemplate<double, D, O>& t,
    const intp::Mesh<double, D>& m) {
    return t.interpolate(m);
}
template <size_t D, size_t O>
struct World {
    typedef intp::InterpolationFunction<double, D, O> F;
    typedef intp::InterpolationFunctionTemplate<double, D, O> T;
    std::array<size_t, D> n;
    intp::Mesh<double, D> m, m2;
    std::unique_ptr<const T> t;
    std::unique_ptr<const F> f, f2;
    std::array<std::array<double, D>, 2> x;
#ifdef INTP_CELL_LAYOUT
    std::unique_ptr<const typename T::eval_proxy_t> proxy;
#endif
    // lo, hi: ranges. Nothing is evaluated here, so the objects are cold.
    World(std::array<size_t, D> k, std::array<double, D> lo,
          std::array<double, D> hi, bool with_proxy, const T& tpl)
        : n(k), m(cases::mesh<D>(k, 1)), m2(cases::mesh<D>(k, 2)), t(new T(tpl)) {
        f.reset(new F(t->interpolate(m)));
        f2.reset(new F(t->interpolate(m2)));
        for (size_t d = 0; d < D; ++d) {
            x[0][d] = lo[d] + (hi[d] - lo[d]) * .13;
            x[1][d] = lo[d] + (hi[d] - lo[d]) * (d ? .37 : .91);
        }
#ifdef INTP_CELL_LAYOUT
        if (with_proxy)
            proxy.reset(new typename T::eval_proxy_t(t->eval_proxy(x[0])));
#endif
    }
    enum { NOP = 14 };
    static bool builds(int op) { return op >= 6 && op <= 9; }
    void values(const F& g, Out& o) const {
        o.push_back(g(x[0]));
        o.push_back(g(x[1]));
    }
    void run(int op, Out& o) const {
        std::array<size_t, D> der;
        der.fill(0);
        der[0] = O > 0 ? 1 : 0;
        switch (op) {
            case 0: values(*f, o); return;
            case 1: o.push_back(f->at(x[0])); o.push_back(f->at(x[1])); return;
            case 2:
                o.push_back(f->derivative(x[0], der));
                o.push_back(f->derivative(x[1], der));
                return;
            case 3:
                o.push_back(f->derivative_at(x[0], der));
                o.push_back(f->derivative_at(x[1], der));
                return;
            case 4: {
                F g(*f);
                values(g, o);
                return;
            }
            case 5: {
                F g(*f2);
                values(g, o);
                g = *f;
                values(g, o);
                return;
            }
            case 6: {
                F g = t->interpolate(m);
                values(g, o);
                return;
            }
            case 7: {
                F g(*f);
                t->interpolate(g, m2);
                values(g, o);
                return;
            }
            case 8: {
                T u(*t);
                F g = u.interpolate(m2);
                values(g, o);
                return;
            }
            case 9: {
                F g = from_iterators(*t, m2);
                values(g, o);
                return;
            }
            case 10:
                for (size_t d = 0; d < D; ++d) {
                    o.push_back(f->range(d).first);
                    o.push_back(f->range(d).second);
                    o.push_back(f->periodicity(d));
                    o.push_back(f->uniform(d));
                }
                return;
            case 11: {
                const auto& s = f->spline();
                for (size_t d = 0; d < D; ++d)
                    o.push_back(s.knots_end(d) - s.knots_begin(d));
                o.push_back(f2->operator()(x[0]));
                return;
            }
#ifdef INTP_CELL_LAYOUT
            case 12:
                o.push_back((*proxy)(*f));
                o.push_back((*proxy)(*f2));
                return;
            case 13: {
                auto p = t->eval_proxy(x[1]);
                auto q = *proxy;
                o.push_back(p(*f));
                o.push_back(q(*f));
                return;
            }
#endif
            default: values(*f2, o); return;
        }
    }
};
void same(const Out& a, const Out& b, int op, int who) {
    if (a.size() != b.size()) mc_fail("operation %d: number of results", op);
    for (size_t i = 0; i < a.size(); ++i)
        if (std::memcmp(&a[i], &b[i], sizeof a[i]))
            mc_fail("operation %d on T%d gives %.17g, %.17g alone", op, who, a[i],
                    b[i]);
}
// Kind: which objects; Build: 0 pairs of pure queries, 1 a building operation
// against everything
template <int Kind>
struct Make;
template <>
struct Make<0> {
    typedef World<1, 3> W;
    static W* go(bool p) {
        const std::vector<double> x{0, .5, 1.75, 2, 3.5, 4.125};
        return new W({{6}}, {{0}}, {{4.125}}, p, W::T({{false}},
                                 intp::MeshDimension<1>(std::array<size_t, 1>{{6}}),
                                 std::make_pair(x.begin(), x.end())));
    }
};
template <>
struct Make<1> {
    typedef World<1, 2> W;
    static W* go(bool p) {
        return new W({{6}}, {{0}}, {{5}}, p, W::T({{true}},
                                 intp::MeshDimension<1>(std::array<size_t, 1>{{6}}),
                                 R(0, 5)));
    }
};
template <>
struct Make<2> {
    typedef World<2, 3> W;
    static W* go(bool p) {
        const std::vector<double> x{0, .5, 1.75, 2.5, 3.5};
        return new W({{6, 5}}, {{0, 0}}, {{5, 3.5}}, p,
                     W::T({{true, false}},
                          intp::MeshDimension<2>(std::array<size_t, 2>{{6, 5}}),
                          R(0, 5), std::make_pair(x.begin(), x.end())));
    }
};
template <>
struct Make<3> {
    typedef World<3, 1> W;
    static W* go(bool p) {
        return new W({{3, 2, 4}}, {{0, 0, 0}}, {{1, 2, 3}}, p, W::T({{false, false, false}},
                                       intp::MeshDimension<3>(
                                           std::array<size_t, 3>{{3, 2, 4}}),
                                       R(0, 1), R(0, 2), R(0, 3)));
    }
};
template <>
struct Make<4> {
    typedef World<2, 0> W;
    static W* go(bool p) {
        return new W({{3, 4}}, {{0, 0}}, {{1, 2}}, p, W::T({{false, true}},
                                    intp::MeshDimension<2>(
                                        std::array<size_t, 2>{{3, 4}}),
                                    R(0, 1), R(0, 2)));
    }
};
template <int Kind, int Build, int Threads>
void share() {
    typedef typename Make<Kind>::W W;
    mc_quiet(true);
#ifdef INTP_MULTITHREAD
    intp::DedicatedThreadPool<void>::get_instance(1);
#endif
    mc_quiet(false);
    int op[Threads];
    Out o[Threads];
    if (Build == 0) {
        for (int i = 0; i < Threads; ++i) {
            int k = mc_choose(W::NOP - 4);
            op[i] = k < 6 ? k : k + 4;
        }
    } else {
        op[0] = 6 + mc_choose(4);
        for (int i = 1; i < Threads; ++i) op[i] = mc_choose(W::NOP);
    }
    bool proxy = false;
    for (int i = 0; i < Threads; ++i) proxy = proxy || op[i] >= 12;
    mc_quiet(true);
    std::unique_ptr<const W> w(Make<Kind>::go(proxy));
    mc_quiet(false);
    std::vector<std::thread> th;
    for (int i = 1; i < Threads; ++i)
        th.emplace_back([&w, &o, &op, i] { w->run(op[i], o[i]); });
    w->run(op[0], o[0]);
    for (auto& t : th) t.join();
    mc_quiet(true);
    // what each operation gives alone, on objects of its own
    std::unique_ptr<const W> v(Make<Kind>::go(true));
    std::vector<Out> alone(W::NOP);
    for (int i = 0; i < Threads; ++i)
        if (alone[size_t(op[i])].empty()) v->run(op[i], alone[size_t(op[i])]);
    for (int i = 0; i < Threads; ++i) same(o[i], alone[size_t(op[i])], op[i], i);
    // and the shared objects are as before
    for (int i = 0; i < Threads; ++i) {
        Out again;
        w->run(op[i], again);
        same(again, alone[size_t(op[i])], op[i], 0);
    }
}
}  // namespace

#ifdef INTP_MULTITHREAD
#define PB 0
#else
#define PB -1
#endif
int main(int argc, char** argv) {
    static McScenario s[] = {
        {"nonuniform-1d-query", share<0, 0, 2>, -1, 0},
        {"nonuniform-1d-build", share<0, 1, 2>, PB, 0},
        {"periodic-1d-query", share<1, 0, 2>, -1, 0},
        {"periodic-1d-build", share<1, 1, 2>, PB, 0},
        {"mixed-2d-query", share<2, 0, 2>, -1, 0},
        {"mixed-2d-build", share<2, 1, 2>, PB, 0},
        {"3d-query", share<3, 0, 2>, -1, 0},
        {"3d-build", share<3, 1, 2>, PB, 0},
        {"constant-2d-query", share<4, 0, 2>, -1, 0},
        {"constant-2d-build", share<4, 1, 2>, PB, 0},
        {"periodic-1d-three", share<1, 0, 3>, 1, 0},
        {"mixed-2d-three", share<2, 0, 3>, 1, 0, 0, true, 60, false, true},
    };
    return mc_main(argc, argv, s, sizeof s / sizeof *s);
}
