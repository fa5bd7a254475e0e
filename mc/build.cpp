// C15: multithreaded construction of interpolation functions.
#include "mcrt.hpp"
#include "cases.hpp"
#include <cstring>
#include <memory>
#include <stdexcept>
#include <thread>

#ifndef INTP_MULTITHREAD
#error "for INTP_MULTITHREAD"
#endif
void reference(int c, std::vector<double>& o);

namespace {
typedef std::vector<double> Out;
typedef intp::DedicatedThreadPool<void> Pool;
Out expected[cases::NCASE];

void same(const Out& a, const Out& b, int c) {
    if (a.size() != b.size()) mc_fail("case %d: number of results", c);
    for (size_t i = 0; i < a.size(); ++i)
        if (std::memcmp(&a[i], &b[i], sizeof a[i]))
            mc_fail("case %d: value %zu is %.17g, single-threaded build gives %.17g",
                    c, i, a[i], b[i]);
}
template <int C, int W>
void one() {
    if (W) Pool::get_instance(W);
    Out o;
    cases::run_case(C, o);
    same(o, expected[C], C);
    uint64_t h = 0;
    for (double v : o) {
        uint64_t b;
        std::memcpy(&b, &v, 8);
        h = h * 1099511628211ull + b;
    }
    mc_outcome(h);
}
template <int A, int B, int W>
void two() {  // two user threads build at the same time
    if (W) Pool::get_instance(W);
    Out o, p;
    std::thread t([&p] { cases::run_case(B, p); });
    cases::run_case(A, o);
    t.join();
    same(o, expected[A], A);
    same(p, expected[B], B);
}
template <int W>
void shared_template() {
    typedef std::pair<double, double> R;
    if (W) Pool::get_instance(W);
    const intp::InterpolationFunctionTemplate<double, 2, 1> t(
        {{false, false}}, intp::MeshDimension<2>(std::array<size_t, 2>{{3, 3}}),
        R(0, 3), R(0, 4));
    const intp::Mesh<double, 2> m = cases::mesh<2>({{3, 3}}, 1);
    std::vector<intp::InterpolationFunction<double, 2, 1>> g;
    std::thread u([&] { g.push_back(t.interpolate(m)); });
    intp::InterpolationFunction<double, 2, 1> f = t.interpolate(m);
    u.join();
    Out a, b;
    cases::look(f, {{3, 3}}, a);
    cases::look(g[0], {{3, 3}}, b);
    same(a, b, 100);
}
// a value type whose arithmetic fails at a chosen place
int bomb_thread = -1, bomb_at = -1;
struct Boom {};
struct Num {
    double v;
    Num(double x = 0) : v(x) {}
    Num(const Num& o) : v(o.v) {}
    Num& operator=(const Num& o) {
        tick();
        v = o.v;
        return *this;
    }
    Num& operator+=(const Num& o) { v += o.v; return *this; }
    Num& operator-=(const Num& o) { v -= o.v; return *this; }
    Num& operator*=(double s) { v *= s; return *this; }
    Num& operator/=(double s) { tick(); v /= s; return *this; }
    friend Num operator+(Num a, const Num& b) { return a += b; }
    friend Num operator-(Num a, const Num& b) { return a -= b; }
    friend Num operator*(double s, Num a) { return a *= s; }
    friend Num operator*(Num a, double s) { return a *= s; }
    friend Num operator/(Num a, double s) { return a /= s; }
    static void tick() {
        if (bomb_thread < 0) return;
        if ((mc_tid() == 0) != (bomb_thread == 0)) return;
        if (mc_tid() != 0 || bomb_at-- == 0) throw Boom();
    }
};
template <int Where, int W>
void throwing() {  // the building call fails: nothing keeps working on it
    typedef std::pair<double, double> R;
    if (W) Pool::get_instance(W);
    intp::Mesh<Num, 2> m{intp::MeshDimension<2>(std::array<size_t, 2>{{5, 5}})};
    for (size_t i = 0; i < 5; ++i)
        for (size_t j = 0; j < 5; ++j) m(i, j) = Num(double(i * 5 + j));
    bool ok = false;
    {
        std::unique_ptr<intp::InterpolationFunctionTemplate<Num, 2, 1>> t(
            new intp::InterpolationFunctionTemplate<Num, 2, 1>(
                {{false, false}},
                intp::MeshDimension<2>(std::array<size_t, 2>{{5, 5}}), R(0, 3),
                R(0, 4)));
        bomb_thread = Where;
        bomb_at = Where == 0 ? 27 : 0;
        try {
            auto f = t->interpolate(m);
            (void)f;
        } catch (const Boom&) { ok = true; }
        bomb_thread = -1;
    }
    mc_note(ok);
}
}  // namespace

#ifdef INTP_CELL_LAYOUT
#define CELL 1
#else
#define CELL 0
#endif
int main(int argc, char** argv) {
    for (int c = 0; c < cases::NCASE; ++c) reference(c, expected[c]);
    static McScenario s[] = {
        {"w1-2d", one<0, 1>, 2},
        {"w2-2d", one<0, 2>, 1 - CELL},
        {"w3-1d", one<3, 3>, 1 - CELL},
        {"w8-1d", one<3, 0>, 1, 0, 0, true, 60, false, false, true},
        {"w8-2d-delay", one<0, 0>, 1, 0, 0, true, 60, false, false, true},
        {"w3-2d-delay", one<0, 3>, 2, 0, 0, true, 60, false, false, true},
        {"w1-periodic-nonuniform", one<1, 1>, 2},
        {"w2-periodic-nonuniform", one<1, 2>, 0},
        {"w1-3d", one<2, 1>, 1},
        {"w2-3d", one<2, 2>, 0},
        {"w1-1d", one<3, 1>, -1},
        {"w2-1d", one<3, 2>, 2 - CELL},
        {"w1-4d", one<4, 1>, 1},
        {"w2-4d-delay", one<4, 2>, 1, 0, 0, true, 60, false, false, true},
        {"w2-4d", one<4, 2>, 0, 0, 0, true, 60, false, CELL},
        {"w1-thin", one<5, 1>, 2},
        {"w2-thin", one<5, 2>, 1 - CELL},
        {"w1-template", one<6, 1>, 1},
        {"w2-template", one<6, 2>, 0, 0, 0, true, 60, false, CELL},
        {"w2-constant", one<7, 2>, 1},
        {"w1-refill", one<8, 1>, 1},
        {"w2-refill", one<8, 2>, 0, 0, 0, true, 60, false, CELL},
        {"w1-two-users", two<3, 5, 1>, 1},
        {"w2-two-users", two<3, 3, 2>, 1 - CELL},
        {"w1-shared-template", shared_template<1>, 1},
        {"w2-shared-template", shared_template<2>, 0, 0, 0, true, 60, false, CELL},
        {"w2-shared-delay", shared_template<2>, 2, 0, 0, true, 60, false, false, true},
        {"w1-throw-user", throwing<0, 1>, 2},
        {"w2-throw-user", throwing<0, 2>, 1},
        {"w1-throw-worker", throwing<1, 1>, 2},
        {"w2-throw-worker", throwing<1, 2>, 1},
        {"w2-lines-2", one<9, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-2", one<9, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-3", one<10, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-3", one<10, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-4", one<11, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-4", one<11, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-5", one<12, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-5", one<12, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-6", one<13, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-6", one<13, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-7", one<14, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-7", one<14, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-8", one<15, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-8", one<15, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-9", one<16, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-9", one<16, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-10", one<17, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-10", one<17, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-11", one<18, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-11", one<18, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-12", one<19, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-12", one<19, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-13", one<20, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-13", one<20, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-14", one<21, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-14", one<21, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-15", one<22, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-15", one<22, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-16", one<23, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-16", one<23, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-17", one<24, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-17", one<24, 3>, 1, 0, 0, true, 4, false, false, true},
        {"w2-lines-18", one<25, 2>, 1 - CELL, 0, 0, true, 8},
        {"w3-lines-18", one<25, 3>, 1, 0, 0, true, 4, false, false, true},
        // many lines: more blocks than a worker fetches at a time
        {"w2-lines-40", one<43, 2>, 0, 0, 0, true, 8, false, false, true},
        {"w2-lines-99", one<44, 2>, 0, 0, 0, true, 8, false, false, true},
        {"w2-lines-300", one<45, 2>, 0, 0, 0, true, 8, false, false, true},
#if CELL
        {"w2-cells-2", one<26, 2>, 1, 0, 0, true, 8},
        {"w2-cells-3", one<27, 2>, 1, 0, 0, true, 8},
        {"w2-cells-4", one<28, 2>, 1, 0, 0, true, 8},
        {"w2-cells-5", one<29, 2>, 1, 0, 0, true, 8},
        {"w2-cells-6", one<30, 2>, 1, 0, 0, true, 8},
        {"w2-cells-7", one<31, 2>, 1, 0, 0, true, 8},
        {"w2-cells-8", one<32, 2>, 1, 0, 0, true, 8},
        {"w2-cells-9", one<33, 2>, 1, 0, 0, true, 8},
        {"w2-cells-10", one<34, 2>, 1, 0, 0, true, 8},
        {"w2-cells-11", one<35, 2>, 1, 0, 0, true, 8},
        {"w2-cells-12", one<36, 2>, 1, 0, 0, true, 8},
        {"w2-cells-13", one<37, 2>, 1, 0, 0, true, 8},
        {"w2-cells-14", one<38, 2>, 1, 0, 0, true, 8},
        {"w2-cells-15", one<39, 2>, 1, 0, 0, true, 8},
        {"w2-cells-16", one<40, 2>, 1, 0, 0, true, 8},
        {"w2-cells-17", one<41, 2>, 1, 0, 0, true, 8},
        {"w2-cells-18", one<42, 2>, 1, 0, 0, true, 8},
#endif
        {"w3-2d", one<0, 3>, 0, 0, 0, true, 200, false, true},
        {"w8-2d", one<0, 0>, 0, 0, 0, true, 300, false, true},
    };
    return mc_main(argc, argv, s, sizeof s / sizeof *s);
}
