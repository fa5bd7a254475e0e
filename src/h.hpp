// Shared scaffolding of the exhaustive enumeration harnesses.
// Uses only the public interface of the library; C++11 compatible.
#ifndef VERIF_H_HPP
#define VERIF_H_HPP
#include <signal.h>
#include <unistd.h>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <list>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <vector>

#include <Interpolation.hpp>
#include "ref.hpp"

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char* __asan_default_options() {
    return "detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:"
           "allocator_may_return_null=1:malloc_context_size=8";
}
extern "C" const char* __ubsan_default_options() {
    return "halt_on_error=1:print_stacktrace=1";
}
#endif

#ifdef INTP_PERIODIC_NO_DUMMY_POINT
#define VERIF_DUMMY 0
#else
#define VERIF_DUMMY 1
#endif

#ifndef VERIF_NAME
#define VERIF_NAME "harness"
#endif

namespace h {
using std::size_t;
typedef long double real;

inline char* case_buf() {
    static char b[4096];
    return b;
}
struct Stats {
    unsigned long long states = 0;       // distinct configurations/objects
    unsigned long long transitions = 0;  // operations executed on the library
    unsigned long long traces = 0;       // complete reference traces compared
    unsigned long long violations = 0;
    double worst = 0;                    // worst error relative to tolerance
    bool thorough = false;
    long shard = 0, shards = 1;
    std::string only;                    // replay: only this case
    std::vector<std::string> samples;
};
inline Stats& st() {
    static Stats s;
    return s;
}
inline void setcase(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(case_buf(), 4096, fmt, ap);
    va_end(ap);
}
inline std::string scase() { return case_buf(); }
inline void finish();
inline void fail(const char* fmt, ...) {
#ifdef VERIF_MONITOR
    return;  // results are not judged here, only memory and arithmetic are
#endif
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    printf("VIOL case={%s} %s\n", case_buf(), b);
    fflush(stdout);
    if (++st().violations >= 5) {
        finish();
        _exit(1);
    }
}
inline void crash_note() {
    char b[4200];
    int n = snprintf(b, sizeof b, "\nCRASH case={%s}\n", case_buf());
    ssize_t r = write(1, b, size_t(n));
    (void)r;
}
inline void on_signal(int s) {
    crash_note();
    signal(s, SIG_DFL);
    raise(s);
}
inline void finish() {
    Stats& s = st();
    fflush(stdout);
    printf("STATS {\"states\": %llu, \"transitions\": %llu, \"traces\": %llu, "
           "\"violations\": %llu, \"worst\": %.3g, \"samples\": [",
           s.states, s.transitions, s.traces, s.violations, s.worst);
    for (size_t i = 0; i < s.samples.size(); ++i) {
        std::string t;
        for (char c : s.samples[i]) {
            if (c == '"' || c == '\\') t += '\\';
            if (c == '\n') c = ' ';
            t += c;
        }
        printf("%s\"%s\"", i ? ", " : "", t.c_str());
    }
    printf("]}\n");
    fflush(stdout);
}
inline void sample() {
    Stats& s = st();
    // keep a few, spread over the run
    unsigned long long n = s.states;
    if (s.samples.size() < 3 || ((n & (n - 1)) == 0 && s.samples.size() < 12))
        s.samples.push_back(case_buf());
}
inline void init(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--thorough")) st().thorough = true;
        if (!strcmp(argv[i], "--shard") && i + 2 < argc) {
            st().shard = atol(argv[i + 1]);
            st().shards = atol(argv[i + 2]);
        }
    }
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(crash_note);
#else
    signal(SIGSEGV, on_signal);
    signal(SIGBUS, on_signal);
    signal(SIGFPE, on_signal);
    signal(SIGILL, on_signal);
#endif
    signal(SIGABRT, on_signal);
}
inline int done() {
    finish();
    fflush(stdout);
    return st().violations ? 1 : 0;
}
// sharding over top level cases
inline bool mine() {
    static long c = 0;
    return c++ % st().shards == st().shard;
}

// One comparison. `tol` is absolute.
inline bool near(real got, real want, real tol) {
    real e = std::fabs(got - want);
    if (!(e <= tol)) return false;
    if (tol > 0 && double(e / tol) > st().worst) st().worst = double(e / tol);
    return true;
}

// ---------------------------------------------------------------- axes
using ref::Axis;
using ref::Spline1D;

inline size_t min_sites(size_t order, bool per, bool uni) {
    if (!per) return order + 1 > 2 ? order + 1 : 2;
    size_t m = order | 1;
    if (!uni && m < order + 1) m = order + 1;
    return m > 2 ? m : 2;
}

// start and length of coordinate ranges used by turns
inline std::pair<double, double> range_of(size_t i, size_t cells) {
    switch (i % 8) {
        case 0: return std::make_pair(0., double(cells));
        case 1: return std::make_pair(-1.5, 7.25);
        case 2: return std::make_pair(-12.75, 9.5);  // entirely negative
        case 3: return std::make_pair(0.1, 0.7 * double(cells));
        case 4: return std::make_pair(1000., 1.);
        case 5: return std::make_pair(-1e-3, 2.5e-3);
        case 6: return std::make_pair(3e-10, 1.7e-9);
        default: return std::make_pair(-4e9, 7.5e9);
    }
}

inline Axis uniform_axis(bool per, size_t sites, size_t range_ind) {
    Axis a;
    a.periodic = per;
    a.uniform = true;
    size_t cells = per ? sites : sites - 1;
    std::pair<double, double> r = range_of(range_ind, cells);
    double b = r.first + r.second;
    for (size_t i = 0; i <= cells; ++i)
        a.x.push_back(i == cells ? b
                                 : r.first + (b - r.first) * double(i) /
                                                 double(cells));
    return a;
}
// spacing pattern: digit i of `pat` in base 3 selects the i-th spacing
inline Axis nonuniform_axis(bool per, size_t sites, size_t pat,
                            size_t range_ind) {
    static const double sp[3] = {1., 2.5, 0.5};
    Axis a;
    a.periodic = per;
    a.uniform = false;
    size_t cells = per ? sites : sites - 1;
    static const double start[7] = {0., -1.5, -40.25, 0.1, 100., 2e-9, -5e8};
    const double unit = range_ind % 7 == 5   ? 1e-9
                        : range_ind % 7 == 6 ? 3e8
                                             : 1.;
    double x = start[range_ind % 7];
    a.x.push_back(x);
    uint64_t s = pat;
    for (size_t i = 0; i < cells; ++i) {
        size_t d = s % 3;
        s /= 3;
        if (s == 0) s = ref::mix(pat * 1000 + i) >> 20;
        x += unit * sp[d];
        a.x.push_back(x);
    }
    return a;
}
// spacing growing (ratio > 1) or shrinking geometrically, or by a jump
inline Axis graded_axis(bool per, size_t sites, double ratio, size_t jump) {
    Axis a;
    a.periodic = per;
    a.uniform = false;
    size_t cells = per ? sites : sites - 1;
    double x = -2, h = ratio > 1 ? 0.125 : 16;
    a.x.push_back(x);
    for (size_t i = 0; i < cells; ++i) {
        x += jump ? (i % jump == 0 ? 10. : 1.) : h;
        if (!jump && i % 6 < 5) h *= ratio;
        if (!jump && i % 6 == 5) h = ratio > 1 ? 0.125 : 16;
        a.x.push_back(x);
    }
    return a;
}
inline std::string ax_str(const Axis& a) {
    char b[160];
    std::string s = a.periodic ? "P" : "A";
    s += a.uniform ? "u" : "n";
    if (a.uniform || a.x.size() > 12) {
        snprintf(b, sizeof b, "%zu[%.17g,%.17g]", a.sites(), a.x.front(),
                 a.x.back());
        s += b;
    } else {
        s += "{";
        for (size_t i = 0; i < a.x.size(); ++i) {
            snprintf(b, sizeof b, "%s%.17g", i ? " " : "", a.x[i]);
            s += b;
        }
        s += "}";
    }
    return s;
}

template <size_t D>
struct Grid {
    std::array<Axis, D> ax;
    std::array<bool, D> per() const {
        std::array<bool, D> p;
        for (size_t d = 0; d < D; ++d) p[d] = ax[d].periodic;
        return p;
    }
    std::vector<size_t> sites() const {
        std::vector<size_t> v;
        for (size_t d = 0; d < D; ++d) v.push_back(ax[d].sites());
        return v;
    }
    size_t total() const {
        size_t n = 1;
        for (size_t d = 0; d < D; ++d) n *= ax[d].sites();
        return n;
    }
    std::array<size_t, D> mesh_size() const {
        std::array<size_t, D> s;
        for (size_t d = 0; d < D; ++d)
            s[d] = ax[d].sites() + (VERIF_DUMMY && ax[d].periodic ? 1 : 0);
        return s;
    }
    std::string str(size_t order) const {
        char b[40];
        snprintf(b, sizeof b, "order=%zu", order);
        std::string s = b;
        for (size_t d = 0; d < D; ++d) s += " " + ax_str(ax[d]);
        return s;
    }
};

template <size_t D>
std::array<size_t, D> unflat(size_t i, const std::vector<size_t>& n) {
    std::array<size_t, D> r;
    for (size_t d = D; d-- > 0;) {
        r[d] = i % n[d];
        i /= n[d];
    }
    return r;
}

// mesh to be handed to the library from values on the sites; the discarded
// dummy planes are filled with junk
template <typename T, size_t D>
intp::Mesh<T, D> to_mesh(const Grid<D>& g, const std::vector<T>& v) {
    std::array<size_t, D> ms = g.mesh_size();
    intp::Mesh<T, D> m{intp::MeshDimension<D>(ms)};
    std::vector<size_t> n = g.sites(), mn(ms.begin(), ms.end());
    size_t tot = 1;
    for (size_t d = 0; d < D; ++d) tot *= ms[d];
    for (size_t i = 0; i < tot; ++i) {
        std::array<size_t, D> idx = unflat<D>(i, mn);
        bool dummy = false;
        size_t flat = 0;
        for (size_t d = 0; d < D; ++d) {
            if (idx[d] >= n[d]) dummy = true;
            flat = flat * n[d] + idx[d];
        }
        m(idx) = dummy ? T(7777. + double(i)) : v[flat];
    }
    return m;
}

// range dispatch: f(pair...) with a (double,double) pair for each uniform and
// an iterator pair for each non-uniform axis
template <size_t D, size_t I, typename R>
struct Dispatch {
    template <typename F, typename... Ps>
    static R go(F& f, const Grid<D>& g, Ps... ps) {
        const Axis& a = g.ax[I];
        return a.uniform
                   ? Dispatch<D, I + 1, R>::go(f, g, ps...,
                                               std::make_pair(a.a(), a.b()))
                   : Dispatch<D, I + 1, R>::go(
                         f, g, ps..., std::make_pair(a.x.begin(), a.x.end()));
    }
};
template <size_t D, typename R>
struct Dispatch<D, D, R> {
    template <typename F, typename... Ps>
    static R go(F& f, const Grid<D>&, Ps... ps) {
        return f(ps...);
    }
};
template <typename T, size_t D, size_t O, typename U>
struct MakeFun {
    const Grid<D>& g;
    const intp::Mesh<T, D>& m;
    template <typename... Ps>
    intp::InterpolationFunction<T, D, O, U> operator()(Ps... ps) {
        return intp::InterpolationFunction<T, D, O, U>(g.per(), m, ps...);
    }
};
template <typename T, size_t D, size_t O, typename U>
struct MakeTpl {
    const Grid<D>& g;
    template <typename... Ps>
    intp::InterpolationFunctionTemplate<T, D, O, U> operator()(Ps... ps) {
        return intp::InterpolationFunctionTemplate<T, D, O, U>(
            g.per(), intp::MeshDimension<D>(g.mesh_size()), ps...);
    }
};
template <typename T, size_t D, size_t O, typename U = double>
intp::InterpolationFunction<T, D, O, U> make_fun(const Grid<D>& g,
                                                 const intp::Mesh<T, D>& m) {
    MakeFun<T, D, O, U> f{g, m};
    ++st().transitions;
    return Dispatch<D, 0, intp::InterpolationFunction<T, D, O, U>>::go(f, g);
}
template <typename T, size_t D, size_t O, typename U = double>
intp::InterpolationFunctionTemplate<T, D, O, U> make_tpl(const Grid<D>& g) {
    MakeTpl<T, D, O, U> f{g};
    ++st().transitions;
    return Dispatch<D, 0,
                    intp::InterpolationFunctionTemplate<T, D, O, U>>::go(f, g);
}

// ---------------------------------------------------------------- data
inline std::vector<double> generic_data(size_t n, uint64_t salt) {
    std::vector<double> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = ref::generic(salt * 100003 + i);
    return v;
}
inline std::vector<double> impulse(size_t n, size_t i) {
    std::vector<double> v(n, 0.);
    v[i] = 1;
    return v;
}
inline std::vector<real> to_real(const std::vector<double>& v) {
    return std::vector<real>(v.begin(), v.end());
}

// ---------------------------------------------------------------- reference
template <size_t D>
struct Ref {
    Grid<D> g;
    std::array<Spline1D, D> s;
    std::vector<size_t> n;
    bool ok = true;
    real cond = 1;
    Ref(const Grid<D>& grid, size_t order) : g(grid) {
        n = g.sites();
        for (size_t d = 0; d < D; ++d) {
            s[d] = Spline1D(g.ax[d], order);
            if (!s[d].ok) ok = false;
            cond *= s[d].cond;
        }
    }
};
typedef std::vector<std::vector<real>> Cand;  // candidate weight vectors

// Does `got` match the tensor contraction for some candidate combination?
// Tolerance is rel * (scale of the terms) * (growth factor).
template <size_t D>
bool matches(const Ref<D>& r,
             const std::vector<real>& data,
             const std::array<const Cand*, D>& c,
             real got,
             real rel,
             real* want) {
    std::array<size_t, D> pick;
    pick.fill(0);
    real best = -1, bw = 0;
    bool okk = false;
    real dm = 0;
    for (real t : data)
        if (std::fabs(t) > dm) dm = std::fabs(t);
    for (;;) {
        std::vector<const std::vector<real>*> w;
        for (size_t d = 0; d < D; ++d) w.push_back(&(*c[d])[pick[d]]);
        real scale = 0;
        real v = ref::contract(data, r.n, w, &scale);
        // scale of the individual cardinal functions as well, so that an
        // exactly cancelled weight does not get a zero tolerance
        real ws = 1;
        for (size_t d = 0; d < D; ++d) {
            real q = 0;
            for (real t : *w[d]) q += std::fabs(t);
            ws *= q;
        }
        real tol = rel * (scale + ws * dm) * r.cond;
        real e = std::fabs(got - v);
        real q = tol > 0 ? e / tol : (e == 0 ? 0 : 1e30L);
        if (best < 0 || q < best) {
            best = q;
            bw = v;
        }
        size_t d = 0;
        for (; d < D; ++d) {
            if (++pick[d] < c[d]->size()) break;
            pick[d] = 0;
        }
        if (d == D) break;
    }
    okk = best <= 1 && got == got;
    if (okk && double(best) > st().worst) st().worst = double(best);
    if (want) *want = bw;
    return okk;
}

// ---------------------------------------------------------------- points
inline double up(double x) { return std::nextafter(x, 1e300); }
inline double down(double x) { return std::nextafter(x, -1e300); }

// Points determining every polynomial piece inside the range: order+1 interior
// points per knot segment, and segment ends.
inline std::vector<double> piece_points(const Spline1D& s, size_t per_seg) {
    std::vector<double> p;
    for (size_t i = s.seg0; i < s.seg1; ++i) {
        real a = s.t[i], b = s.t[i + 1];
        if (b - a <= 0) continue;
        for (size_t j = 0; j < per_seg; ++j)
            p.push_back(double(a + (b - a) * (real(j) + 0.5L) / real(per_seg)));
    }
    return p;
}
// special coordinates: grid points and knots, with their neighbours
inline std::vector<double> special_points(const Spline1D& s, bool neigh) {
    std::vector<double> p;
    auto add = [&](double x) {
        p.push_back(x);
        if (neigh) {
            p.push_back(up(x));
            p.push_back(down(x));
        }
    };
    for (double x : s.ax.x) add(x);
    for (size_t i = s.seg0; i <= s.seg1; ++i) add(double(s.t[i]));
    return p;
}
inline bool inside(const Axis& a, double x) {
    return a.periodic || (x >= a.a() && x <= a.b());
}
inline void keep_inside(const Axis& a, std::vector<double>& p) {
    std::vector<double> q;
    for (double x : p)
        if (inside(a, x)) q.push_back(x);
    p.swap(q);
}
inline std::vector<double> thin(const std::vector<double>& p, size_t most,
                                size_t phase) {
    if (p.size() <= most) return p;
    std::vector<double> q;
    // odd stride walk covering different residues for different phases
    size_t n = p.size();
    for (size_t i = 0; i < most; ++i) q.push_back(p[(phase + i * n / most) % n]);
    return q;
}
inline std::vector<Cand> weights_at(const Spline1D& s,
                                    const std::vector<double>& p, size_t m) {
    std::vector<Cand> c;
    for (double x : p) c.push_back(s.weights(x, m));
    return c;
}

// given point by point, but equally spaced up to a small relative deviation
inline Axis nearly_uniform_axis(bool per, size_t sites, double eps,
                                size_t range_ind) {
    Axis a = uniform_axis(per, sites, range_ind);
    a.uniform = false;
    const double h = a.x[1] - a.x[0];
    for (size_t i = 1; i + 1 < a.x.size(); ++i)
        a.x[i] += eps * h * (double(ref::mix(i + sites) >> 40) / 8388608. - 1);
    return a;
}
// ---------------------------------------------------------------- case lists
// All axes of given order / periodicity / uniformity used in 1-D sweeps.
inline std::vector<Axis> axes_1d(size_t order, bool per, bool uni,
                                 bool thorough) {
    std::vector<Axis> v;
    size_t m = min_sites(order, per, uni);
    if (uni) {
        size_t span = thorough ? 14 : 9;
        for (size_t n = m; n < m + span; ++n)
            for (size_t r = 0; r < 8; ++r) v.push_back(uniform_axis(per, n, r));
        static const size_t big[] = {20, 23, 31, 32, 33, 64, 65, 100, 129, 257,
                                     500};
        for (size_t i = 0; i < sizeof big / sizeof *big; ++i)
            if (big[i] >= m + span && (thorough || big[i] <= 257))
                v.push_back(uniform_axis(per, big[i], i));
    } else {
        // every spacing pattern over three spacings for the first few cells
        size_t free_cells = thorough ? 6 : 4;
        size_t np = 1;
        for (size_t i = 0; i < free_cells; ++i) np *= 3;
        for (size_t n = m; n < m + (thorough ? 8 : 5); ++n) {
            size_t cells = per ? n : n - 1, lim = 1;
            for (size_t i = 0; i < cells && lim < np; ++i) lim *= 3;
            // all patterns for the two smallest grids, every third after that
            size_t step = n < m + 2 ? 1 : (thorough ? 2 : 5);
            for (size_t p = 0; p < lim; p += step)
                v.push_back(nonuniform_axis(per, n, p + (lim == np ? np : 0),
                                            p + n));
        }
        static const size_t big[] = {20, 33, 64, 129};
        for (size_t i = 0; i < 4; ++i)
            if (big[i] >= m + 5 && (thorough || big[i] <= 64))
                v.push_back(nonuniform_axis(per, big[i], 91 + i, i));
        for (size_t e = 1; e < 13; e += thorough ? 1 : 4) {
            v.push_back(graded_axis(per, m + e, 2, 0));
            v.push_back(graded_axis(per, m + e, 0.5, 0));
            v.push_back(graded_axis(per, m + e, 1, 4 + e % 3));
            static const double eps[4] = {0, 1e-2, 1e-4, 1e-6};
            for (size_t i = 0; i < 4; ++i)
                v.push_back(nearly_uniform_axis(per, m + e + i, eps[i],
                                                (e + i) % 5));
        }
    }
    return v;
}
// A small axis for multi-dimensional grids: `extra` sites above the minimum.
inline Axis small_axis(size_t order, bool per, bool uni, size_t extra,
                       size_t variant) {
    size_t n = min_sites(order, per, uni) + extra;
    return uni ? uniform_axis(per, n, variant)
               : nonuniform_axis(per, n, 7 + 11 * variant, variant);
}
// All periodicity x uniformity combinations in D dimensions with the given
// extras; calls f(grid, index)
template <size_t D, typename F>
void for_grids(size_t order, const std::vector<std::array<size_t, D>>& extras,
               F f, size_t uni_mask_step = 1) {
    size_t idx = 0;
    for (size_t e = 0; e < extras.size(); ++e)
        for (size_t pm = 0; pm < (size_t(1) << D); ++pm)
            for (size_t um = 0; um < (size_t(1) << D); um += uni_mask_step) {
                Grid<D> g;
                for (size_t d = 0; d < D; ++d)
                    g.ax[d] = small_axis(order, (pm >> d) & 1,
                                         !((um >> d) & 1), extras[e][d],
                                         idx + 2 * d + e);
                f(g, idx++);
            }
}
// many dimensions: a multilinear function is reproduced by every order > 0;
// it does not depend on the coordinates of periodic dimensions
template <size_t D>
struct MultiLinear {
    std::array<bool, D> per;
    double operator()(const std::array<double, D>& x, size_t dd = D) const {
        double v = 1;
        for (size_t d = 0; d < D; ++d)
            if (!per[d])
                v *= d == dd ? (d % 2 ? -0.375 : 0.25)
                             : 1 + (d % 2 ? -0.375 : 0.25) * x[d];
        return dd < D && per[dd] ? 0 : v;
    }
};
// mode 0: inside, 1: grid points, 3: outside, 4: some periods away
template <size_t D, size_t O, size_t... I>
void many_dims(std::array<bool, D> per, int mode,
               intp::util::index_sequence<I...>) {
    typedef intp::InterpolationFunction<double, D, O> F;
    typedef intp::InterpolationFunctionTemplate<double, D, O> T;
    std::array<size_t, D> n;
    std::array<std::pair<double, double>, D> r;
    for (size_t d = 0; d < D; ++d) {
        n[d] = O + 1 + (d % 3 == 1) + (per[d] ? 1 : 0);
#ifdef INTP_PERIODIC_NO_DUMMY_POINT
        r[d] = std::make_pair(-0.5, double(n[d]) - (per[d] ? 0.5 : 1.5));
#else
        r[d] = std::make_pair(-0.5, double(n[d]) - 1.5);
#endif
    }
    std::string ps;
    for (size_t d = 0; d < D; ++d) ps += per[d] ? 'P' : 'A';
    setcase("%zu dimensions order %zu %s", D, O, ps.c_str());
    ++st().states;
    sample();
    MultiLinear<D> f;
    f.per = per;
    intp::Mesh<double, D> m{intp::MeshDimension<D>(n)};
    for (size_t i = 0; i < m.size(); ++i) {
        std::array<size_t, D> k;
        std::array<double, D> x;
        size_t q = i;
        for (size_t d = D; d-- > 0; q /= n[d]) {
            k[d] = q % n[d];
            x[d] = double(k[d]) - 0.5;
        }
        m(k) = f(x);
    }
    const F a(per, m, r[I]...);
    const T t(per, m.dimension(), r[I]...);
    const F b = t.interpolate(m);
    const real tol = mode == 3 ? 1e-8L : 1e-9L;
    // every tuple over a low and a high coordinate, each derivative
    for (size_t c = 0; c < (size_t(1) << D); ++c) {
        std::array<double, D> x;
        for (size_t d = 0; d < D; ++d)
            x[d] = (c >> d) & 1 ? r[d].second - 0.2 - 0.03 * double(d)
                                : r[d].first + 0.3 + 0.02 * double(d);
        for (size_t d = 0; d < D; ++d) {
            double L = r[d].second - r[d].first;
            if (mode == 1)
                x[d] = (c >> d) & 1 ? double(n[d]) - 2.5 : d % 2 ? -0.5 : 0.5;
            if (mode == 3 && !per[d] && (c + d) % 3 == 0)
                x[d] += (c >> d) & 1 ? L : -0.7 * L;
            if (mode == 4 && per[d]) x[d] += L * ((c >> d) & 1 ? 2. : -3.);
        }
        const F& g = c % 2 ? a : b;
        ++st().transitions;
        if (!near(g(x), f(x), tol)) fail("value %.17g, expected %.17g", g(x), f(x));
        std::array<size_t, D> z;
        for (size_t d = 0; d < D; ++d) {
            if ((c + d) % 3) continue;
            z.fill(0);
            z[d] = 1;
            double got = g.derivative(x, z), want = f(x, d);
            ++st().transitions;
            if (!near(got, want, tol))
                fail("derivative along %zu: %.17g, expected %.17g", d, got, want);
        }
#ifdef INTP_CELL_LAYOUT
        if (c % 5 == 0 && !near(t.eval_proxy(x)(a), f(x), tol))
            fail("proxy %.17g, expected %.17g", double(t.eval_proxy(x)(a)), f(x));
#endif
    }
    ++st().traces;
}
template <size_t D, size_t O>
void many_dims(int mode) {
    for (size_t c = 0; c < 4; ++c) {
        std::array<bool, D> per;
        for (size_t d = 0; d < D; ++d) per[d] = c == 0 ? false : (d + c) % 3 == 0;
        if (mine()) many_dims<D, O>(per, mode, intp::util::make_index_sequence<D>());
    }
}

}  // namespace h
#endif
