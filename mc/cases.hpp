// Small interpolation problems, used both by the scenarios (multithreaded
// build) and by the reference unit, which is built without threads and with
// the library's namespace renamed.
#ifndef CASES_HPP
#define CASES_HPP
#include <Interpolation.hpp>
#include <InterpolationTemplate.hpp>
#include <array>
#include <cmath>
#include <vector>

#ifndef CASES_NS
#define CASES_NS cases
#endif
namespace CASES_NS {
typedef std::vector<double> Out;

inline double generic(size_t k) {
    k = k * 2654435761u + 12345;
    k ^= k >> 15;
    k = k * 2246822519u;
    k ^= k >> 13;
    return double(k % 20011) / 3001. - 3.;
}
template <size_t D>
intp::Mesh<double, D> mesh(std::array<size_t, D> n, size_t salt) {
    intp::Mesh<double, D> m{intp::MeshDimension<D>(n)};
    size_t tot = 1;
    for (size_t d = 0; d < D; ++d) tot *= n[d];
    for (size_t i = 0; i < tot; ++i) {
        std::array<size_t, D> idx;
        size_t k = i;
        for (size_t d = D; d-- > 0;) {
            idx[d] = k % n[d];
            k /= n[d];
        }
        m(idx) = generic(salt * 1000 + i);
    }
    return m;
}

template <size_t D, size_t O>
void look(const intp::InterpolationFunction<double, D, O>& f,
          std::array<size_t, D> n, Out& o) {
    std::array<double, D> lo, hi;
    for (size_t d = 0; d < D; ++d) {
        lo[d] = f.range(d).first;
        hi[d] = f.range(d).second;
    }
    // a lattice as fine as the grid, touching every cell
    size_t tot = 1;
    for (size_t d = 0; d < D; ++d) tot *= n[d];
    for (size_t i = 0; i < tot; ++i) {
        std::array<double, D> x;
        size_t q = i;
        for (size_t d = 0; d < D; ++d) {
            x[d] = lo[d] + (hi[d] - lo[d]) * double(q % n[d]) / double(n[d] - 1);
            q /= n[d];
        }
        o.push_back(f(x));
    }
}

inline void run_case(int c, Out& o) {
    using intp::InterpolationFunction;
    using intp::InterpolationFunctionTemplate;
    typedef std::pair<double, double> R;
    switch (c) {
        case 0: {
            InterpolationFunction<double, 2, 3> f(
                {{false, false}}, mesh<2>({{4, 5}}, 1), R(0, 3), R(-1, 7));
            look(f, {{4, 5}}, o);
            return;
        }
        case 1: {  // periodic, non-uniform
            const std::vector<double> x{0, .5, 1.75, 2, 3.5, 4.125};
            InterpolationFunction<double, 2, 2> f(
                {{true, false}}, mesh<2>({{7, 6}}, 2), R(0, 6),
                std::make_pair(x.begin(), x.end()));
            look(f, {{7, 6}}, o);
            return;
        }
        case 2: {
            InterpolationFunction<double, 3, 2> f({{false, false, false}},
                                                  mesh<3>({{3, 4, 5}}, 3), R(0, 1),
                                                  R(0, 2), R(0, 3));
            look(f, {{3, 4, 5}}, o);
            return;
        }
        case 3: {
            InterpolationFunction<double, 1, 3> f({{false}}, mesh<1>({{6}}, 4), R(0, 5));
            look(f, {{6}}, o);
            return;
        }
        case 4: {
            InterpolationFunction<double, 4, 1> f(
                {{false, false, false, false}}, mesh<4>({{3, 2, 4, 3}}, 5), R(0, 1),
                R(0, 2), R(0, 3), R(0, 1));
            look(f, {{3, 2, 4, 3}}, o);
            return;
        }
        case 5: {  // long and thin
            InterpolationFunction<double, 2, 1> f(
                {{false, false}}, mesh<2>({{2, 11}}, 6), R(0, 1), R(0, 1));
            look(f, {{2, 11}}, o);
            return;
        }
        case 6: {  // template, used twice
            InterpolationFunctionTemplate<double, 2, 3> t(
                {{false, true}}, intp::MeshDimension<2>(std::array<size_t, 2>{{4, 5}}),
                R(0, 3), R(0, 4));
            InterpolationFunction<double, 2, 3> f = t.interpolate(mesh<2>({{4, 5}}, 7));
            InterpolationFunction<double, 2, 3> g = t.interpolate(mesh<2>({{4, 5}}, 8));
            look(f, {{4, 5}}, o);
            look(g, {{4, 5}}, o);
            return;
        }
        case 7: {  // piecewise constant
            InterpolationFunction<double, 2, 0> f(
                {{false, true}}, mesh<2>({{3, 4}}, 9), R(0, 2), R(0, 3));
            look(f, {{3, 4}}, o);
            return;
        }
        case 8: {  // target reused
            InterpolationFunctionTemplate<double, 2, 1> t(
                {{false, false}}, intp::MeshDimension<2>(std::array<size_t, 2>{{3, 6}}),
                R(0, 3), R(0, 4));
            InterpolationFunction<double, 2, 1> f = t.interpolate(mesh<2>({{3, 6}}, 1));
            t.interpolate(f, mesh<2>({{3, 6}}, 2));
            look(f, {{3, 6}}, o);
            return;
        }
        case 26: case 27: case 28: case 29: case 30: case 31: case 32: case 33:
        case 34: case 35: case 36: case 37: case 38: case 39: case 40: case 41:
        case 42: {  // spline of given control points: 2, 3, ... lines of cells
            const size_t n = size_t(c - 23);
            std::vector<double> kx{0}, ky{0, 0, 1, 2, 2};
            for (size_t i = 0; i < n; ++i) kx.push_back(double(i));
            kx.push_back(double(n - 1));
            typedef intp::BSpline<double, 2, 1> Sp;
            typename Sp::ControlPointContainer p{
                intp::MeshDimension<2>(std::array<size_t, 2>{{n, 3}})};
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < 3; ++j) p(i, j) = generic(i * 3 + j);
            const Sp s(p, std::make_pair(kx.begin(), kx.end()),
                       std::make_pair(ky.begin(), ky.end()));
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < 3; ++j)
                    o.push_back(s(std::array<double, 2>{{double(i), double(j)}}));
            return;
        }
        default: {  // any number of lines: cases 9, 10, ... have 2, 3, ...
            const size_t n = c == 43 ? 40 : c == 44 ? 99 : c == 45 ? 300 : size_t(c - 7);
            InterpolationFunction<double, 2, 1> f(
                {{false, c % 3 == 0}}, mesh<2>({{n, 3}}, size_t(c)), R(0, 1), R(0, 1));
            look(f, {{n, 3}}, o);
            return;
        }
    }
}
const int NCASE = 46;
}  // namespace CASES_NS
#endif
