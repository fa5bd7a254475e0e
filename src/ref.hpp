// Reference model: spline interpolation written from its mathematical
// definition, in long double, sharing no code with the library under test.
//
// * knots: aperiodic - clamped, interior knots are moving averages of `order`
//   consecutive sites (order 0: midpoints);  periodic - the sites themselves
//   (odd order) or the midpoints of neighbouring sites (even order).
// * every basis function is kept as one explicit polynomial per knot segment
//   (monomial coefficients around the left end of the segment), obtained from
//   the recursion on polynomials; evaluation/derivatives are plain Horner.
// * cardinal functions come from a dense solve with full row pivoting.
// * n-D is the tensor product of the 1-D cardinal functions.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <vector>

namespace ref {
using real = long double;
using std::size_t;

struct Axis {
    bool periodic = false;
    bool uniform = true;
    std::vector<double> x;  // data sites; for a periodic axis x.back() is the
                            // end of the period (image of x[0])
    double a() const { return x.front(); }
    double b() const { return x.back(); }
    size_t sites() const { return periodic ? x.size() - 1 : x.size(); }
    double period() const { return b() - a(); }
};

typedef std::vector<real> Poly;

inline Poly mul_lin(const Poly& p, real c0, real c1) {  // p * (c0 + c1 t)
    Poly r(p.size() + 1, 0);
    for (size_t i = 0; i < p.size(); ++i) {
        r[i] += p[i] * c0;
        r[i + 1] += p[i] * c1;
    }
    return r;
}
inline real horner(const Poly& p, real t, size_t m) {
    real s = 0;
    for (size_t i = p.size(); i-- > m;) {
        real f = 1;
        for (size_t k = 0; k < m; ++k) f *= real(i - k);
        s = s * t + p[i] * f;
    }
    return s;
}

// Basis functions of degree k on a (non decreasing) knot vector, restricted to
// segment s (t[s] < t[s+1]): returns polynomials of B_{s-k..s}, around t[s].
inline std::vector<Poly> segment_basis(const std::vector<real>& t,
                                       size_t k,
                                       size_t s) {
    std::vector<Poly> b(1, Poly(1, real(1)));
    for (size_t d = 1; d <= k; ++d) {
        std::vector<Poly> nb(d + 1, Poly(d + 1, real(0)));
        // nb[j] is B_{s-d+j, d}; b[j] is B_{s-d+1+j, d-1}
        for (size_t j = 0; j <= d; ++j) {
            size_t i = s - d + j;
            if (j > 0) {
                real den = t[i + d] - t[i];
                Poly q = mul_lin(b[j - 1], (t[s] - t[i]) / den, 1 / den);
                for (size_t c = 0; c <= d; ++c) nb[j][c] += q[c];
            }
            if (j < d) {
                real den = t[i + d + 1] - t[i + 1];
                Poly q = mul_lin(b[j], (t[i + d + 1] - t[s]) / den, -1 / den);
                for (size_t c = 0; c <= d; ++c) nb[j][c] += q[c];
            }
        }
        b.swap(nb);
    }
    return b;
}

// Dense solve A X = I with row pivoting. Returns false if (nearly) singular.
inline bool invert(std::vector<std::vector<real>> A,
                   std::vector<std::vector<real>>& X) {
    size_t n = A.size();
    X.assign(n, std::vector<real>(n, 0));
    for (size_t i = 0; i < n; ++i) X[i][i] = 1;
    for (size_t c = 0; c < n; ++c) {
        size_t p = c;
        for (size_t r = c + 1; r < n; ++r)
            if (std::fabs(A[r][c]) > std::fabs(A[p][c])) p = r;
        if (std::fabs(A[p][c]) < 1e-12L) return false;
        A[p].swap(A[c]);
        X[p].swap(X[c]);
        real inv = 1 / A[c][c];
        for (size_t j = 0; j < n; ++j) {
            A[c][j] *= inv;
            X[c][j] *= inv;
        }
        for (size_t r = 0; r < n; ++r)
            if (r != c && A[r][c] != 0) {
                real f = A[r][c];
                for (size_t j = 0; j < n; ++j) {
                    A[r][j] -= f * A[c][j];
                    X[r][j] -= f * X[c][j];
                }
            }
    }
    return true;
}

class Spline1D {
   public:
    Axis ax;
    size_t k;                 // order
    size_t n;                 // number of sites / cardinal functions
    std::vector<real> t;      // full knot vector
    size_t seg0, seg1;        // segments [seg0, seg1) cover the domain
    bool ok = true;
    real cond = 1;            // max row sum of the inverse (growth factor)
    std::vector<std::vector<Poly>> card;  // [segment-seg0][site] polynomial

    Spline1D() : k(0), n(0), seg0(0), seg1(0) {}
    Spline1D(const Axis& axis, size_t order) : ax(axis), k(order) {
        n = ax.sites();
        std::vector<std::vector<real>> A(n, std::vector<real>(n, 0));
        size_t nb;  // number of basis functions before periodic folding
        if (!ax.periodic) {
            for (size_t i = 0; i <= k; ++i) t.push_back(ax.x[0]);
            if (k == 0) {
                for (size_t j = 1; j < n; ++j)
                    t.push_back((real(ax.x[j - 1]) + real(ax.x[j])) / 2);
            } else {
                for (size_t j = k + 1; j < n; ++j) {
                    real s = 0;
                    for (size_t m = j - k; m < j; ++m) s += ax.x[m];
                    t.push_back(s / real(k));
                }
            }
            for (size_t i = 0; i <= k; ++i) t.push_back(ax.x[n - 1]);
            nb = n;
            seg0 = k;
            seg1 = n;
        } else {
            real P = real(ax.x[n]) - real(ax.x[0]);
            // base[j], j = 0..n-1: knots of one period
            std::vector<real> base(n);
            for (size_t j = 0; j < n; ++j)
                base[j] = k % 2 ? real(ax.x[j])
                                : j == 0 ? (real(ax.x[n - 1]) - P +
                                            real(ax.x[0])) / 2
                                         : (real(ax.x[j - 1]) +
                                            real(ax.x[j])) / 2;
            for (long j = -long(k); j <= long(n + k); ++j) {
                long w = j >= 0 ? j / long(n)
                                : -((-j + long(n) - 1) / long(n));
                long r = j - w * long(n);
                t.push_back(base[size_t(r)] + real(w) * P);
            }
            nb = n + k;
            seg0 = k;
            seg1 = k + n;
        }
        (void)nb;
        // segment-wise basis polynomials
        std::vector<std::vector<Poly>> bas(seg1 - seg0);
        for (size_t s = seg0; s < seg1; ++s) bas[s - seg0] = segment_basis(t, k, s);
        // collocation
        for (size_t i = 0; i < n; ++i) {
            size_t s = segment(real(ax.x[i]));
            for (size_t j = 0; j <= k; ++j)
                A[i][(s - k + j) % n] +=
                    horner(bas[s - seg0][j], real(ax.x[i]) - t[s], 0);
        }
        std::vector<std::vector<real>> C;
        ok = invert(A, C);  // C[basis][site]
        if (!ok) return;
        cond = 0;
        for (size_t r = 0; r < n; ++r) {
            real q = 0;
            for (size_t c = 0; c < n; ++c) q += std::fabs(C[r][c]);
            if (q > cond) cond = q;
        }
        card.resize(seg1 - seg0);
        for (size_t s = seg0; s < seg1; ++s) {
            card[s - seg0].assign(n, Poly(k + 1, 0));
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j <= k; ++j)
                    for (size_t c = 0; c <= k; ++c)
                        card[s - seg0][i][c] +=
                            C[(s - k + j) % n][i] * bas[s - seg0][j][c];
        }
    }

    real lo() const { return t[seg0]; }
    real hi() const { return t[seg1]; }

    // segment containing x (clamped to the domain: end pieces extrapolate)
    size_t segment(real x) const {
        size_t s = seg0;
        while (s + 1 < seg1 && !(x < t[s + 1])) ++s;
        return s;
    }
    real wrap(real x) const {
        if (!ax.periodic) return x;
        real P = hi() - lo();
        real y = x - P * std::floor((x - lo()) / P);
        return y;
    }

    // m-th derivative of all cardinal functions at x. Near a knot both
    // neighbouring pieces are returned (they agree up to the smoothness of the
    // spline); elsewhere exactly one vector.
    std::vector<std::vector<real>> weights(real x0, size_t m) const {
        std::vector<std::vector<real>> out;
        real x = wrap(x0);
        real tol = 1e-9L * (hi() - lo()) + 4e-16L * std::fabs(x0);
        auto push = [&](size_t s, real y) {
            std::vector<real> w(n);
            for (size_t i = 0; i < n; ++i)
                w[i] = horner(card[s - seg0][i], y - t[s], m);
            out.push_back(w);
        };
        size_t s = segment(x);
        push(s, x);
        if (m + 1 > k || k == 0) {  // only then a jump is possible
            if (std::fabs(x - t[s]) < tol) {
                if (s > seg0) push(s - 1, x);
                else if (ax.periodic) push(seg1 - 1, x + (hi() - lo()));
            }
            if (std::fabs(t[s + 1] - x) < tol) {
                if (s + 1 < seg1) push(s + 1, x);
                else if (ax.periodic) push(seg0, x - (hi() - lo()));
            }
        }
        return out;
    }
};

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
// deterministic "generic" value in [-1, 1], exactly representable
inline double generic(uint64_t i) {
    return double(int64_t(mix(i) >> 12) - (int64_t(1) << 51)) /
           double(int64_t(1) << 51);
}

// contract a row-major tensor with one weight vector per dimension;
// also the sum of absolute values (scale for the tolerance)
inline real contract(const std::vector<real>& data,
                     const std::vector<size_t>& dims,
                     const std::vector<const std::vector<real>*>& w,
                     real* scale) {
    std::vector<real> cur(data), as(data.size());
    for (size_t i = 0; i < cur.size(); ++i) as[i] = std::fabs(cur[i]);
    size_t total = cur.size();
    for (size_t d = dims.size(); d-- > 0;) {
        size_t nd = dims[d];
        size_t rest = total / nd;
        for (size_t r = 0; r < rest; ++r) {
            real s = 0, a = 0;
            for (size_t i = 0; i < nd; ++i) {
                s += cur[r * nd + i] * (*w[d])[i];
                a += as[r * nd + i] * std::fabs((*w[d])[i]);
            }
            cur[r] = s;
            as[r] = a;
        }
        total = rest;
    }
    if (scale) *scale = as[0];
    return cur[0];
}
}  // namespace ref
#endif
