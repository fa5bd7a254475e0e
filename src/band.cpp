// C11: band matrices and LU solvers against dense linear algebra, every shape.
#include <complex>
#include <deque>
#include <sstream>
#include <BandLU.hpp>
#include "h.hpp"
using namespace h;
typedef std::vector<std::vector<real>> Dense;

static std::vector<real> dmul(const Dense& A, const std::vector<real>& x) {
    std::vector<real> y(A.size(), 0);
    for (size_t i = 0; i < A.size(); ++i)
        for (size_t j = 0; j < A.size(); ++j) y[i] += A[i][j] * x[j];
    return y;
}
static bool dsolve(Dense A, std::vector<real> b, std::vector<real>& x) {
    size_t n = A.size();
    real unit = 0;
    for (auto& r : A)
        for (real v : r) unit = std::fabs(v) > unit ? std::fabs(v) : unit;
    for (size_t c = 0; c < n; ++c) {
        size_t p = c;
        for (size_t r = c; r < n; ++r)
            if (std::fabs(A[r][c]) > std::fabs(A[p][c])) p = r;
        if (std::fabs(A[p][c]) < 1e-12L * unit) return false;
        std::swap(A[p], A[c]);
        std::swap(b[p], b[c]);
        for (size_t r = c + 1; r < n; ++r) {
            real f = A[r][c] / A[c][c];
            for (size_t k = c; k < n; ++k) A[r][k] -= f * A[c][k];
            b[r] -= f * b[c];
        }
    }
    x.assign(n, 0);
    for (size_t c = n; c-- > 0;) {
        real s = b[c];
        for (size_t k = c + 1; k < n; ++k) s -= A[c][k] * x[k];
        x[c] = s / A[c][c];
    }
    return true;
}

template <typename Mat>
struct Kind {
    static const bool ext = false;
};
template <typename T, typename A>
struct Kind<intp::ExtendedBandMatrix<T, A>> {
    static const bool ext = true;
};

static bool in_main(size_t n, size_t p, size_t q, size_t i, size_t j) {
    (void)n;
    return i <= j + p && j <= i + q;
}
// stored entries: the bands and, for extended matrices, the corner entries
static bool stored(bool ext, size_t n, size_t p, size_t q, size_t i, size_t j) {
    if (in_main(n, p, q, i, j)) return true;
    if (!ext) return false;
    return j > i + q ? j + p >= n : i + q >= n;
}

template <typename V, typename T>
static bool cmp(const char* what, const V& got, const std::vector<real>& want,
                real tol, T) {
    real big = 0;
    for (real w : want)
        if (std::fabs(w) > big) big = std::fabs(w);
    for (size_t i = 0; i < want.size(); ++i) {
        real re = std::fabs(real(std::real(got[typename std::conditional<
                      std::is_pointer<V>::value, size_t, size_t>::type(i)])) -
                            want[i]);
        if (!(re <= tol * big)) {
            fail("%s: component %zu is %.17Lg, dense %.17Lg", what, i,
                 real(std::real(got[i])), want[i]);
            return false;
        }
    }
    return true;
}

template <typename Mat>
static void fill(Mat& A, const Dense& D, size_t p, size_t q) {
    size_t n = D.size();
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (stored(Kind<Mat>::ext, n, p, q, i, j))
                A(i, j) = typename Mat::val_type(D[i][j]);
}

static void side_access(intp::BandMatrix<double>&, const Dense&, size_t,
                        size_t) {}
static void side_access(intp::ExtendedBandMatrix<double>& A, const Dense& D,
                        size_t p, size_t q) {
    size_t n = D.size();
    const intp::ExtendedBandMatrix<double>& C = A;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            if (!stored(true, n, p, q, i, j)) continue;
            bool m = in_main(n, p, q, i, j);
            double v = m ? C.main_bands_val(i, j) : C.side_bands_val(i, j);
            double u = m ? A.main_bands_val(i, j) : A.side_bands_val(i, j);
            if (real(v) != D[i][j] || real(u) != D[i][j])
                fail("%s_bands_val(%zu,%zu) gives %g/%g, stored %g",
                     m ? "main" : "side", i, j, v, u, double(D[i][j]));
            double* ptr = m ? &A.main_bands_val(i, j) : &A.side_bands_val(i, j);
            if (ptr != &A(i, j))
                fail("two access paths to (%zu,%zu) differ", i, j);
        }
}

template <typename Mat>
static void elements(size_t n, size_t p, size_t q) {
    // all entries distinct: each has its own place
    typedef typename Mat::val_type T;
    Mat A(n, p, q);
    const Mat& C = A;
    setcase("%s n=%zu p=%zu q=%zu elements", Kind<Mat>::ext ? "ext" : "band", n,
            p, q);
    if (A.dim() != n || A.lower_band_width() != p || A.upper_band_width() != q)
        fail("reported shape %zu %zu %zu", A.dim(), A.lower_band_width(),
             A.upper_band_width());
    Dense D(n, std::vector<real>(n, 0));
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (stored(Kind<Mat>::ext, n, p, q, i, j)) {
                if (C(i, j) != T{}) fail("fresh matrix not zero at %zu,%zu", i, j);
                D[i][j] = real(1 + i * n + j);
                A(i, j) = T(D[i][j]);
                ++st().transitions;
            }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (stored(Kind<Mat>::ext, n, p, q, i, j) &&
                (real(C(i, j)) != D[i][j] || real(A(i, j)) != D[i][j]))
                fail("entry %zu,%zu reads %g", i, j, double(C(i, j)));
    side_access(A, D, p, q);
    // copies are independent
    Mat B(A), E;
    E = A;
    Mat G(std::move(B));
    for (size_t i = 0; i < n; ++i) A(i, i) = T(-1);
    for (size_t i = 0; i < n; ++i)
        if (real(G(i, i)) != D[i][i] || real(E(i, i)) != D[i][i])
            fail("copy changed with its source");
    // the printed form names each entry of the main bands once
    std::ostringstream os;
    os << static_cast<const intp::BandMatrix<T>&>(E);
    std::ostringstream want;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (in_main(n, p, q, i, j))
                want << "{" << i << ", " << j << "}->" << double(D[i][j]) << '\n';
    if (os.str() != want.str()) fail("printed form differs");
    ++st().states;
}

template <typename Mat>
static void product_and_solve(const Dense& D, size_t p, size_t q, bool all_b) {
    typedef typename Mat::val_type T;
    typedef intp::BandLU<Mat> LU;
    size_t n = D.size();
    const real TOL = sizeof(T) == 4 ? 2e-4L : 1e-10L;
    Mat A(n, p, q);
    fill(A, D, p, q);
    ++st().states;
    LU lu(A), lu2;
    {
        Mat tmp(A);
        lu2.compute(std::move(tmp));
    }
    // from a matrix that stays in use
    LU lu5, lu6;
    lu5.compute(A);
    lu6.compute(static_cast<const Mat&>(A));
    const LU lu3(lu);
    LU lu4(lu2);
    lu4 = lu3;
    if (A.dim() != n) {
        fail("matrix changed by factorising it");
        return;
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (stored(Kind<Mat>::ext, n, p, q, i, j) &&
                T(D[i][j]) != static_cast<const Mat&>(A)(i, j)) {
                fail("matrix changed by factorising a copy");
                return;
            }
    for (size_t b = all_b ? 0 : n; b <= n; ++b) {
        std::vector<T> v(n, T(0));
        for (size_t i = 0; i < n; ++i)
            v[i] = b == n ? T(ref::generic(i + 17)) : T(i == b);
        std::vector<real> rv(v.begin(), v.end()), x;
        st().transitions += 2;
        if (!cmp("product", A * v, dmul(D, rv), TOL, 0)) return;
        if (!dsolve(D, rv, x)) {
            fail("harness: singular test matrix");
            return;
        }
        const std::vector<T> cv(v);
        if (!cmp("solve", lu.solve(cv), x, TOL, 0)) return;
        if (!cmp("solve (computed solver)", lu2.solve(v), x, TOL, 0)) return;
        if (!cmp("solve (matrix by reference)", lu5.solve(cv), x, TOL, 0)) return;
        if (!cmp("solve (const matrix)", lu6.solve(v), x, TOL, 0)) return;
        if (v != cv) {
            fail("solve changed its argument");
            return;
        }
        if (b != n) continue;
        // containers and iterators
        std::vector<T> w(cv);
        lu3.solve_in_place(w);
        if (!cmp("in place", w, x, TOL, 0)) return;
        w = cv;
        lu4.solve_in_place(w.data());
        if (!cmp("in place pointer", w, x, TOL, 0)) return;
        w = cv;
        T* ptr = w.data();
        lu4.solve_in_place(ptr);
        if (!cmp("in place pointer lvalue", w, x, TOL, 0)) return;
        w = cv;
        lu4.solve_in_place(w.begin());
        if (!cmp("in place iterator", w, x, TOL, 0)) return;
        w = cv;
        {
            auto it = w.begin();
            lu.solve(it);
            if (!cmp("solve(iterator)", w, x, TOL, 0)) return;
        }
        std::deque<T> dq(cv.begin(), cv.end());
        if (!cmp("deque", lu.solve(dq), x, TOL, 0)) return;
        lu.solve_in_place(dq.begin());
        if (!cmp("deque iterator", dq, x, TOL, 0)) return;
        if (!cmp("rvalue", lu.solve(std::vector<T>(cv)), x, TOL, 0)) return;
        // a strided line of a mesh
        intp::Mesh<T, 2> m(n, size_t(3));
        for (size_t i = 0; i < n; ++i) {
            m(i, 0) = T(11);
            m(i, 1) = cv[i];
            m(i, 2) = T(13);
        }
        {
            auto it = m.begin(0, std::array<size_t, 2>{{0, 1}});
            lu.solve(it);
        }
        for (size_t i = 0; i < n; ++i) {
            w[i] = m(i, 1);
            if (m(i, 0) != T(11) || m(i, 2) != T(13))
                fail("solving a line touched its neighbour");
        }
        if (!cmp("mesh line", w, x, TOL, 0)) return;
        real big = 0;
        for (real t : x) big = std::fabs(t) > big ? std::fabs(t) : big;
        // complex right hand side
        std::vector<std::complex<T>> cx(n);
        for (size_t i = 0; i < n; ++i)
            cx[i] = std::complex<T>(cv[i], T(2) * cv[i]);
        lu.solve_in_place(cx);
        for (size_t i = 0; i < n; ++i)
            if (!(std::fabs(real(cx[i].imag()) - 2 * x[i]) <= 4 * TOL * big)) {
                fail("imaginary part of complex solution wrong");
                return;
            }
        if (!cmp("complex", cx, x, TOL, 0)) return;
        st().transitions += 9;
        ++st().traces;
    }
}

template <typename Mat>
static void shape(size_t n, size_t p, size_t q) {
    if (!mine()) return;
    const bool ext = Kind<Mat>::ext;
    elements<Mat>(n, p, q);
    std::vector<std::pair<size_t, size_t>> off;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (i != j && stored(ext, n, p, q, i, j))
                off.push_back(std::make_pair(i, j));
    Dense Z(n, std::vector<real>(n, 0));
    for (size_t i = 0; i < n; ++i) Z[i][i] = 2 + real(i) / 4;
    // full generic entries
    for (size_t salt = 0; salt < 4; ++salt) {
        Dense D = Z;
        for (auto& e : off)
            D[e.first][e.second] =
                real(double(ref::generic(salt * 977 + e.first * 31 + e.second)));
        for (size_t i = 0; i < n; ++i)
            D[i][i] = (salt % 2 ? -1 : 1) * (real(n) + real(i) / 8);
        setcase("%s n=%zu p=%zu q=%zu generic %zu", ext ? "ext" : "band", n, p,
                q, salt);
        sample();
        product_and_solve<Mat>(D, p, q, true);
        // the same in another unit, and with rows in different units
        static const real unit[4] = {1e-21L, 1e-140L, 1e100L, 3e18L};
        Dense E = D;
        for (auto& r : E)
            for (real& v : r) v = real(double(v * unit[salt]));
        setcase("%s n=%zu p=%zu q=%zu generic %zu in units of %Lg",
                ext ? "ext" : "band", n, p, q, salt, unit[salt]);
        product_and_solve<Mat>(E, p, q, n < 5);
    }
    // each pair of off-diagonal entries alone: which entry influences which
    size_t lim = st().thorough ? 9 : 6;
    if (n <= lim)
        for (size_t a = 0; a < off.size(); ++a)
            for (size_t b = a; b < off.size(); ++b) {
                if (!st().thorough && n == 6 && (a + b) % 3) continue;
                Dense D = Z;
                D[off[a].first][off[a].second] = 0.75;
                D[off[b].first][off[b].second] = -0.5;
                setcase("%s n=%zu p=%zu q=%zu entries (%zu,%zu) (%zu,%zu)",
                        ext ? "ext" : "band", n, p, q, off[a].first,
                        off[a].second, off[b].first, off[b].second);
                product_and_solve<Mat>(D, p, q, false);
            }
}

// long bands: a known solution, products summed over the bands only
template <typename Mat>
static void long_band(size_t n, size_t p, size_t q) {
    if (!mine()) return;
    typedef typename Mat::val_type T;
    const bool ext = Kind<Mat>::ext;
    setcase("%s n=%zu p=%zu q=%zu", ext ? "ext" : "band", n, p, q);
    ++st().states;
    sample();
    std::vector<std::vector<std::pair<size_t, T>>> row(n);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < n; ++j) {
            // columns near the diagonal, at the left and at the right
            if (j > p + q + 2 && j + p + q + 2 < i) j = i - p - q - 2;
            if (j > i + p + q + 2 && j + p + q + 2 < n) j = n - p - q - 2;
            if (stored(ext, n, p, q, i, j))
                row[i].push_back(std::make_pair(
                    j, i == j ? T(real(2 * (p + q) + 3) + real(i % 11) / 8)
                              : T(ref::generic(i * 31 + j * 7))));
        }
    }
    Mat A(n, p, q);
    for (size_t i = 0; i < n; ++i)
        for (auto& e : row[i]) A(i, e.first) = e.second;
    const Mat& C = A;
    for (size_t i = 0; i < n; ++i)
        for (auto& e : row[i])
            if (C(i, e.first) != e.second) {
                fail("entry (%zu, %zu)", i, e.first);
                return;
            }
    intp::BandLU<Mat> lu(A);
    for (size_t s = 0; s < 3; ++s) {
        std::vector<T> x(n), b(n);
        for (size_t i = 0; i < n; ++i)
            x[i] = s == 0 ? T(ref::generic(i + 5)) : T(i % 257 == s * 40);
        std::vector<real> rb(n, 0), rx(x.begin(), x.end());
        for (size_t i = 0; i < n; ++i) {
            for (auto& e : row[i]) rb[i] += real(e.second) * real(x[e.first]);
            b[i] = T(rb[i]);
        }
        st().transitions += 4;
        if (!cmp("product", A * x, rb, 1e-11L, 0)) return;
        if (!cmp("solve", lu.solve(b), rx, 1e-10L, 0)) return;
        std::vector<T> w(b);
        lu.solve_in_place(w.begin());
        if (!cmp("in place", w, rx, 1e-10L, 0)) return;
    }
    ++st().traces;
}

int main(int argc, char** argv) {
    init(argc, argv);
    size_t N = st().thorough ? 12 : 8;
    for (size_t n = 1; n <= N; ++n)
        for (size_t p = 0; p < n; ++p)
            for (size_t q = 0; q < n; ++q) {
                shape<intp::BandMatrix<double>>(n, p, q);
                shape<intp::ExtendedBandMatrix<double>>(n, p, q);
            }
    // large, thin bands
    static const size_t big[][3] = {{20, 2, 2}, {33, 1, 3}, {64, 3, 3},
                                    {50, 4, 1}, {100, 0, 2}, {65, 2, 0}};
    for (auto& b : big) {
        shape<intp::BandMatrix<double>>(b[0], b[1], b[2]);
        shape<intp::ExtendedBandMatrix<double>>(b[0], b[1], b[2]);
    }
    static const size_t wide[][2] = {{0, 0}, {1, 1}, {0, 3}, {3, 0}, {2, 1},
                                     {1, 4}, {3, 3}, {7, 7}};
    for (size_t n : {size_t(129), size_t(257), size_t(1031), size_t(4099),
                     size_t(66003)})
        for (auto& w : wide) {
            if (n > 5000 && w[0] + w[1] > 4) continue;
            long_band<intp::BandMatrix<double>>(n, w[0], w[1]);
            long_band<intp::ExtendedBandMatrix<double>>(n, w[0], w[1]);
        }
    // other element types
    for (size_t n = 2; n <= 6; ++n)
        for (size_t p = 0; p < n; ++p)
            for (size_t q = 0; q < n; ++q) {
                Dense D(n, std::vector<real>(n, 0));
                for (size_t i = 0; i < n; ++i)
                    for (size_t j = 0; j < n; ++j)
                        if (stored(false, n, p, q, i, j))
                            D[i][j] = i == j ? real(n)
                                             : real(float(ref::generic(i * 7 + j)));
                setcase("float n=%zu p=%zu q=%zu", n, p, q);
                product_and_solve<intp::BandMatrix<float>>(D, p, q, true);
                product_and_solve<intp::BandMatrix<long double>>(D, p, q, true);
            }
    // empty solver and default matrix
    {
        setcase("default objects");
        intp::BandMatrix<double> d;
        if (d.dim() != 0) fail("default matrix not empty");
        intp::BandLU<intp::BandMatrix<double>> lu;
        intp::BandLU<intp::ExtendedBandMatrix<double>> lu2;
        (void)lu;
        (void)lu2;
    }
    return done();
}
