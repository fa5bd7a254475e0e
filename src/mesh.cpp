// C12: meshes, their iterators and allocators; every shape within bounds.
#include <algorithm>
#include <complex>
#include <iterator>
#include <numeric>
#include "h.hpp"
using namespace h;

template <typename T>
using Aligned = intp::util::default_init_allocator<
    T, intp::AlignedAllocator<T, intp::Alignment::AVX>>;

template <size_t D>
std::array<size_t, D> idx_of(size_t flat, const std::array<size_t, D>& n) {
    std::array<size_t, D> r;
    for (size_t d = D; d-- > 0;) {
        r[d] = flat % n[d];
        flat /= n[d];
    }
    return r;
}
template <size_t D>
size_t flat_of(const std::array<size_t, D>& i, const std::array<size_t, D>& n) {
    size_t f = 0;
    for (size_t d = 0; d < D; ++d) f = f * n[d] + i[d];
    return f;
}
template <typename M>
typename M::val_type& at(M& m, const std::array<size_t, 1>& i) { return m(i[0]); }
template <typename M>
typename M::val_type& at(M& m, const std::array<size_t, 2>& i) { return m(i[0], int(i[1])); }
template <typename M>
typename M::val_type& at(M& m, const std::array<size_t, 3>& i) { return m(i[0], i[1], unsigned(i[2])); }
template <typename M>
typename M::val_type& at(M& m, const std::array<size_t, 4>& i) { return m(i[0], i[1], i[2], i[3]); }
template <typename M>
const typename M::val_type& cat(const M& m, const std::array<size_t, 1>& i) { return m(i[0]); }
template <typename M>
const typename M::val_type& cat(const M& m, const std::array<size_t, 2>& i) { return m(i[0], i[1]); }
template <typename M>
const typename M::val_type& cat(const M& m, const std::array<size_t, 3>& i) { return m(i[0], i[1], i[2]); }
template <typename M>
const typename M::val_type& cat(const M& m, const std::array<size_t, 4>& i) { return m(i[0], i[1], i[2], i[3]); }
template <typename M> M by_list(const std::array<size_t, 1>& n) { return M(n[0]); }
template <typename M> M by_list(const std::array<size_t, 2>& n) { return M(n[0], n[1]); }
template <typename M> M by_list(const std::array<size_t, 3>& n) { return M(n[0], n[1], n[2]); }
template <typename M> M by_list(const std::array<size_t, 4>& n) { return M(n[0], n[1], n[2], n[3]); }

// iterator semantics: `it(i)` is the iterator at position i of a line of n
template <typename It, typename Ref>
void random_access(It b, It e, size_t n, const std::vector<Ref*>& addr) {
    typedef std::ptrdiff_t dt;
    if (e - b != dt(n)) return fail("line length %td, expected %zu", e - b, n);
    for (size_t i = 0; i <= n; ++i) {
        It x = b + dt(i);
        It y = e - dt(n - i);
        It z = b;
        z += dt(i);
        It w = e;
        w -= dt(n - i);
        It s = b;
        for (size_t k = 0; k < i; ++k) ++s;
        It r = e;
        for (size_t k = n; k > i; --k) --r;
        It u = dt(i) + b;
        if (!(x == y && x == z && x == w && x == s && x == r && x == u) ||
            x != y || x != s)
            return fail("arithmetic paths to position %zu differ", i);
        if (i < n) {
            if (&*x != addr[i] || &b[dt(i)] != addr[i] ||
                &e[dt(i) - dt(n)] != addr[i] || x.operator->() != addr[i])
                return fail("position %zu refers to another element", i);
            It p = x;
            It old = p++;
            if (old != x || p != b + dt(i + 1))
                return fail("post-increment at %zu", i);
            It q = p--;
            if (q != b + dt(i + 1) || p != x)
                return fail("post-decrement at %zu", i);
            It o = x;
            if (&(++o) != &o || &(--o) != &o || o != x)
                return fail("pre-increment/decrement at %zu", i);
        }
        for (size_t j = 0; j <= n; ++j) {
            It y2 = b + dt(j);
            ++st().transitions;
            if ((x == y2) != (i == j) || (x != y2) != (i != j) ||
                (x < y2) != (i < j) || (x > y2) != (i > j) ||
                (x <= y2) != (i <= j) || (x >= y2) != (i >= j) ||
                (y2 - x) != dt(j) - dt(i))
                return fail("comparison of positions %zu and %zu", i, j);
        }
    }
}

template <typename T, size_t D, typename Al>
struct MeshCheck {
    typedef intp::Mesh<T, D, Al> M;
    static void run(const std::array<size_t, D>& n, const char* name) {
        std::string s = name;
        char bb[40];
        size_t tot = 1;
        for (size_t d = 0; d < D; ++d) {
            snprintf(bb, sizeof bb, " %zu", n[d]);
            s += bb;
            tot *= n[d];
        }
        setcase("mesh %s", s.c_str());
        ++st().states;
        sample();
        intp::MeshDimension<D> md(n);
        // --- MeshDimension
        if (md.size() != tot) fail("size %zu, expected %zu", md.size(), tot);
        size_t acc = 1;
        for (size_t d = 0; d <= D; ++d) {
            if (md.dim_acc_size(d) != acc) fail("dim_acc_size(%zu)", d);
            if (d < D) acc *= n[D - 1 - d];
        }
        std::array<size_t, D> back = md;
        if (back != n) fail("conversion to the size array");
        for (size_t f = 0; f < tot; ++f) {
            std::array<size_t, D> i = idx_of<D>(f, n);
            if (md.dimwise_indices(f) != i) fail("dimwise_indices(%zu)", f);
            if (md.indexing(i) != f || md.indexing_safe(i) != f)
                fail("indexing of element %zu", f);
            ++st().transitions;
        }
        M m(md), m2 = by_list<M>(n);
        const M& c = m;
        if (m.size() != tot || m2.size() != tot) fail("mesh size");
        for (size_t d = 0; d < D; ++d)
            if (m.dim_size(d) != n[d] || m.dimension().dim_size(d) != n[d])
                fail("dim_size(%zu)", d);
        for (auto it = c.begin(); it != c.end(); ++it)
            if (std::is_same<Al, std::allocator<T>>::value && !(*it == T{})) {
                fail("fresh mesh not value initialised");
                break;
            }
        // --- each element exactly once, by every path
        std::set<const T*> seen;
        for (size_t f = 0; f < tot; ++f) {
            std::array<size_t, D> i = idx_of<D>(f, n);
            T* p = &at(m, i);
            if (!seen.insert(p).second) fail("two index tuples share %zu", f);
            if (p != &m(i) || p != &c(i) || p != &cat(c, i) ||
                p != c.data() + f || p != &*(c.begin() + std::ptrdiff_t(f)))
                fail("access paths to element %zu differ", f);
            at(m, i) = T(double(f + 1));
            ++st().transitions;
        }
        size_t f = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++f) {
            if (!(*it == T(double(f + 1)))) fail("flat order at %zu", f);
            if (c.iter_indices(it) != idx_of<D>(f, n))
                fail("iter_indices at %zu", f);
        }
        if (f != tot) fail("flat iteration visited %zu of %zu", f, tot);
        // --- lines
        for (size_t d = 0; d < D; ++d)
            for (size_t g = 0; g < tot; ++g) {
                std::array<size_t, D> i = idx_of<D>(g, n);
                std::vector<T*> addr;
                std::vector<const T*> caddr;
                std::array<size_t, D> j = i;
                for (size_t k = 0; k < n[d]; ++k) {
                    j[d] = k;
                    addr.push_back(&m(j));
                    caddr.push_back(&m(j));
                }
                auto b = m.begin(d, i), e = m.end(d, i);
                auto cb = c.begin(d, i), ce = c.end(d, i);
                if (i[d] == 0) {
                    random_access<decltype(b), T>(b, e, n[d], addr);
                    random_access<decltype(cb), const T>(cb, ce, n[d], caddr);
                } else if (b != m.begin(d, idx_of<D>(flat_of<D>(i, n) -
                                                         i[d] * md.dim_acc_size(D - 1 - d), n)))
                    fail("begin depends on the index along its own dimension");
                size_t k = 0;
                for (auto it = b; it != e && k < n[d]; ++it, ++k) {
                    std::array<size_t, D> q = i;
                    q[d] = k;
                    if (&*it != addr[k] || c.iter_indices(it) != q)
                        fail("line %zu position %zu", d, k);
                    decltype(cb) conv = it;
                    if (c.iter_indices(conv) != q || conv != cb + std::ptrdiff_t(k))
                        fail("converted iterator");
                }
                if (k != n[d] || std::distance(b, e) != std::ptrdiff_t(n[d]) ||
                    std::distance(cb, ce) != std::ptrdiff_t(n[d]))
                    fail("line iteration along %zu visits %zu elements", d, k);
            }
        // --- algorithms on lines
        if (tot)
            for (size_t d = 0; d < D; ++d) {
                M r(m);
                std::array<size_t, D> z;
                z.fill(0);
                std::reverse(r.begin(d, z), r.end(d, z));
                for (size_t g = 0; g < tot; ++g) {
                    std::array<size_t, D> i = idx_of<D>(g, n), q = i;
                    bool on = true;
                    for (size_t k = 0; k < D; ++k)
                        if (k != d && i[k] != 0) on = false;
                    if (on) q[d] = n[d] - 1 - i[d];
                    if (!(r(i) == m(q))) fail("std::reverse along %zu", d);
                }
            }
        // --- copies, moves, allocators
        M copy(m), assigned(size_t(1));
        assigned = m;
        M src(m);
        M moved(std::move(src));
        M massigned(size_t(2)), src2(m), sw1(m), sw2(size_t(1));
        massigned = std::move(src2);
        src2 = massigned;  // a moved-from mesh can be assigned to
        M& self = src2;
        src2 = self;
        std::swap(sw1, sw2);
        typedef intp::Mesh<T, D> Ms;
        typedef intp::Mesh<T, D, Aligned<T>> Ma;
        const Ms ms(m);
        const Ma ma(m);
        const Ma ma2(ms);
        const Ms ms2(ma);
        if (tot) m(idx_of<D>(0, n)) = T(-5.);
        for (size_t g = 0; g < tot; ++g) {
            std::array<size_t, D> i = idx_of<D>(g, n);
            T want = T(double(g + 1));
            if (!(copy(i) == want && assigned(i) == want && moved(i) == want &&
                  massigned(i) == want && src2(i) == want && sw2(i) == want &&
                  ms(i) == want && ma(i) == want && ma2(i) == want &&
                  ms2(i) == want))
                fail("a copy differs from its source at %zu", g);
        }
        for (size_t d = 0; d < D; ++d)
            if (ms.dim_size(d) != n[d] || ma.dim_size(d) != n[d] ||
                ms2.dim_size(d) != n[d] || assigned.dim_size(d) != n[d] ||
                moved.dim_size(d) != n[d] || massigned.dim_size(d) != n[d] ||
                src2.dim_size(d) != n[d] || sw2.dim_size(d) != n[d] ||
                sw1.dim_size(d) != 1)
                fail("a copy has another shape");
        if (tot && reinterpret_cast<size_t>(ma.data()) % 32)
            fail("coefficient storage not aligned to 32 bytes");
        // --- resizing
        for (int way = 0; way < 3; ++way) {
            std::array<size_t, D> k = n;
            for (size_t d = 0; d < D; ++d)
                k[d] = way == 0 ? n[(d + D - 1) % D] : way == 1 ? n[d] + d + 1 : (n[d] + 1) / 2;
            M r(copy);
            r.resize(k);
            size_t t2 = 1;
            for (size_t d = 0; d < D; ++d) t2 *= k[d];
            if (r.size() != t2 || size_t(r.end() - r.begin()) != t2)
                fail("resized mesh has %zu elements", r.size());
            for (size_t d = 0; d < D; ++d)
                if (r.dim_size(d) != k[d]) fail("resized dim_size");
            for (size_t g = 0; g < t2; ++g) r(idx_of<D>(g, k)) = T(double(g) + 0.5);
            size_t g = 0;
            for (auto it = r.begin(); it != r.end(); ++it, ++g)
                if (!(*it == T(double(g) + 0.5)) || &at(r, idx_of<D>(g, k)) != &*it)
                    fail("resized mesh order at %zu", g);
        }
        ++st().traces;
    }
};

template <typename T, size_t D>
void shapes(size_t most, size_t from, const char* name) {
    std::array<size_t, D> n;
    n.fill(from);
    for (;;) {
        if (mine()) {
            MeshCheck<T, D, std::allocator<T>>::run(n, name);
            MeshCheck<T, D, Aligned<T>>::run(n, (std::string(name) + " aligned").c_str());
        }
        size_t d = 0;
        for (; d < D; ++d) {
            if (++n[d] <= most) break;
            n[d] = from;
        }
        if (d == D) break;
    }
}

template <intp::Alignment A, typename T>
void allocator(const char* name) {
    setcase("allocator %s", name);
    typedef intp::AlignedAllocator<T, A> Al;
    Al al;
    std::vector<std::pair<T*, size_t>> live;
    for (size_t n = 0; n < 140; ++n) {
        T* p = al.allocate(n);
        ++st().transitions;
        if (reinterpret_cast<size_t>(p) % size_t(A))
            fail("allocate(%zu) at %p", n, static_cast<void*>(p));
        for (size_t i = 0; i < n; ++i) new (p + i) T(double(n + i));
        live.push_back(std::make_pair(p, n));
    }
    for (auto& l : live)
        for (size_t i = 0; i < l.second; ++i)
            if (!(l.first[i] == T(double(l.second + i)))) fail("blocks overlap");
    for (auto& l : live) al.deallocate(l.first, l.second);
    std::vector<T, Al> v;
    for (size_t i = 0; i < 300; ++i) {
        v.push_back(T(double(i)));
        if (reinterpret_cast<size_t>(v.data()) % size_t(A)) fail("vector not aligned");
    }
    std::vector<T, Al> w(v), x(std::move(v)), y;
    y = w;
    w.assign(3, T(1.));
    for (size_t i = 0; i < 300; ++i)
        if (!(x[i] == T(double(i)) && y[i] == T(double(i)))) fail("vector contents");
    typename Al::template rebind<char>::other ch(al);
    char* q = ch.allocate(3);
    if (reinterpret_cast<size_t>(q) % size_t(A)) fail("rebound allocator");
    ch.deallocate(q, 3);
    if (!(al == Al()) || al != Al()) fail("allocator comparison");
    ++st().states;
}

// coefficients of built functions
template <typename T, size_t D, size_t O>
struct Coef {
    void operator()(const Grid<D>& g, size_t idx) const {
        setcase("%s coefficients", g.str(O).c_str());
        std::vector<T> v;
        for (double x : generic_data(g.total(), idx)) v.push_back(T(x));
        intp::InterpolationFunction<T, D, O> f =
            make_fun<T, D, O>(g, to_mesh<T, D>(g, v));
        intp::InterpolationFunction<T, D, O> c(f), m(std::move(f)), a;
        a = c;
        const T* p[] = {c.spline().control_points().data(),
                        m.spline().control_points().data(),
                        a.spline().control_points().data()};
        for (const T* q : p)
            if (reinterpret_cast<size_t>(q) % 32)
                fail("coefficients at %p", static_cast<const void*>(q));
        ++st().states;
        st().transitions += 3;
    }
};

// meshes of many elements, and shapes beyond any storage
template <typename T, size_t D>
void big(const std::array<size_t, D>& n) {
    if (!mine()) return;
    std::string s;
    size_t tot = 1;
    for (size_t d = 0; d < D; ++d) {
        char b[40];
        snprintf(b, sizeof b, " %zu", n[d]);
        s += b;
        tot *= n[d];
    }
    setcase("big mesh%s", s.c_str());
    ++st().states;
    sample();
    typedef intp::Mesh<T, D, Aligned<T>> M;
    intp::MeshDimension<D> md(n);
    M m(md);
    const M& c = m;
    if (m.size() != tot || md.size() != tot) fail("size");
    for (size_t f = 0; f < tot; ++f) {
        std::array<size_t, D> i = idx_of<D>(f, n);
        T* p = &m(i);
        if (p != c.data() + f || p != &c(i) || md.indexing(i) != f ||
            md.indexing_safe(i) != f || md.dimwise_indices(f) != i ||
            c.iter_indices(c.begin() + std::ptrdiff_t(f)) != i) {
            fail("element %zu", f);
            break;
        }
        *p = T(double(f));
        ++st().transitions;
    }
    for (size_t d = 0; d < D; ++d)
        for (size_t g = 0; g < tot; g += 1 + tot / 97) {
            std::array<size_t, D> i = idx_of<D>(g, n);
            auto b = m.begin(d, i), e = m.end(d, i);
            auto cb = c.begin(d, i), ce = c.end(d, i);
            std::ptrdiff_t len = std::ptrdiff_t(n[d]);
            if (e - b != len || ce - cb != len || b + len != e || cb + len != ce ||
                e - len != b || (len && !(b < e)) || b > e) {
                fail("line along %zu at %zu", d, g);
                break;
            }
            std::ptrdiff_t k = 0;
            for (auto it = b; it != e && k <= len; ++it, ++k) {
                i[d] = size_t(k);
                if (!(*it == T(double(flat_of<D>(i, n)))) || &b[k] != &*it ||
                    &cb[k] != &*it || it - b != k ||
                    c.iter_indices(it) != i || c.iter_indices(cb + k) != i) {
                    fail("line along %zu at %zu, position %td", d, g, k);
                    break;
                }
                ++st().transitions;
            }
            if (k != len) fail("line along %zu has %td elements", d, k);
        }
    M copy(m);
    intp::Mesh<T, D> conv(m);
    if (!std::equal(m.begin(), m.end(), copy.begin()) ||
        !std::equal(m.begin(), m.end(), conv.begin()))
        fail("copy");
    ++st().traces;
}
template <size_t D>
void huge(const std::array<size_t, D>& n) {
    if (!mine()) return;
    setcase("shape %zu.. of %zu dimensions", n[0], D);
    ++st().states;
    intp::MeshDimension<D> md(n);
    size_t tot = 1;
    for (size_t d = 0; d < D; ++d) tot *= n[d];
    if (md.size() != tot) fail("size %zu", md.size());
    size_t acc = 1;
    for (size_t d = 0; d < D; ++d) {
        if (md.dim_acc_size(d) != acc) fail("dim_acc_size(%zu)", d);
        acc *= n[D - 1 - d];
    }
    // each index at its first, second, middle and last value
    std::array<size_t, D> q;
    q.fill(0);
    for (;;) {
        std::array<size_t, D> i;
        for (size_t d = 0; d < D; ++d)
            i[d] = q[d] == 0 ? 0 : q[d] == 1 ? n[d] / 2 : n[d] - 1;
        size_t f = flat_of<D>(i, n);
        if (md.indexing(i) != f || md.indexing_safe(i) != f ||
            md.dimwise_indices(f) != i)
            fail("indexing of element %zu", f);
        ++st().transitions;
        size_t d = 0;
        for (; d < D; ++d) {
            if (++q[d] < 3) break;
            q[d] = 0;
        }
        if (d == D) break;
    }
    ++st().traces;
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool th = st().thorough;
    shapes<double, 1>(th ? 40 : 17, 0, "double");
    shapes<double, 2>(th ? 9 : 5, 0, "double");
    shapes<double, 3>(th ? 6 : 4, 0, "double");
    shapes<double, 4>(th ? 4 : 3, 1, "double");
    shapes<float, 2>(5, 1, "float");
    shapes<std::complex<double>, 2>(4, 1, "complex");
    shapes<std::complex<double>, 3>(3, 1, "complex");
    big<double, 1>({{70003}});
    big<double, 2>({{300, 301}});
    big<float, 2>({{2, 33000}});
    big<double, 2>({{33000, 2}});
    big<std::complex<double>, 2>({{1, 66000}});
    big<double, 3>({{41, 42, 43}});
    big<double, 3>({{3, 260, 90}});
    big<double, 4>({{17, 16, 15, 17}});
    big<double, 5>({{7, 9, 8, 11, 13}});
    big<double, 6>({{2, 3, 1, 4, 2, 5}});
    big<double, 6>({{7, 6, 7, 6, 7, 6}});
    if (th) big<float, 3>({{257, 256, 300}});
    huge<1>({{size_t(1) << 40}});
    huge<2>({{size_t(1) << 33, 3}});
    huge<2>({{3, size_t(1) << 33}});
    huge<2>({{70000, 70001}});
    huge<3>({{100003, 100019, 100043}});
    huge<4>({{40000, 30000, 50000, 60000}});
    huge<5>({{6000, 5000, 4000, 3000, 7000}});
    // range construction, 1D
    for (size_t n = 0; n < 20; ++n) {
        setcase("mesh from range of %zu", n);
        std::vector<double> v = generic_data(n, n);
        std::list<float> l(v.begin(), v.end());
        intp::Mesh<double, 1> a(std::make_pair(v.begin(), v.end()));
        intp::Mesh<double, 1> b(std::make_pair(l.begin(), l.end()));
        intp::Mesh<double, 1, Aligned<double>> c(std::make_pair(v.data(), v.data() + n));
        if (a.size() != n || b.size() != n || c.size() != n || a.dim_size(0) != n)
            fail("size");
        size_t i = 0;
        for (float x : l) {
            if (a(i) != v[i] || b(i) != double(x) || c(i) != v[i]) fail("element %zu", i);
            ++i;
        }
        if (n && reinterpret_cast<size_t>(c.data()) % 32) fail("not aligned");
        ++st().states;
    }
    allocator<intp::Alignment::NORMAL, double>("NORMAL");
    allocator<intp::Alignment::SSE, double>("SSE");
    allocator<intp::Alignment::AVX, double>("AVX");
    allocator<intp::Alignment::AVX512, double>("AVX512");
    allocator<intp::Alignment::AVX, float>("AVX float");
    allocator<intp::Alignment::AVX, std::complex<double>>("AVX complex");
    std::vector<std::array<size_t, 1>> e1 = {{{0}}, {{1}}, {{2}}, {{3}}, {{4}}, {{7}}, {{20}}};
    std::vector<std::array<size_t, 2>> e2 = {{{0, 1}}, {{3, 0}}, {{2, 5}}};
    std::vector<std::array<size_t, 3>> e3 = {{{0, 1, 2}}};
    for_grids<1>(3, e1, Coef<double, 1, 3>());
    for_grids<1>(2, e1, Coef<float, 1, 2>());
    for_grids<2>(3, e2, Coef<double, 2, 3>());
    for_grids<2>(2, e2, Coef<std::complex<double>, 2, 2>());
    for_grids<3>(2, e3, Coef<double, 3, 2>());
    return done();
}
