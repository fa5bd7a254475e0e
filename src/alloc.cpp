// C19: every position of a failing allocation in every operation. malloc and
// friends are replaced: the k-th allocation of the calling thread fails, blocks
// are tracked (leaks, double frees) and poisoned when freed.
#include <malloc.h>
#include <sys/wait.h>
#include <atomic>
#include <cerrno>
#include <system_error>
#include "h.hpp"
using namespace h;

extern "C" {
void* __libc_malloc(size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}
namespace am {
struct Head {
    void* base;
    size_t size;
    size_t born;   // number of the operation it was allocated in
    size_t magic;
};
static const size_t LIVE = 0x5ca1ab1e0ddba11ull, DEAD = 0xdeadc0dedeadc0deull;
static std::atomic<size_t> op{0};         // current operation, 0: none
static std::atomic<long> live{0};         // blocks born in it, still alive
static std::atomic<size_t> bad{0};        // double or invalid frees
static thread_local long countdown = -1;  // -1: disarmed
static thread_local long served = 0;
static thread_local bool failed = false;

static void* get(size_t align, size_t n) {
    if (countdown >= 0) {
        ++served;
        if (countdown-- == 0) {
            failed = true;
            errno = ENOMEM;
            return 0;
        }
        if (countdown < 0) countdown = -1;
    }
    if (align < 64) align = 64;
    size_t pad = align;  // >= sizeof(Head), keeps the alignment
    void* b = __libc_memalign(align, n + pad);
    if (!b) return 0;
    char* p = static_cast<char*>(b) + pad;
    Head* hd = reinterpret_cast<Head*>(p) - 1;
    hd->base = b;
    hd->size = n;
    hd->born = op.load();
    hd->magic = LIVE ^ reinterpret_cast<size_t>(p);
    if (hd->born) live.fetch_add(1);
    memset(p, 0xa5, n);  // nobody may rely on fresh memory being zero
    return p;
}
static void put(void* p) {
    if (!p) return;
    Head* hd = static_cast<Head*>(p) - 1;
    if (hd->magic != (LIVE ^ reinterpret_cast<size_t>(p))) {
        if (op.load() || hd->magic == (DEAD ^ reinterpret_cast<size_t>(p)))
            bad.fetch_add(1);
        return;
    }
    hd->magic = DEAD ^ reinterpret_cast<size_t>(p);
    if (hd->born && hd->born == op.load()) live.fetch_sub(1);
    memset(p, 0xdb, hd->size);
    __libc_free(hd->base);
}
}  // namespace am
extern "C" {
void* malloc(size_t n) { return am::get(16, n); }
void free(void* p) { am::put(p); }
void* calloc(size_t a, size_t b) {
    void* p = am::get(16, a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void* realloc(void* p, size_t n) {
    void* q = am::get(16, n);
    if (q && p) {
        size_t o = (static_cast<am::Head*>(p) - 1)->size;
        memcpy(q, p, o < n ? o : n);
        am::put(p);
    }
    return q;
}
void* memalign(size_t a, size_t n) { return am::get(a, n); }
void* aligned_alloc(size_t a, size_t n) { return am::get(a, n); }
int posix_memalign(void** r, size_t a, size_t n) {
    void* p = am::get(a, n);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
}

#ifdef INTP_MULTITHREAD
static const bool MT = true;
#else
static const bool MT = false;
#endif
static bool first_use = false;

template <typename V>
static bool eq(const V& a, const V& b) {
    return a.size() == b.size() &&
           (a.empty() || !memcmp(&a[0], &b[0], a.size() * sizeof a[0]));
}

// Runs `op` with every single allocation failing in turn.
//   make():   fresh environment        (not measured)
//   act(env): the operation            (measured)
//   good(env): result correct after a complete operation
//   intact(env): everything else unchanged, operation repeatable
template <typename Make, typename Act, typename Good, typename Intact>
void every_failure(const char* name, Make make, Act act, Good good,
                   Intact intact) {
    static size_t opno = 0;
    std::string base = scase();
    for (long k = 0; k < 100000; ++k) {
        setcase("%s op=%s fail=%ld", base.c_str(), name, k);
        auto env = make();
        ++opno;
        am::live = 0;
        am::bad = 0;
        am::op = opno;
        am::failed = false;
        am::served = 0;
        int out = 0;
        bool fired;
        am::countdown = k;
        try {
            act(*env);
            am::countdown = -1;
        } catch (const std::bad_alloc&) {
            am::countdown = -1;
            out = 1;
        } catch (const std::system_error&) {
            am::countdown = -1;
            out = first_use && MT ? 1 : 2;
        } catch (...) {
            am::countdown = -1;
            out = 2;
        }
        fired = am::failed;
        ++st().transitions;
        if (out == 2) fail("another exception than bad_alloc");
        if (out == 1 && !fired) fail("bad_alloc although nothing failed");
        if (out == 0) {
            if (!good(*env)) fail("operation finished with a wrong result");
        } else if (!intact(*env)) {
            fail("something else changed after the failed allocation");
        }
        delete env;
        long left = am::live;
        am::op = 0;
        if (left && !MT) fail("%ld blocks leaked", left);
        if (am::bad) fail("a block was freed twice or never allocated");
        ++st().states;
        if (!fired) break;
        if (k % 16 == 0) sample();
    }
    ++st().traces;
    setcase("%s", base.c_str());
}

// iterator pairs exist in one dimension only
template <size_t O>
intp::InterpolationFunction<double, 1, O>* by_range(
    const intp::InterpolationFunctionTemplate<double, 1, O>& t,
    const intp::Mesh<double, 1>& m) {
    return new intp::InterpolationFunction<double, 1, O>(
        t.interpolate(std::make_pair(m.begin(), m.end())));
}
template <size_t D, size_t O>
intp::InterpolationFunction<double, D, O>* by_range(
    const intp::InterpolationFunctionTemplate<double, D, O>& t,
    const intp::Mesh<double, D>& m) {
    return new intp::InterpolationFunction<double, D, O>(t.interpolate(m));
}

template <size_t D, size_t O>
struct Fault {
    typedef intp::InterpolationFunction<double, D, O> F;
    typedef intp::InterpolationFunctionTemplate<double, D, O> T;
    typedef intp::Mesh<double, D> M;
    const Grid<D>& g;
    std::vector<double> d1, d2;
    M m1, m2;
    F* w1;  // wanted
    F* w2;
    std::vector<std::array<double, D>> pts;
    explicit Fault(const Grid<D>& gg, size_t idx)
        : g(gg), d1(generic_data(gg.total(), idx)),
          d2(generic_data(gg.total(), idx + 77)), m1(to_mesh<double, D>(gg, d1)),
          m2(to_mesh<double, D>(gg, d2)) {
        w1 = new F(make_fun<double, D, O>(g, m1));
        w2 = new F(make_fun<double, D, O>(g, m2));
        for (size_t i = 0; i < 4; ++i) {
            std::array<double, D> x;
            for (size_t d = 0; d < D; ++d)
                x[d] = g.ax[d].a() + (g.ax[d].b() - g.ax[d].a()) *
                                         (0.07 + 0.29 * double((i + d) % 4));
            pts.push_back(x);
        }
    }
    ~Fault() {
        delete w1;
        delete w2;
    }
    bool is(const F& f, const F* w) const {
        std::array<size_t, D> m;
        m.fill(O ? 1 : 0);
        for (const std::array<double, D>& x : pts) {
            double a[4] = {f(x), (*w)(x), f.derivative(x, m), w->derivative(x, m)};
            if (memcmp(a, a + 1, sizeof(double)) ||
                memcmp(a + 2, a + 3, sizeof(double)))
                return false;
        }
        for (size_t d = 0; d < D; ++d)
            if (f.range(d) != w->range(d) || f.periodicity(d) != w->periodicity(d))
                return false;
        return true;
    }
    static bool same_mesh(const M& a, const M& b) {
        if (a.size() != b.size()) return false;
        for (size_t d = 0; d < D; ++d)
            if (a.dim_size(d) != b.dim_size(d)) return false;
        return std::equal(a.begin(), a.end(), b.begin());
    }
    struct Env {
        M m;          // source data
        T t;          // template
        F a, b;       // existing functions of data 1 and 2
        F* r = 0;     // results
        T* rt = 0;
        M* rm = 0;
        double v = 0;
        Env(const M& m_, const T& t_, const F& a_, const F& b_)
            : m(m_), t(t_), a(a_), b(b_) {}
        ~Env() {
            delete r;
            delete rt;
            delete rm;
        }
    };
    void run() {
        T proto(make_tpl<double, D, O>(g));
        auto make = [&]() { return new Env(m1, proto, *w1, *w2); };
        // others unchanged; the template still produces right functions
        auto rest = [&](Env& e, bool a, bool b, bool t) {
            bool ok = same_mesh(e.m, m1);
            if (a) ok = ok && is(e.a, w1);
            if (b) ok = ok && is(e.b, w2);
            if (t) {
                F f = e.t.interpolate(m2);
                ok = ok && is(f, w2);
            }
            return ok;
        };
        auto all = [&](Env& e) { return rest(e, true, true, true); };
        auto res1 = [&](Env& e) { return e.r && is(*e.r, w1) && all(e); };

        every_failure("build template", make,
            [&](Env& e) { e.rt = new T(make_tpl<double, D, O>(g)); },
            [&](Env& e) {
                e.r = new F(e.rt->interpolate(m1));
                return res1(e);
            }, all);
        every_failure("build function", make,
            [&](Env& e) { e.r = new F(make_fun<double, D, O>(g, e.m)); }, res1, all);
        every_failure("interpolate", make,
            [&](Env& e) { e.r = new F(e.t.interpolate(e.m)); }, res1, all);
        every_failure("interpolate iterators", make,
            [&](Env& e) {
                e.r = by_range(e.t, e.m);
            }, res1, all);
        every_failure("interpolate consuming", make,
            [&](Env& e) {
                T c(e.t);
                e.r = new F(std::move(c).interpolate(e.m));
            }, res1, all);
        every_failure("fill used", make,
            [&](Env& e) { e.t.interpolate(e.b, e.m); },
            [&](Env& e) { return is(e.b, w1) && rest(e, true, false, true); },
            [&](Env& e) {
                // the target may hold anything but can be filled again
                bool ok = rest(e, true, false, true);
                e.t.interpolate(e.b, e.m);
                return ok && is(e.b, w1);
            });
        every_failure("fill fresh", make,
            [&](Env& e) {
                e.r = new F();
                e.t.interpolate(*e.r, e.m);
            }, res1,
            [&](Env& e) {
                bool ok = all(e);
                if (e.r) {
                    e.t.interpolate(*e.r, e.m);
                    ok = ok && is(*e.r, w1);
                }
                return ok;
            });
        every_failure("copy function", make,
            [&](Env& e) { e.r = new F(e.a); }, res1, all);
        every_failure("assign function", make,
            [&](Env& e) { e.b = e.a; },
            [&](Env& e) { return is(e.b, w1) && rest(e, true, false, true); },
            [&](Env& e) {
                bool ok = rest(e, true, false, true);
                e.b = e.a;
                return ok && is(e.b, w1);
            });
        every_failure("copy template", make,
            [&](Env& e) { e.rt = new T(e.t); },
            [&](Env& e) {
                e.r = new F(e.rt->interpolate(m1));
                return res1(e);
            }, all);
#if __cplusplus >= 201703L
        every_failure("assign template", make,
            [&](Env& e) {
                e.rt = new T(proto);
                *e.rt = e.t;
            },
            [&](Env& e) {
                e.r = new F(e.rt->interpolate(m1));
                return res1(e);
            },
            [&](Env& e) {
                bool ok = all(e);
                if (e.rt) {
                    *e.rt = e.t;
                    F f = e.rt->interpolate(m1);
                    ok = ok && is(f, w1);
                }
                return ok;
            });
#endif
        every_failure("copy mesh", make,
            [&](Env& e) { e.rm = new M(e.m); },
            [&](Env& e) { return same_mesh(*e.rm, m1) && all(e); }, all);
        every_failure("assign mesh", make,
            [&](Env& e) {
                e.rm = new M(intp::MeshDimension<D>(size_t(1)));
                *e.rm = e.m;
            },
            [&](Env& e) { return same_mesh(*e.rm, m1) && all(e); }, all);
        every_failure("build mesh", make,
            [&](Env& e) { e.rm = new M(e.m.dimension()); },
            [&](Env& e) { return e.rm->size() == m1.size() && all(e); }, all);
        every_failure("resize mesh", make,
            [&](Env& e) {
                e.rm = new M(intp::MeshDimension<D>(size_t(1)));
                e.rm->resize(e.m.dimension());
            },
            [&](Env& e) { return e.rm->size() == m1.size() && all(e); },
            [&](Env& e) {
                bool ok = all(e);
                if (e.rm) {
                    e.rm->resize(e.m.dimension());
                    *e.rm = e.m;
                    ok = ok && same_mesh(*e.rm, m1);
                }
                return ok;
            });
        every_failure("evaluate", make,
            [&](Env& e) {
                e.v = e.a(pts[1]);
                e.v += e.a.at(pts[2]);
            },
            [&](Env& e) {
                return e.v == (*w1)(pts[1]) + (*w1)(pts[2]) && all(e);
            }, all);
        std::array<size_t, D> mo;
        mo.fill(O ? 1 : 0);
        every_failure("derivative", make,
            [&](Env& e) {
                e.v = e.a.derivative(pts[1], mo);
                e.v += e.b.derivative_at(pts[2], mo);
            },
            [&](Env& e) {
                return e.v == w1->derivative(pts[1], mo) +
                                  w2->derivative(pts[2], mo) && all(e);
            }, all);
#ifdef INTP_CELL_LAYOUT
        every_failure("proxy", make,
            [&](Env& e) {
                auto p = e.t.eval_proxy(pts[1]);
                e.v = p(e.a);
                auto q = p;
                e.v += q(e.b);
            },
            [&](Env& e) {
                return std::fabs(e.v - (*w1)(pts[1]) - (*w2)(pts[1])) < 1e-9 && all(e);
            }, all);
#endif
    }
};

#ifdef INTP_MULTITHREAD
// the very first use starts the thread pool: one process per position
template <size_t D, size_t O>
void first(const Grid<D>& g) {
    std::vector<double> d = generic_data(g.total(), 5);
    intp::Mesh<double, D> m = to_mesh<double, D>(g, d);
    Ref<D> r(g, O);
    std::array<double, D> x;
    std::array<Cand, D> cs;
    std::array<const Cand*, D> cp;
    for (size_t i = 0; i < D; ++i) {
        x[i] = g.ax[i].a() + 0.37 * (g.ax[i].b() - g.ax[i].a());
        cs[i] = r.s[i].weights(x[i], 0);
        cp[i] = &cs[i];
    }
    for (long k = 0; k < 5000; ++k) {
        setcase("first use D=%zu order=%zu fail=%ld", D, O, k);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            first_use = true;
            alarm(60);
            am::countdown = k;
            int out = 0;
            typedef intp::InterpolationFunction<double, D, O> F;
            try {
                F f = make_fun<double, D, O>(g, m);
                am::countdown = -1;
            } catch (const std::bad_alloc&) {
                am::countdown = -1;
                out = 1;
            } catch (const std::system_error&) {
                am::countdown = -1;
                out = 1;
            } catch (...) {
                out = 2;
            }
            bool fired = am::failed;
            if (out == 2) _exit(3);
            if (out == 1 && !fired) _exit(4);
            real w;
            F f = make_fun<double, D, O>(g, m);
            if (!matches<D>(r, to_real(d), cp, f(x), 1e-9L, &w)) _exit(5);
            exit(fired ? 10 : 11);  // destructors of the pool included
        }
        int s = 0;
        waitpid(pid, &s, 0);
        ++st().transitions;
        ++st().states;
        if (!WIFEXITED(s) || (WEXITSTATUS(s) != 10 && WEXITSTATUS(s) != 11))
            fail("process ended with %s %d",
                 WIFEXITED(s) ? "code" : "signal",
                 WIFEXITED(s) ? WEXITSTATUS(s) : WTERMSIG(s));
        if (WIFEXITED(s) && WEXITSTATUS(s) == 11) break;
    }
    ++st().traces;
}
#endif

int main(int argc, char** argv) {
    init(argc, argv);
#ifdef INTP_MULTITHREAD
    {
        std::vector<std::array<size_t, 2>> e = {{{2, 3}}};
        for_grids<2>(ORD, e, [](const Grid<2>& g, size_t i) {
            if (i % 5 == 1 && mine()) first<2, ORD>(g);
        });
    }
#endif
    size_t idx = 0;
    for (int per = 0; per < 2; ++per)
        for (int uni = 0; uni < 2; ++uni)
            for (size_t ex = 0; ex < (st().thorough ? 6u : 2u); ++ex) {
                Grid<1> g;
                g.ax[0] = small_axis(ORD, per, uni, ex * 3, ex + size_t(per));
                if (!mine()) continue;
                setcase("%s", g.str(ORD).c_str());
                Fault<1, ORD>(g, idx++).run();
            }
    std::vector<std::array<size_t, 2>> e2 = {{{0, 2}}};
    if (st().thorough) {
        e2.push_back({{3, 1}});
        e2.push_back({{5, 5}});
    }
    for_grids<2>(ORD, e2, [&](const Grid<2>& g, size_t i) {
        if (!mine()) return;
        setcase("%s", g.str(ORD).c_str());
        Fault<2, ORD>(g, i).run();
    }, st().thorough ? 1 : 2);
#if ORD <= 3
    std::vector<std::array<size_t, 3>> e3 = {{{0, 1, 2}}};
    for_grids<3>(ORD, e3, [&](const Grid<3>& g, size_t i) {
        if (!mine() || (!st().thorough && i % 5)) return;
        setcase("%s", g.str(ORD).c_str());
        Fault<3, ORD>(g, i).run();
    }, st().thorough ? 1 : 3);
#endif
    return done();
}
