// C08: functions and templates are independent values. Every sequence of value
// operations up to a depth, on two template slots and two function slots.
#include "h.hpp"
using namespace h;

#ifndef DIM
#define DIM 1
#endif
#ifndef ORD
#define ORD 3
#endif
typedef intp::InterpolationFunction<double, DIM, ORD> F;
typedef intp::InterpolationFunctionTemplate<double, DIM, ORD> T;
typedef intp::Mesh<double, DIM> M;

static Grid<DIM> G[2];
static std::vector<std::array<double, DIM>> PS[2];  // probes
static std::array<double, DIM> CP;                  // probe of both grids
static std::vector<double> WANT[2][8];              // [grid][data]
static const int NDATA = 8;

static std::vector<double> obs(const F& f, int g) {
    std::vector<double> v;
    std::array<size_t, DIM> m;
    m.fill(0);
    m[0] = 1;
    // the first and the last evaluation are at the same point, whatever the
    // grid: a result remembered from an earlier history would show
    v.push_back(f(CP));
    v.push_back(f.derivative(CP, m));
    for (const auto& x : PS[g]) v.push_back(f(x));
    v.push_back(f.derivative(PS[g][1], m));
    v.push_back(f.derivative(CP, m));
    v.push_back(f(CP));
    for (size_t d = 0; d < DIM; ++d) {
        v.push_back(f.range(d).first);
        v.push_back(f.range(d).second);
        v.push_back(f.periodicity(d));
        v.push_back(f.uniform(d));
    }
    return v;
}
static M data(int g, int d) {
    return to_mesh<double, DIM>(G[g], generic_data(G[g].total(), 31 * d + g));
}
static M MESH[2][8] = {{M(1), M(1), M(1), M(1), M(1), M(1), M(1), M(1)},
                       {M(1), M(1), M(1), M(1), M(1), M(1), M(1), M(1)}};

template <typename C, bool = std::is_copy_assignable<C>::value>
struct Assign {
    static const bool ok = true;
    static void copy(C& a, const C& b) { a = b; }
    static void move(C& a, C& b) { a = std::move(b); }
};
template <typename C>
struct Assign<C, false> {
    static const bool ok = false;
    static void copy(C&, const C&) {}
    static void move(C&, C&) {}
};

enum Kind { DEAD, LIVE, EMPTY, MOVED };
struct Slot {
    Kind k = DEAD;
    int g = 0, d = 0;
};

struct World {
    T* t[2] = {0, 0};
    F* f[2] = {0, 0};
    Slot ts[2], fs[2];
    ~World() {
        for (int i = 0; i < 2; ++i) {
            delete t[i];
            delete f[i];
        }
    }
    // is op enabled?  perform it
    bool apply(int op, int step, bool dry) {
        // canonical slots: slot 1 is used only after slot 0
        int o = op;
        // --- template ops
        if (o < 4) {  // construct template i on grid g
            int i = o / 2, g = o % 2;
            if (ts[i].k != DEAD || (i == 1 && !touched_t)) return false;
            if (dry) return true;
            touched_t = true;
            t[i] = new T(make_tpl<double, DIM, ORD>(G[g]));
            ts[i].k = LIVE, ts[i].g = g;
            return true;
        }
        o -= 4;
        if (o < 4) {  // copy/move construct template i from the other
            int i = o / 2, j = 1 - i;
            bool mv = o % 2;
            if (ts[i].k != DEAD || ts[j].k != LIVE) return false;
            if (dry) return true;
            t[i] = mv ? new T(std::move(*t[j])) : new T(*t[j]);
            ts[i] = ts[j];
            if (mv) ts[j].k = MOVED;
            return true;
        }
        o -= 4;
        if (o < 6) {  // assign template i: copy, move, self
            int i = o / 3, j = 1 - i, w = o % 3;
            if (!Assign<T>::ok || ts[i].k == DEAD) return false;
            if (w == 2 ? ts[i].k != LIVE : ts[j].k != LIVE) return false;
            if (dry) return true;
            if (w == 0) {
                Assign<T>::copy(*t[i], *t[j]);
                ts[i] = ts[j];
            } else if (w == 1) {
                Assign<T>::move(*t[i], *t[j]);
                ts[i] = ts[j];
                ts[j].k = MOVED;
            } else {
                T& self = *t[i];
                Assign<T>::copy(*t[i], self);
            }
            return true;
        }
        o -= 6;
        if (o < 2) {  // destroy template
            if (ts[o].k == DEAD) return false;
            if (dry) return true;
            delete t[o];
            t[o] = 0;
            ts[o].k = DEAD;
            return true;
        }
        o -= 2;
        // --- functions from templates
        if (o < 12) {
            int i = o % 2, j = (o / 2) % 2, form = o / 4;
            if (ts[i].k != LIVE || (j == 1 && !touched_f)) return false;
            if (form != 2 && fs[j].k != DEAD) return false;
            if (form == 2 && fs[j].k == DEAD) return false;
            if (dry) return true;
            touched_f = true;
            int g = ts[i].g, d = step % NDATA;
            M* m = new M(MESH[g][d]);
            if (form == 0)
                f[j] = new F(static_cast<const T&>(*t[i]).interpolate(*m));
            else if (form == 1) {
                f[j] = new F(std::move(*t[i]).interpolate(std::move(*m)));
                ts[i].k = MOVED;
            } else
                t[i]->interpolate(*f[j], *m);
            delete m;
            fs[j].k = LIVE, fs[j].g = g, fs[j].d = d;
            return true;
        }
        o -= 12;
        if (o < 4) {  // direct construction
            int j = o / 2, g = o % 2;
            if (fs[j].k != DEAD || (j == 1 && !touched_f)) return false;
            if (dry) return true;
            touched_f = true;
            int d = step % NDATA;
            M* m = new M(MESH[g][d]);
            Grid<DIM>* gg = new Grid<DIM>(G[g]);
            f[j] = new F(make_fun<double, DIM, ORD>(*gg, *m));
            delete m;
            delete gg;
            fs[j].k = LIVE, fs[j].g = g, fs[j].d = d;
            return true;
        }
        o -= 4;
        if (o < 2) {  // default construction
            if (fs[o].k != DEAD || (o == 1 && !touched_f)) return false;
            if (dry) return true;
            touched_f = true;
            f[o] = new F();
            fs[o].k = EMPTY;
            return true;
        }
        o -= 2;
        if (o < 4) {  // copy/move construct function
            int i = o / 2, j = 1 - i;
            bool mv = o % 2;
            if (fs[i].k != DEAD || (fs[j].k != LIVE && fs[j].k != EMPTY))
                return false;
            if (dry) return true;
            f[i] = mv ? new F(std::move(*f[j])) : new F(*f[j]);
            fs[i] = fs[j];
            if (mv) fs[j].k = MOVED;
            return true;
        }
        o -= 4;
        if (o < 6) {  // assign function: copy, move, self
            int i = o / 3, j = 1 - i, w = o % 3;
            if (fs[i].k == DEAD) return false;
            if (w == 2 ? fs[i].k != LIVE
                       : fs[j].k != LIVE && fs[j].k != EMPTY)
                return false;
            if (dry) return true;
            if (w == 0) {
                *f[i] = *f[j];
                fs[i] = fs[j];
            } else if (w == 1) {
                *f[i] = std::move(*f[j]);
                fs[i] = fs[j];
                fs[j].k = MOVED;
            } else {
                F& self = *f[i];
                *f[i] = self;
            }
            return true;
        }
        o -= 6;
        if (o < 2) {  // destroy function
            if (fs[o].k == DEAD) return false;
            if (dry) return true;
            delete f[o];
            f[o] = 0;
            fs[o].k = DEAD;
            return true;
        }
        o -= 2;
        if (o < 1) {  // swap functions
            if (fs[0].k != LIVE || fs[1].k != LIVE) return false;
            if (dry) return true;
            std::swap(*f[0], *f[1]);
            std::swap(fs[0], fs[1]);
            return true;
        }
        return false;
    }
    static int nops() { return 4 + 4 + 6 + 2 + 12 + 4 + 2 + 4 + 6 + 2 + 1; }
    bool touched_t = false, touched_f = false;

    // mode: 0 functions are evaluated only after the last operation, 1 and 2
    // after every operation, in either order
    void check(const std::string& seq, bool last, int mode) {
        for (int ii = 0; ii < 2; ++ii) {
            const int i = mode == 2 ? 1 - ii : ii;
            if (fs[i].k == LIVE) {
                std::vector<double> v = obs(*f[i], fs[i].g);
                const std::vector<double>& w = WANT[fs[i].g][fs[i].d];
                st().transitions += v.size();
                for (size_t q = 0; q < v.size(); ++q)
                    if (!(std::fabs(v[q] - w[q]) <=
                          1e-11 * (1 + std::fabs(w[q])))) {
                        setcase("%s", seq.c_str());
                        fail("function slot %d (grid %d data %d) observation "
                             "%zu is %.17g, should be %.17g", i, fs[i].g,
                             fs[i].d, q, v[q], w[q]);
                        break;
                    }
            }
        }
        if (!last) return;
        for (int i = 0; i < 2; ++i)
            if (ts[i].k == LIVE) {
                const F h = static_cast<const T&>(*t[i]).interpolate(
                    MESH[ts[i].g][7]);
                std::vector<double> v = obs(h, ts[i].g);
                const std::vector<double>& w = WANT[ts[i].g][7];
                st().transitions += v.size();
                for (size_t q = 0; q < v.size(); ++q)
                    if (!(std::fabs(v[q] - w[q]) <=
                          1e-11 * (1 + std::fabs(w[q])))) {
                        setcase("%s", seq.c_str());
                        fail("template slot %d (grid %d): observation %zu is "
                             "%.17g, should be %.17g", i, ts[i].g, q, v[q],
                             w[q]);
                        break;
                    }
            }
        // using templates must not have touched the functions
        if (ts[0].k == LIVE || ts[1].k == LIVE) check(seq, false, mode);
    }
};

static std::string seq_str(const std::vector<int>& s) {
    std::string r = "ops";
    char b[16];
    for (int o : s) {
        snprintf(b, sizeof b, " %d", o);
        r += b;
    }
    return r;
}
static std::string BASE;
static size_t EAGER = 99;
static void dfs(std::vector<int>& seq, int depth) {
    // re-execute the prefix to find which operations are enabled
    int n = World::nops();
    std::vector<char> en(size_t(n), 0);
    {
        std::string s = BASE + seq_str(seq);
        setcase("%s", s.c_str());
        for (int mode = seq.size() > 1 && seq.size() <= EAGER ? 2 : 0; mode >= 0; --mode) {
        World w;
        for (size_t i = 0; i < seq.size(); ++i) {
            w.apply(seq[i], int(i), false);
            ++st().transitions;
            if (mode && i + 1 < seq.size()) w.check(s, false, mode);
        }
        w.check(s, true, mode);
        ++st().traces;
        sample();
        if (mode == 0)
        for (int o = 0; o < n; ++o) en[size_t(o)] = w.apply(o, 0, true);
        }
    }
    ++st().states;
    if (depth == 0) return;
    for (int o = 0; o < n; ++o)
        if (en[size_t(o)]) {
            if (seq.size() == 2 && !mine()) continue;
            seq.push_back(o);
            dfs(seq, depth - 1);
            seq.pop_back();
        }
}

// ---- evaluation is an observation: every ordered pair of evaluations
static void histories() {
    for (int a = 0; a < 2; ++a) {
        const F f = make_fun<double, DIM, ORD>(G[a], MESH[a][0]);
        const F f2 = make_fun<double, DIM, ORD>(G[a], MESH[a][1]);
        const F e = make_fun<double, DIM, ORD>(G[1 - a], MESH[1 - a][2]);
        const F* fs[3] = {&f, &f2, &e};
        std::vector<std::array<double, DIM>> ps;
        {
            std::array<std::vector<double>, DIM> p;
            for (size_t d = 0; d < DIM; ++d) {
                Spline1D s(G[a].ax[d], ORD);
                std::vector<double> q = special_points(s, DIM == 1),
                                    r = piece_points(s, 2);
                q.insert(q.end(), r.begin(), r.end());
                double L = G[a].ax[d].b() - G[a].ax[d].a();
                q.push_back(G[a].ax[d].a() - 0.4 * L);
                q.push_back(G[a].ax[d].b() + 0.4 * L);
                p[d] = thin(q, DIM == 1 ? 400 : 9, 1);
            }
            std::array<size_t, DIM> k;
            k.fill(0);
            for (;;) {
                std::array<double, DIM> x;
                for (size_t d = 0; d < DIM; ++d) x[d] = p[d][k[d]];
                ps.push_back(x);
                size_t d = 0;
                for (; d < DIM; ++d) {
                    if (++k[d] < p[d].size()) break;
                    k[d] = 0;
                }
                if (d == DIM) break;
            }
        }
        std::array<size_t, DIM> m;
        m.fill(1);
        // what a function not evaluated before gives
        std::vector<std::array<double, 3>> first[3];
        for (int w = 0; w < 3; ++w)
            for (const auto& x : ps) {
                F fresh(*fs[w]);
                F fresh2(*fs[w]);
                std::array<double, 3> v = {{fresh(x), fresh2.derivative(x, m), 0}};
                first[w].push_back(v);
            }
        setcase("%s evaluation history grid %d", BASE.c_str(), a);
        for (size_t i = 0; i < ps.size(); ++i)
            for (size_t j = 0; j < ps.size(); ++j) {
                int wi = int((i + j) % 3), wj = int((i * 2 + j / 3) % 3);
                const F &A = *fs[wi], &B = *fs[wj];
                double x1, x2;
                switch ((i + 2 * j) % 4) {
                    case 0: x1 = A(ps[i]); break;
                    case 1: x1 = A.derivative(ps[i], m); break;
                    case 2:
                        try {
                            x1 = A.at(ps[i]);
                        } catch (const std::domain_error&) {}
                        break;
                    default: {
                        F tmp(B);
                        x1 = tmp(ps[i]);
                    }
                }
                x2 = B(ps[j]);
                double y2 = B.derivative(ps[j], m);
                double z2 = B(ps[j]);
                st().transitions += 4;
                (void)x1;
                double w0 = first[wj][j][0], w1 = first[wj][j][1];
                if (x2 != w0 || y2 != w1 || z2 != w0) {
                    fail("after evaluating point %zu of function %d: value "
                         "%.17g,%.17g derivative %.17g; first evaluation gave "
                         "%.17g and %.17g", i, wi, x2, z2, y2, w0, w1);
                    return;
                }
                ++st().states;
            }
        ++st().traces;
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    // grids of different size, periodicity and uniformity
    int variant = 0, depth = 3;
    bool hist = false;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--variant")) variant = atoi(argv[i + 1]);
        if (!strcmp(argv[i], "--depth")) depth = atoi(argv[i + 1]);
        if (!strcmp(argv[i], "--eager")) EAGER = size_t(atoi(argv[i + 1]));
        if (!strcmp(argv[i], "--hist")) hist = true;
    }
    for (int g = 0; g < 2; ++g) {
        for (size_t d = 0; d < DIM; ++d) {
            bool per = ((variant + int(d) + g) & 1) != 0;
            bool uni = (((variant >> 1) + int(d) + g) & 1) != 0;
            G[g].ax[d] = small_axis(ORD, per, uni, size_t(g ? 2 : 0) + d,
                                    size_t(variant + g));
            if (variant < 4) continue;
            // grids that differ in nothing but the points between the ends
            // (4: aperiodic, 5: periodic, 6: uniform and non-uniform) or the
            // range (7)
            if (variant == 7) {
                G[g].ax[d] = uniform_axis(d == 1, ORD + 4 + d, size_t(g) + 1);
                continue;
            }
            Axis a = uniform_axis(variant == 5, ORD + 4 + d, 0);
            if (variant < 6 || g == 1) {
                a.uniform = false;
                for (size_t i = 1; i + 1 < a.x.size(); ++i)
                    a.x[i] += ((i + size_t(g)) % 3 ? 0.25 : -0.375) *
                              (g ? 1 : 0.5);
            }
            G[g].ax[d] = a;
        }
        for (int q = 0; q < 3; ++q) {
            std::array<double, DIM> x;
            static const double fr[3] = {0.137, 0.581, 0.93};
            for (size_t d = 0; d < DIM; ++d)
                x[d] = G[g].ax[d].a() +
                       fr[(size_t(q) + d) % 3] *
                           (G[g].ax[d].b() - G[g].ax[d].a());
            PS[g].push_back(x);
        }
        if (g == 0) CP = PS[0][0];
        for (int d = 0; d < NDATA; ++d) {
            MESH[g][d] = data(g, d);
            WANT[g][d] = obs(make_fun<double, DIM, ORD>(G[g], MESH[g][d]), g);
        }
    }
    char b[80];
    snprintf(b, sizeof b, "variant=%d D=%d order=%d ", variant, DIM, ORD);
    BASE = b;
    if (hist) histories();
    std::vector<int> seq;
    dfs(seq, depth);
    return done();
}
