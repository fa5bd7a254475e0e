// Controlled scheduler, happens-before race detector and exhaustive explorer.
// See DESIGN.md, section "Scheduler".
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mcrt.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uintptr_t uptr;

const int MAXT = 14;
const size_t STACK = 512 << 10;
const int MAXCH = 12000;      // choices of one execution
const int MAXEV = 60000;      // events of one execution
const size_t ARENA = size_t(1) << 30;

// ------------------------------------------------------------------ raw calls
inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0,
                long e = 0, long f = 0) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(r)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
inline void fwait(int* p, int v) { raw(SYS_futex, (long)p, FUTEX_WAIT, v, 0); }
inline void fwake(int* p) { raw(SYS_futex, (long)p, FUTEX_WAKE, 1000, 0); }
double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
inline u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline u64 H(u64 a, u64 b) { return mix(a * 0x9ddfea08eb382d69ull + mix(b)); }

// ------------------------------------------------------------------ shared
struct Item {  // a schedule prefix to be executed
    u32 len;
    u8 c[MAXCH];
};
struct Slot {
    u64 key;   // 0: empty
    u32 cost;  // smallest preemption count it was reached with, + 1
};
const size_t NSLOT = size_t(1) << 24;
const size_t POOLB = size_t(3) << 30;
struct Shared {
    volatile int lock;
    volatile int stop;
    volatile int active;      // runners holding an item
    volatile u64 states, events, execs, complete, pruned, deep, racechk;
    volatile u64 outcome;     // first outcome, +1 flag
    volatile int have_outcome;
    volatile u64 notes[64];
    volatile int nnotes;
    volatile int nviol;
    volatile int diverged, truncated, full;
    char viol[4][6000];
    u8 vsched[4][MAXCH];
    u32 vlen[4];
    char sample[4][600];
    volatile int nsample;
    char limit[120];
    // LIFO of prefixes
    volatile u64 top;         // bytes used
    volatile u64 count;
    volatile u64 maxcount;
};
Shared* S;
Slot* table;
u8* pool;  // records: bytes, then u32 length

void slock() {
    while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
}
void sunlock() { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }

// true: already known with the same or smaller cost
bool nocache = false;
bool visited(u64 key, u32 cost) {
    if (nocache) return false;
    if (!key) key = 1;
    size_t i = mix(key) % NSLOT;
    for (size_t n = 0; n < 4096; ++n, i = (i + 1) % NSLOT) {
        u64 k = __atomic_load_n(&table[i].key, __ATOMIC_ACQUIRE);
        if (k == 0) {
            u64 z = 0;
            if (__atomic_compare_exchange_n(&table[i].key, &z, key, false,
                                            __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
                // publish the cost
                u32 o = 0;
                if (!__atomic_compare_exchange_n(&table[i].cost, &o, cost + 1,
                                                 false, __ATOMIC_ACQ_REL,
                                                 __ATOMIC_ACQUIRE) &&
                    o <= cost + 1)
                    return true;
                __atomic_fetch_add(&S->states, 1, __ATOMIC_RELAXED);
                return false;
            }
            k = z;
        }
        if (k == key) {
            u32 o = __atomic_load_n(&table[i].cost, __ATOMIC_ACQUIRE);
            for (;;) {
                if (o && o <= cost + 1) return true;
                if (__atomic_compare_exchange_n(&table[i].cost, &o, cost + 1,
                                                false, __ATOMIC_ACQ_REL,
                                                __ATOMIC_ACQUIRE))
                    return false;
            }
        }
    }
    S->full = 1;
    return false;
}
void push(const u8* c, u32 len) {
    slock();
    if (S->top + len + 4 > POOLB) {
        S->truncated = 1;
    } else {
        memcpy(pool + S->top, c, len);
        memcpy(pool + S->top + len, &len, 4);
        S->top += len + 4;
        S->count++;
        if (S->count > S->maxcount) S->maxcount = S->count;
    }
    sunlock();
}
// 1: got one, 0: none but others active, -1: finished
int pop(u8* c, u32* len) {
    slock();
    int r = 0;
    if (S->stop) {
        r = -1;
    } else if (S->count) {
        memcpy(len, pool + S->top - 4, 4);
        S->top -= 4 + *len;
        memcpy(c, pool + S->top, *len);
        S->count--;
        S->active++;
        r = 1;
    } else if (S->active == 0) {
        r = -1;
    }
    sunlock();
    return r;
}

// ------------------------------------------------------------------ execution
enum Kind {
    K_START, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CWAIT, K_CBLOCK, K_SIGNAL, K_BCAST,
    K_ALOAD, K_ASTORE, K_ARMW, K_CREATE, K_JOIN, K_EXIT, K_FWAIT, K_FBLOCK,
    K_FWAKE, K_ONCE, K_ONCEDONE, K_GUARD, K_GUARDDONE, K_YIELD, K_CHOOSE,
    K_RDLOCK, K_WRLOCK, K_RWUNLOCK, K_POINT, K_SLEEP
};
const char* const KN[] = {
    "start", "lock", "trylock", "unlock", "cond-wait", "cond-blocked", "notify_one",
    "notify_all", "atomic-load", "atomic-store", "atomic-rmw", "create", "join",
    "exit", "futex-wait", "futex-blocked", "futex-wake", "once", "once-done",
    "guard", "guard-done", "yield", "choose", "rdlock", "wrlock", "rwunlock",
    "point", "sleep"};

struct VC {
    u32 c[MAXT];
    void join(const VC& o) {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
    void clear() { memset(c, 0, sizeof c); }
};
struct Obj {
    uptr addr;
    int owner;        // mutex: thread + 1; once/guard: runner + 1; rw writer
    int depth;        // recursive mutex / readers
    int done;
    u64 wh, rsum;     // hash of last write event, sum of read events since
    VC vc;
    int nwait;        // cond / futex waiters, in order
    u8 wait[MAXT];
};
const int NOBJ = 1 << 15;
struct TlsDtor {
    void (*f)(void*);
    void* p;
};
struct Thr {
    int id;
    int tok;           // futex: 1 = may run
    bool used, finished, started;
    int kind;          // pending operation
    Obj* obj;          // its object
    Obj* mtx;          // cond: mutex to be taken again
    int target;        // join
    bool woken;        // cond / futex: signalled
    bool timed;        // may time out
    bool yielded;
    int variant;       // how it was resumed: 0 normal, 1 timeout/spurious/fail
    u32 streak;
    u64 h;
    VC vc, relf, acqf;
    uptr sp, slo, shi;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    TlsDtor td[64];
    int ntd;
};

Thr T[MAXT];
int nthr = 0;
Obj* objs;
int nobj = 0;
bool active = false;
thread_local Thr* me __attribute__((tls_model("initial-exec"))) = 0;
thread_local int inrt __attribute__((tls_model("initial-exec"))) = 0;
u8 sched_[MAXCH];
u32 plen = 0, clen = 0;
int used_pre = 0, used_spur = 0, used_fail = 0;
McScenario* sc = 0;
u64 events = 0, racechk = 0;
bool precise_unlock = false;
bool exiting = false;
bool quiet = false;
u8* stacks;
struct Ev {
    u8 t, k, v;
    u32 o;
    const void* pc;
};
Ev* trace;
u32 ntrace = 0;
bool replay_print = false;

struct InRt {
    InRt() { ++inrt; }
    ~InRt() { --inrt; }
};
inline bool managed() { return active && me && !inrt; }

void finish_exec(int code) __attribute__((noreturn));
void finish_exec(int code) {
    __atomic_fetch_add(&S->events, events, __ATOMIC_RELAXED);
    __atomic_fetch_add(&S->racechk, racechk, __ATOMIC_RELAXED);
    raw(SYS_exit_group, code);
    __builtin_unreachable();
}
size_t app(char* b, size_t n, size_t cap, const char* fmt, ...) {
    if (n + 1 >= cap) return n;
    va_list ap;
    va_start(ap, fmt);
    int k = vsnprintf(b + n, cap - n, fmt, ap);
    va_end(ap);
    if (k < 0) return n;
    n += size_t(k);
    return n < cap ? n : cap - 1;
}
const char* sym(const void* pc) {
    Dl_info i;
    if (pc && dladdr(pc, &i) && i.dli_sname) return i.dli_sname;
    return "?";
}
void report(const char* what) __attribute__((noreturn));
void report(const char* what) {
    ++inrt;
    if (!strncmp(what, "model checker:", 14)) {  // a limit, not a violation
        S->truncated = 1;
        slock();
        snprintf(S->limit, sizeof S->limit, "%s", what);
        sunlock();
        finish_exec(0);
    }
    slock();
    int n = S->nviol;
    if (n < 4) {
        char* b = S->viol[n];
        size_t k = 0, cap = sizeof S->viol[n];
        k = app(b, k, cap, "%s", what);
        u32 from = ntrace > 60 ? ntrace - 60 : 0;
        k = app(b, k, cap, " | last events:");
        for (u32 i = from; i < ntrace; ++i)
            k = app(b, k, cap, " T%d:%s%s#%u", trace[i].t, KN[trace[i].k],
                    trace[i].v ? "!" : "", trace[i].o);
        for (char* p = b; *p; ++p)
            if (*p == '\n') *p = ' ';
        memcpy(S->vsched[n], sched_, clen);
        S->vlen[n] = clen;
        S->nviol = n + 1;
        S->stop = 1;
    }
    sunlock();
    finish_exec(1);
}
void reportf(const char* fmt, ...) __attribute__((noreturn));
void reportf(const char* fmt, ...) {
    char b[1800];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    report(b);
}

// ------------------------------------------------------------------ objects
Obj* obj(const void* p, int cls) {
    uptr a = uptr(p) * 4 + uptr(cls);  // class keeps futex and atomic apart
    size_t i = mix(a) & (NOBJ - 1);
    for (;;) {
        if (objs[i].addr == a) return &objs[i];
        if (!objs[i].addr) break;
        i = (i + 1) & (NOBJ - 1);
    }
    if (++nobj > NOBJ / 2) report("model checker: too many objects");
    objs[i].addr = a;
    return &objs[i];
}
void forget(const void* p, int cls) {
    Obj* o = obj(p, cls);
    uptr a = o->addr;
    memset(o, 0, sizeof *o);
    o->addr = a;
}
void ev(int k, Obj* o, bool write, u64 extra = 0) {
    Thr* t = me;
    ++events;
    if (ntrace < u32(MAXEV)) {
        trace[ntrace].t = u8(t->id);
        trace[ntrace].k = u8(k);
        trace[ntrace].v = u8(t->variant);
        trace[ntrace].o = o ? u32(o - objs) : 0;
        ++ntrace;
    } else {
        S->truncated = 1;
        reportf("no termination: more than %d events in one execution", MAXEV);
    }
    u64 h = H(t->h, u64(k) * 64 + extra * 977 + u64(t->variant));
    if (o) {
        h = H(h, o->wh);
        if (write) {
            h = H(h, o->rsum);
            o->wh = h;
            o->rsum = 0;
        } else {
            o->rsum += mix(h);
        }
    }
    t->h = h;
    t->vc.c[t->id]++;
    for (int i = 0; i < nthr; ++i)
        if (i != t->id) T[i].yielded = false;
}

// ------------------------------------------------------------------ scheduling
bool enabled(const Thr& t) {
    if (!t.used || t.finished) return false;
    switch (t.kind) {
        case K_LOCK: return t.obj->owner == 0 || t.obj->owner == t.id + 1;
        case K_CBLOCK: return t.woken && t.mtx->owner == 0;
        case K_FBLOCK: return t.woken;
        case K_JOIN: return T[t.target].finished;
        case K_ONCE: case K_GUARD: return t.obj->owner == 0;
        case K_RDLOCK: return t.obj->owner == 0;
        case K_WRLOCK: return t.obj->owner == 0 && t.obj->depth == 0;
        default: return true;
    }
}
// may be resumed abnormally (time-out, spurious wake-up)
bool can_timeout(const Thr& t) {
    if (!t.used || t.finished || t.woken) return false;
    if (t.kind == K_CBLOCK) return t.mtx->owner == 0;
    if (t.kind == K_FBLOCK) return true;
    return false;
}
struct Opt {
    u8 t, variant;
    u8 cost, spur;
};

u64 state_hash(int cur) {
    u64 s = 0;
    for (int i = 0; i < nthr; ++i) s += H(T[i].h, u64(i) + 1);
    return H(s, u64(cur) + 7 + (u64(used_spur) << 8) + (u64(used_fail) << 16));
}
// picks among n options, exploring the others later. cost[i]: preemptions
int decide(int n, const u8* cost, const u8* spur, int cur) {
    if (n == 1 || quiet) return 0;
    u8 dc[64];
    if (sc->delay) {
        for (int i = 0; i < n; ++i) dc[i] = i > 0;
        cost = dc;
    }
    int pick;
    if (clen < plen) {
        pick = sched_[clen];
        if (pick >= n) {
            S->diverged = 1;
            report("model checker: execution is not deterministic");
        }
    } else {
        if (visited(state_hash(cur), sc->preempt < 0 ? 0u : u32(used_pre))) {
            __atomic_fetch_add(&S->pruned, 1, __ATOMIC_RELAXED);
            finish_exec(0);
        }
        if (clen + 1 >= MAXCH) {
            S->truncated = 1;
            report("no termination: too many scheduling choices");
        }
        for (int i = n; i-- > 1;) {
            if (sc->preempt >= 0 && used_pre + cost[i] > sc->preempt) continue;
            if (used_spur + spur[i] > sc->spurious) continue;
            sched_[clen] = u8(i);
            push(sched_, clen + 1);
        }
        pick = 0;
    }
    sched_[clen++] = u8(pick);
    used_pre += cost[pick];
    used_spur += spur[pick];
    return pick;
}
void hand(Thr* to) {
    Thr* self = me;
    __atomic_store_n(&self->tok, 0, __ATOMIC_RELAXED);
    __atomic_store_n(&to->tok, 1, __ATOMIC_RELEASE);
    fwake(&to->tok);
}
void wait_token(Thr* t) {
    while (!__atomic_load_n(&t->tok, __ATOMIC_ACQUIRE)) fwait(&t->tok, 0);
}
void describe_blocked(char* b, size_t cap) {
    size_t k = 0;
    b[0] = 0;
    for (int i = 0; i < nthr; ++i)
        if (T[i].used && !T[i].finished)
            k = app(b, k, cap, " T%d in %s", i, KN[T[i].kind]);
}
// choose who runs next and let it; returns when this thread is chosen (unless
// it has finished)
void schedule() {
    Thr* self = me;
    Opt o[2 * MAXT];
    int n = 0;
    bool self_ok = !self->finished && enabled(*self) && !self->yielded;
    bool others = false;
    for (int i = 0; i < nthr; ++i)
        if (enabled(T[i]) && !T[i].yielded) others = true;
    if (self_ok) {
        o[n].t = u8(self->id);
        o[n].variant = 0;
        o[n].cost = 0;
        o[n++].spur = 0;
    }
    for (int d = 1; d <= nthr; ++d) {
        int i = (self->id + d) % nthr;
        if (i == self->id && self_ok) continue;
        if (!enabled(T[i]) || (T[i].yielded && others)) continue;
        o[n].t = u8(i);
        o[n].variant = 0;
        o[n].cost = self_ok ? 1 : 0;
        o[n++].spur = 0;
    }
    int normal = n;
    for (int i = 0; i < nthr; ++i) {
        if (!can_timeout(T[i])) continue;
        if (normal == 0 && T[i].timed) {  // time passes when all are blocked
            o[n].t = u8(i);
            o[n].variant = 1;
            o[n].cost = 0;
            o[n++].spur = 0;
        } else if (normal > 0 && sc->spurious > 0) {
            o[n].t = u8(i);
            o[n].variant = 1;
            o[n].cost = 0;
            o[n++].spur = 1;
        }
    }
    if (n == 0) {
        bool all = true;
        for (int i = 0; i < nthr; ++i)
            if (T[i].used && !T[i].finished) all = false;
        if (all) report("model checker: nothing left to run");
        char b[900];
        describe_blocked(b, sizeof b);
        reportf("deadlock:%s", b);
    }
    u8 cost[2 * MAXT], spur[2 * MAXT];
    for (int i = 0; i < n; ++i) {
        cost[i] = o[i].cost;
        spur[i] = o[i].spur;
    }
    int p = decide(n, cost, spur, self_ok ? self->id : 50);
    Thr* to = &T[o[p].t];
    to->variant = o[p].variant;
    if (to == self) {
        if (++self->streak > 400) {  // spinning: let others go on
            self->streak = 0;
            self->yielded = true;
        }
        return;
    }
    to->streak = 0;
    hand(to);
    if (!self->finished) wait_token(self);
}
void at(int kind, Obj* o) {
    Thr* t = me;
    t->kind = kind;
    t->obj = o;
    t->variant = 0;
    t->sp = uptr(__builtin_frame_address(0));
    schedule();
}

// ------------------------------------------------------------------ shadow
struct Cell {
    u32 clk;
    u8 tid, mask, w, used;
};
const int NC = 8;
struct Gran {
    uptr a;  // granule number, 0: empty
    Cell c[NC];
};
const size_t NG = 1 << 17;
Gran* shadow;
size_t ngran = 0;
// heap: state per 16 bytes. 0 not allocated, 1 allocated, 2 freed
u8* arena;
u8* astate;
size_t arena_top = 64;
struct Head {
    u64 size;
    u32 magic;
    u32 exc;  // exception object: released inside libstdc++
};

inline bool in_arena(uptr a) { return a - uptr(arena) < ARENA; }

Gran* gran(uptr g) {
    size_t i = mix(g) & (NG - 1);
    for (;;) {
        if (shadow[i].a == g) return &shadow[i];
        if (!shadow[i].a) break;
        i = (i + 1) & (NG - 1);
    }
    if (++ngran > NG * 3 / 4) report("model checker: shadow memory full");
    shadow[i].a = g;
    return &shadow[i];
}
Thr* stack_of(uptr a) {
    for (int i = 0; i < nthr; ++i)
        if (T[i].used && a >= T[i].slo && a < T[i].shi) return &T[i];
    return 0;
}
void access1(uptr a, size_t n, bool w, const void* pc, bool check_only_free) {
    Thr* t = me;
    ++racechk;
    uptr g = a >> 3;
    u8 mask = u8(((1u << n) - 1) << (a & 7));
    Gran* s = gran(g);
    int slot = -1;
    for (int i = 0; i < NC; ++i) {
        Cell& c = s->c[i];
        if (!c.used) {
            if (slot < 0) slot = i;
            continue;
        }
        if (c.tid == t->id) {
            if ((c.mask & ~mask) == 0 && (w || !c.w)) {
                c.used = 0;
                if (slot < 0) slot = i;
            }
            continue;
        }
        if (!(c.mask & mask)) continue;
        bool hb = c.clk <= t->vc.c[c.tid];
        if (!hb && (w || c.w)) {
            reportf("data race: %s of %p in %s by T%d, unordered with %s by T%d",
                    check_only_free ? "release" : w ? "write" : "read", (void*)a,
                    sym(pc), t->id, c.w ? "write" : "read", c.tid);
        }
        if (hb && w && (c.mask & ~mask) == 0) {
            c.used = 0;
            if (slot < 0) slot = i;
        }
    }
    if (slot < 0) {  // forget the oldest ordered one
        for (int i = 0; i < NC; ++i)
            if (s->c[i].clk <= t->vc.c[s->c[i].tid]) {
                slot = i;
                break;
            }
        if (slot < 0) slot = 0;
    }
    Cell& c = s->c[slot];
    c.used = 1;
    c.tid = u8(t->id);
    c.clk = t->vc.c[t->id];
    c.mask = mask;
    c.w = w;
}
void access(uptr a, size_t n, bool w, const void* pc) {
    if (!managed() || n == 0) return;
    InRt guard;
    if (in_arena(a)) {
        size_t i0 = (a - uptr(arena)) / 16, i1 = (a + n - 1 - uptr(arena)) / 16;
        for (size_t i = i0; i <= i1; ++i)
            if (astate[i] != 1)
                reportf("%s of %s memory in %s by T%d", w ? "write" : "read",
                        astate[i] == 2 ? "freed" : "unallocated", sym(pc), me->id);
    } else {
        Thr* o = stack_of(a);
        if (o && o != me) {
            if (o->finished)
                reportf("access to the stack of finished T%d in %s by T%d", o->id,
                        sym(pc), me->id);
            if (a < o->sp)
                reportf("access to a dead stack frame of T%d in %s by T%d", o->id,
                        sym(pc), me->id);
        }
    }
    while (n) {
        size_t k = 8 - (a & 7);
        if (k > n) k = n;
        access1(a, k, w, pc, false);
        a += k;
        n -= k;
    }
}
void fresh(uptr a, size_t n) {  // no history
    for (uptr g = a >> 3; g <= (a + n - 1) >> 3 && n; ++g) {
        size_t i = mix(g) & (NG - 1);
        for (;;) {
            if (shadow[i].a == g) {
                for (int k = 0; k < NC; ++k) shadow[i].c[k].used = 0;
                break;
            }
            if (!shadow[i].a) break;
            i = (i + 1) & (NG - 1);
        }
    }
}

// ------------------------------------------------------------------ heap
volatile int heap_lock = 0;
void* heap_get(size_t al, size_t n) {
    if (al < 16) al = 16;
    while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) {}
    size_t p = arena_top + sizeof(Head);
    p = (p + al - 1) & ~(al - 1);
    size_t end = p + (n ? n : 1);
    end = (end + 15) & ~size_t(15);
    if (end + 64 > ARENA) {
        __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE);
        errno = ENOMEM;
        return 0;
    }
    arena_top = end + 32;  // red zone
    __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE);
    Head* h = reinterpret_cast<Head*>(arena + p) - 1;
    h->size = n;
    h->magic = 0x1157;
    h->exc = 0;
    memset(astate + p / 16, 1, (end - p) / 16);
    return arena + p;
}
void heap_put(void* v) {
    if (!v) return;
    uptr a = uptr(v);
    if (!in_arena(a)) return;
    Head* h = static_cast<Head*>(v) - 1;
    if (h->magic != 0x1157) {
        if (active && me) {
            InRt g;
            reportf("%s by T%d", h->magic == 0x0ff ? "double free" : "invalid free",
                    me->id);
        }
        return;
    }
    if (managed() && !exiting && !h->exc) {
        InRt g;
        // releasing is a write for whoever used the memory before
        uptr p = a;
        size_t n = h->size;
        while (n) {
            size_t k = 8 - (p & 7);
            if (k > n) k = n;
            size_t i = mix(p >> 3) & (NG - 1);
            bool seen = false;
            while (shadow[i].a) {
                if (shadow[i].a == p >> 3) {
                    seen = true;
                    break;
                }
                i = (i + 1) & (NG - 1);
            }
            if (seen) access1(p, k, true, __builtin_return_address(0), true);
            p += k;
            n -= k;
        }
    }
    h->magic = 0x0ff;
    memset(astate + (a - uptr(arena)) / 16, 2, (h->size + 15) / 16);
}
void runtime_init();
}  // namespace

// ====================================================================== hooks
extern "C" {
static void boot() {
    if (!arena) runtime_init();
}
void* malloc(size_t n) {
    boot();
    return heap_get(16, n);
}
void free(void* p) { heap_put(p); }
void* calloc(size_t a, size_t b) {
    boot();
    return heap_get(16, a * b);  // fresh pages are zero, never reused
}
void* realloc(void* p, size_t n) {
    boot();
    void* q = heap_get(16, n);
    if (p && q) {
        size_t o = (static_cast<Head*>(p) - 1)->size;
        ++inrt;
        memcpy(q, p, o < n ? o : n);
        --inrt;
        heap_put(p);
    }
    return q;
}
void* memalign(size_t al, size_t n) {
    boot();
    return heap_get(al, n);
}
void* aligned_alloc(size_t al, size_t n) {
    boot();
    return heap_get(al, n);
}
int posix_memalign(void** r, size_t al, size_t n) {
    boot();
    void* p = heap_get(al, n);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
void* memcpy(void* d, const void* s, size_t n) {
    if (active && me && !inrt && n) {
        access(uptr(s), n, false, __builtin_return_address(0));
        access(uptr(d), n, true, __builtin_return_address(0));
    }
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n) {
    if (active && me && !inrt && n) {
        access(uptr(s), n, false, __builtin_return_address(0));
        access(uptr(d), n, true, __builtin_return_address(0));
    }
    void* r = d;
    if (uptr(d) - uptr(s) >= n) {
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    } else {
        char* de = static_cast<char*>(d) + n - 1;
        const char* se = static_cast<const char*>(s) + n - 1;
        __asm__ volatile("std\n rep movsb\n cld"
                         : "+D"(de), "+S"(se), "+c"(n)
                         :
                         : "memory");
    }
    return r;
}
void* memset(void* d, int c, size_t n) {
    if (active && me && !inrt && n)
        access(uptr(d), n, true, __builtin_return_address(0));
    void* r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
void* __cxa_allocate_exception(size_t n) noexcept {
    static void* (*f)(size_t) = 0;
    if (!f) {
        ++inrt;
        f = reinterpret_cast<void* (*)(size_t)>(
            dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
        --inrt;
    }
    size_t before = arena_top;
    void* p = f(n);
    // the block just taken belongs to the exception
    for (size_t q = before; q < arena_top; q += 16) {
        Head* h = reinterpret_cast<Head*>(arena + q);
        if (h->magic == 0x1157 && uptr(h + 1) <= uptr(p) &&
            uptr(p) < uptr(h + 1) + h->size) {
            h->exc = 1;
            break;
        }
    }
    return p;
}
int __cxa_thread_atexit(void (*f)(void*), void* p, void*) noexcept {
    Thr* t = me;
    if (!t) return 0;  // outside of executions: never destroyed
    if (t->ntd >= 64) report("model checker: too many thread-local objects");
    t->td[t->ntd].f = f;
    t->td[t->ntd].p = p;
    t->ntd++;
    return 0;
}
}

namespace {
void run_tls_dtors(Thr* t) {
    while (t->ntd) {
        TlsDtor d = t->td[--t->ntd];
        d.f(d.p);
    }
}
// --- mutex
void lock_impl(pthread_mutex_t* m) {
    InRt g;
    Obj* o = obj(m, 0);
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (o->owner == me->id + 1 && !rec)
        reportf("T%d locks a mutex it already holds", me->id);
    at(K_LOCK, o);
    o->owner = me->id + 1;
    o->depth++;
    me->vc.join(o->vc);
    ev(K_LOCK, o, true);
}
int unlock_impl(pthread_mutex_t* m) {
    InRt g;
    Obj* o = obj(m, 0);
    if (o->owner != me->id + 1)
        reportf("T%d unlocks a mutex it does not hold", me->id);
    if (precise_unlock) at(K_UNLOCK, o);
    me->variant = 0;
    o->vc = me->vc;
    ev(K_UNLOCK, o, true);
    if (--o->depth == 0) o->owner = 0;
    return 0;
}
void unqueue(Obj* o, int t) {
    int j = 0;
    for (int i = 0; i < o->nwait; ++i)
        if (o->wait[i] != t) o->wait[j++] = o->wait[i];
    o->nwait = j;
}
int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    InRt g;
    Obj* o = obj(c, 1);
    Obj* mo = obj(m, 0);
    if (mo->owner != me->id + 1)
        reportf("T%d waits on a condition without holding the mutex", me->id);
    at(K_CWAIT, o);
    ev(K_CWAIT, o, true);
    o->wait[o->nwait++] = u8(me->id);
    me->woken = false;
    me->timed = timed;
    me->variant = 0;
    mo->vc = me->vc;
    ev(K_UNLOCK, mo, true);
    if (mo->depth != 1) report("condition wait on a recursively held mutex");
    mo->depth = 0;
    mo->owner = 0;
    me->mtx = mo;
    at(K_CBLOCK, o);
    bool to = me->variant == 1 && !me->woken;
    if (to) {
        ev(K_CBLOCK, o, true);
        unqueue(o, me->id);
    } else {
        ev(K_CBLOCK, 0, false);
    }
    me->variant = 0;
    mo->owner = me->id + 1;
    mo->depth = 1;
    me->vc.join(mo->vc);
    ev(K_LOCK, mo, true);
    return to && timed ? ETIMEDOUT : 0;
}
int signal_impl(pthread_cond_t* c, bool all) {
    InRt g;
    Obj* o = obj(c, 1);
    at(all ? K_BCAST : K_SIGNAL, o);
    ev(all ? K_BCAST : K_SIGNAL, o, true);
    if (all) {
        for (int i = 0; i < o->nwait; ++i) {
            T[o->wait[i]].woken = true;
            T[o->wait[i]].h = H(T[o->wait[i]].h, me->h);
        }
        o->nwait = 0;
    } else if (o->nwait) {
        u8 z[MAXT] = {0};
        int p = decide(o->nwait, z, z, me->id);
        int w = o->wait[p];
        T[w].woken = true;
        T[w].h = H(T[w].h, me->h + u64(p));
        me->h = H(me->h, u64(p) + 3);
        unqueue(o, w);
    }
    return 0;
}
// --- atomics
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
// reference counts of the standard library's smart pointers
bool refcount(const void* pc) {
    static const void* seen[256];
    static u8 val[256];
    static const void* prev = 0;
    (void)prev;
    size_t i = mix(uptr(pc)) & 255;
    if (seen[i] == pc) return val[i];
    const char* s = sym(pc);
    bool r = strstr(s, "_Sp_counted") || strstr(s, "__shared_count") ||
             strstr(s, "_Sp_atomic") || strstr(s, "__exchange_and_add") ||
             strstr(s, "__atomic_add");
    seen[i] = pc;
    val[i] = r;
    return r;
}
void atomic_pre(Obj*& o, const volatile void* p, int k, const void* pc, bool& ref) {
    ref = refcount(pc);
    o = obj(const_cast<const void*>(p), 2);
    uptr a = uptr(p);
    if (in_arena(a)) {
        if (astate[(a - uptr(arena)) / 16] != 1)
            reportf("atomic access to %s memory in %s by T%d",
                    astate[(a - uptr(arena)) / 16] == 2 ? "freed" : "unallocated",
                    sym(pc), me->id);
    }
    if (!ref) at(k, o);
    // scheduling may have let somebody free it
    if (in_arena(a) && astate[(a - uptr(arena)) / 16] != 1)
        reportf("atomic access to freed memory in %s by T%d", sym(pc), me->id);
}
void atomic_sync_load(Obj* o, int mo) {
    if (acq(mo)) me->vc.join(o->vc);
    else me->acqf.join(o->vc);
}
void atomic_sync_store(Obj* o, int mo, bool rmw) {
    VC v;
    if (rel(mo)) v = me->vc;
    else v = me->relf;
    if (rmw) o->vc.join(v);
    else o->vc = v;
}
inline void shadow_atomic(uptr a, size_t n, bool w, const void* pc) {
    // only conflicts with plain accesses are of interest: atomics are ordered
    // by themselves, so they are checked but not recorded as plain accesses
    Thr* t = me;
    u8 mask = u8(((1u << n) - 1) << (a & 7));
    size_t i = mix(a >> 3) & (NG - 1);
    while (shadow[i].a) {
        if (shadow[i].a == a >> 3) {
            for (int k = 0; k < NC; ++k) {
                Cell& c = shadow[i].c[k];
                if (!c.used || c.tid == t->id || !(c.mask & mask)) continue;
                if (c.clk > t->vc.c[c.tid] && (w || c.w))
                    reportf("data race: atomic %s in %s by T%d, unordered with "
                            "plain %s by T%d", w ? "write" : "read", sym(pc),
                            t->id, c.w ? "write" : "read", c.tid);
            }
            return;
        }
        i = (i + 1) & (NG - 1);
    }
}
}  // namespace

#define PC __builtin_return_address(0)
template <typename V>
static V a_load(const volatile V* p, int mo, const void* pc) {
    if (!managed()) return *p;
    InRt g;
    Obj* o;
    bool ref;
    atomic_pre(o, p, K_ALOAD, pc, ref);
    shadow_atomic(uptr(p), sizeof(V), false, pc);
    atomic_sync_load(o, mo);
    if (!ref) ev(K_ALOAD, o, false);
    return *p;
}
template <typename V>
static void a_store(volatile V* p, V v, int mo, const void* pc) {
    if (!managed()) {
        *p = v;
        return;
    }
    InRt g;
    Obj* o;
    bool ref;
    atomic_pre(o, p, K_ASTORE, pc, ref);
    shadow_atomic(uptr(p), sizeof(V), true, pc);
    atomic_sync_store(o, mo, false);
    *p = v;
    if (!ref) ev(K_ASTORE, o, true);
    else me->vc.c[me->id]++;
}
template <typename V, typename Op>
static V a_rmw(volatile V* p, int mo, const void* pc, Op op) {
    if (!managed()) {
        V old = *p;
        *p = op(old);
        return old;
    }
    InRt g;
    Obj* o;
    bool ref;
    atomic_pre(o, p, K_ARMW, pc, ref);
    shadow_atomic(uptr(p), sizeof(V), true, pc);
    atomic_sync_load(o, mo);
    V old = *p;
    *p = op(old);
    atomic_sync_store(o, mo, true);
    if (!ref) ev(K_ARMW, o, true);
    else me->vc.c[me->id]++;
    return old;
}
template <typename V>
static int a_cas(volatile V* p, V* e, V d, int mo, int fmo, const void* pc) {
    if (!managed()) {
        if (*p == *e) {
            *p = d;
            return 1;
        }
        *e = *p;
        return 0;
    }
    InRt g;
    Obj* o;
    bool ref;
    atomic_pre(o, p, K_ARMW, pc, ref);
    shadow_atomic(uptr(p), sizeof(V), true, pc);
    V old = *p;
    if (old == *e) {
        atomic_sync_load(o, mo);
        *p = d;
        atomic_sync_store(o, mo, true);
        if (!ref) ev(K_ARMW, o, true);
        else me->vc.c[me->id]++;
        return 1;
    }
    atomic_sync_load(o, fmo);
    if (!ref) ev(K_ALOAD, o, false);
    *e = old;
    return 0;
}
#define ATOMICS(N, V)                                                          \
    V __tsan_atomic##N##_load(const volatile V* p, int mo) {                   \
        return a_load<V>(p, mo, PC);                                           \
    }                                                                          \
    void __tsan_atomic##N##_store(volatile V* p, V v, int mo) {                \
        a_store<V>(p, v, mo, PC);                                              \
    }                                                                          \
    V __tsan_atomic##N##_exchange(volatile V* p, V v, int mo) {                \
        return a_rmw<V>(p, mo, PC, [v](V) { return v; });                      \
    }                                                                          \
    V __tsan_atomic##N##_fetch_add(volatile V* p, V v, int mo) {               \
        return a_rmw<V>(p, mo, PC, [v](V x) { return V(x + v); });             \
    }                                                                          \
    V __tsan_atomic##N##_fetch_sub(volatile V* p, V v, int mo) {               \
        return a_rmw<V>(p, mo, PC, [v](V x) { return V(x - v); });             \
    }                                                                          \
    V __tsan_atomic##N##_fetch_and(volatile V* p, V v, int mo) {               \
        return a_rmw<V>(p, mo, PC, [v](V x) { return V(x & v); });             \
    }                                                                          \
    V __tsan_atomic##N##_fetch_or(volatile V* p, V v, int mo) {                \
        return a_rmw<V>(p, mo, PC, [v](V x) { return V(x | v); });             \
    }                                                                          \
    V __tsan_atomic##N##_fetch_xor(volatile V* p, V v, int mo) {               \
        return a_rmw<V>(p, mo, PC, [v](V x) { return V(x ^ v); });             \
    }                                                                          \
    V __tsan_atomic##N##_fetch_nand(volatile V* p, V v, int mo) {              \
        return a_rmw<V>(p, mo, PC, [v](V x) { return V(~(x & v)); });          \
    }                                                                          \
    int __tsan_atomic##N##_compare_exchange_strong(volatile V* p, V* e, V d,   \
                                                   int mo, int fmo) {          \
        return a_cas<V>(p, e, d, mo, fmo, PC);                                 \
    }                                                                          \
    int __tsan_atomic##N##_compare_exchange_weak(volatile V* p, V* e, V d,     \
                                                 int mo, int fmo) {            \
        return a_cas<V>(p, e, d, mo, fmo, PC);                                 \
    }                                                                          \
    V __tsan_atomic##N##_compare_exchange_val(volatile V* p, V e, V d, int mo, \
                                              int fmo) {                       \
        a_cas<V>(p, &e, d, mo, fmo, PC);                                       \
        return e;                                                              \
    }
extern "C" {
typedef __int128 i128;
ATOMICS(8, u8)
ATOMICS(16, uint16_t)
ATOMICS(32, u32)
ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    if (!managed()) return;
    if (acq(mo)) me->vc.join(me->acqf);
    if (rel(mo)) {
        me->relf = me->vc;
        me->vc.c[me->id]++;
    }
}
void __tsan_atomic_signal_fence(int) {}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PLAIN(N)                                                             \
    void __tsan_read##N(void* p) { access(uptr(p), N, false, PC); }          \
    void __tsan_write##N(void* p) { access(uptr(p), N, true, PC); }          \
    void __tsan_unaligned_read##N(void* p) { access(uptr(p), N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(uptr(p), N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access(uptr(p), N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access(uptr(p), N, true, PC); }
PLAIN(1)
PLAIN(2)
PLAIN(4)
PLAIN(8)
PLAIN(16)
void __tsan_read_range(void* p, size_t n) { access(uptr(p), n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(uptr(p), n, true, PC); }
void __tsan_vptr_update(void** p, void* v) {
    // storing the same vptr again (destructors) is not a write of interest
    if (managed() && *p != v) access(uptr(p), 8, true, PC);
}
void __tsan_vptr_read(void** p) { access(uptr(p), 8, false, PC); }

// ---------------------------------------------------------------- pthreads
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at_) {
    memset(m, 0, sizeof *m);
    if (at_) {
        int k = 0;
        pthread_mutexattr_gettype(at_, &k);
        m->__data.__kind = k;
    }
    if (managed()) {
        InRt g;
        forget(m, 0);
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (managed()) {
        InRt g;
        if (obj(m, 0)->owner) report("a locked mutex is destroyed");
        forget(m, 0);
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (managed()) lock_impl(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!managed()) return 0;
    InRt g;
    precise_unlock = true;
    Obj* o = obj(m, 0);
    at(K_TRYLOCK, o);
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (o->owner && !(rec && o->owner == me->id + 1)) {
        ev(K_TRYLOCK, o, false, 1);
        return EBUSY;
    }
    o->owner = me->id + 1;
    o->depth++;
    me->vc.join(o->vc);
    ev(K_TRYLOCK, o, true);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
    return pthread_mutex_lock(m);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) {
    return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (managed()) unlock_impl(m);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
    memset(c, 0, sizeof *c);
    if (managed()) {
        InRt g;
        forget(c, 1);
    }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (managed()) {
        InRt g;
        if (obj(c, 1)->nwait)
            report("a condition variable is destroyed while threads wait on it");
        forget(c, 1);
    }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    return managed() ? cond_wait_impl(c, m, false) : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec*) {
    return managed() ? cond_wait_impl(c, m, true) : ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t,
                           const struct timespec*) {
    return managed() ? cond_wait_impl(c, m, true) : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) {
    return managed() ? signal_impl(c, false) : 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    return managed() ? signal_impl(c, true) : 0;
}
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) {
    memset(m, 0, sizeof *m);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!managed()) return 0;
    InRt g;
    Obj* o = obj(m, 3);
    at(K_RDLOCK, o);
    o->depth++;
    me->vc.join(o->vc);
    ev(K_RDLOCK, o, true);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!managed()) return 0;
    InRt g;
    Obj* o = obj(m, 3);
    at(K_WRLOCK, o);
    o->owner = me->id + 1;
    me->vc.join(o->vc);
    ev(K_WRLOCK, o, true);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!managed()) return 0;
    InRt g;
    Obj* o = obj(m, 3);
    me->variant = 0;
    o->vc.join(me->vc);
    ev(K_RWUNLOCK, o, true);
    if (o->owner == me->id + 1) o->owner = 0;
    else if (o->depth) o->depth--;
    return 0;
}
// the unwinder's own initialisation is not part of the program
static bool foreign_once(const void* c) {
    static const void* known = 0;
    if (c == known) return true;
    if (in_arena(uptr(c))) return false;
    Dl_info i;
    InRt g;
    if (!dladdr(c, &i) || !i.dli_fname || !strstr(i.dli_fname, "libgcc"))
        return false;
    known = c;
    return true;
}
int pthread_once(pthread_once_t* c, void (*f)()) {
    if (!managed() || foreign_once(c)) {
        if (*c == 0) {
            *c = 1;
            f();
            *c = 2;
        }
        return 0;
    }
    Obj* o;
    {
        InRt g;
        o = obj(c, 0);
        if (o->owner == me->id + 1) report("recursive call of once");
        at(K_ONCE, o);
        me->vc.join(o->vc);
        ev(K_ONCE, o, true);
        if (*c == 2) return 0;
        o->owner = me->id + 1;
    }
    struct Undo {
        Obj* o;
        bool armed;
        ~Undo() {
            if (armed) o->owner = 0;
        }
    } u = {o, true};
    f();
    {
        InRt g;
        u.armed = false;
        *c = 2;
        me->variant = 0;
        o->vc.join(me->vc);
        ev(K_ONCEDONE, o, true);
        o->owner = 0;
    }
    return 0;
}
int __cxa_guard_acquire(u64* gv) {
    u8* b = reinterpret_cast<u8*>(gv);
    if (!managed()) return *b ? 0 : 1;
    InRt g;
    Obj* o = obj(gv, 0);
    if (o->owner == me->id + 1) report("recursive initialisation of a static");
    at(K_GUARD, o);
    me->vc.join(o->vc);
    ev(K_GUARD, o, true);
    if (*b) return 0;
    o->owner = me->id + 1;
    return 1;
}
void __cxa_guard_release(u64* gv) {
    u8* b = reinterpret_cast<u8*>(gv);
    if (!managed()) {
        *b = 1;
        return;
    }
    InRt g;
    Obj* o = obj(gv, 0);
    *b = 1;
    me->variant = 0;
    o->vc.join(me->vc);
    // the inline test of the guard byte is an acquire load
    Obj* a = obj(gv, 2);
    a->vc.join(me->vc);
    ev(K_GUARDDONE, o, true);
    ev(K_ASTORE, a, true);
    o->owner = 0;
}
void __cxa_guard_abort(u64* gv) {
    if (!managed()) return;
    InRt g;
    Obj* o = obj(gv, 0);
    me->variant = 0;
    o->vc.join(me->vc);
    ev(K_GUARDDONE, o, true);
    o->owner = 0;
}

static void* trampoline(void* v) {
    Thr* t = static_cast<Thr*>(v);
    me = t;
    ++inrt;
    wait_token(t);
    t->started = true;
    ev(K_START, 0, false);
    --inrt;
    t->ret = t->fn(t->arg);
    run_tls_dtors(t);
    ++inrt;
    at(K_EXIT, 0);
    ev(K_EXIT, 0, false);
    t->finished = true;
    schedule();
    return t->ret;
}
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*),
                   void* arg) {
    static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    if (!managed()) return EAGAIN;
    InRt g;
    if (!real)
        real = reinterpret_cast<int (*)(pthread_t*, const pthread_attr_t*,
                                        void* (*)(void*), void*)>(
            dlsym(RTLD_NEXT, "pthread_create"));
    if (sc->create_fail > used_fail) {
        u8 z[2] = {0, 0};
        if (decide(2, z, z, me->id)) {
            ++used_fail;
            me->variant = 1;
            ev(K_CREATE, 0, false, 5);
            return EAGAIN;
        }
        me->h = H(me->h, 78);  // not the state of the next decision
    }
    at(K_CREATE, 0);
    if (nthr >= MAXT) report("model checker: too many threads");
    Thr* t = &T[nthr];
    memset(t, 0, sizeof *t);
    t->id = nthr;
    t->fn = fn;
    t->arg = arg;
    t->kind = K_START;
    t->slo = uptr(stacks) + STACK * size_t(nthr);
    t->shi = t->slo + STACK;
    t->sp = t->slo;
    ev(K_CREATE, 0, false);
    t->vc = me->vc;
    me->vc.c[me->id]++;
    t->h = H(me->h, 99);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    pthread_attr_setstack(&a, reinterpret_cast<void*>(t->slo), STACK);
    int d = 0;
    if (attr) pthread_attr_getdetachstate(attr, &d);
    int r = real(&t->real, &a, trampoline, t);
    if (r) report("model checker: cannot create a thread");
    t->used = true;
    ++nthr;
    *out = t->real;
    return 0;
}
static Thr* by_handle(pthread_t h) {
    for (int i = 0; i < nthr; ++i)
        if (T[i].used && pthread_equal(T[i].real, h)) return &T[i];
    return 0;
}
int pthread_join(pthread_t h, void** ret) {
    if (!managed()) return 0;
    InRt g;
    Thr* t = by_handle(h);
    if (!t) report("join of an unknown thread");
    if (t == me) return EDEADLK;
    me->target = t->id;
    at(K_JOIN, 0);
    me->vc.join(t->vc);
    ev(K_JOIN, 0, false, u64(t->id));
    me->h = H(me->h, t->h);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
static void yield_impl(int k) {
    InRt g;
    me->yielded = true;
    at(k, 0);
    me->yielded = false;
    ev(k, 0, false);
}
int sched_yield() {
    if (managed()) yield_impl(K_YIELD);
    else raw(SYS_sched_yield);
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (managed()) {
        yield_impl(K_SLEEP);
        return 0;
    }
    return int(raw(SYS_nanosleep, long(a), long(b)));
}
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) {
    return nanosleep(a, b);
}
int usleep(useconds_t us) {
    struct timespec t = {us / 1000000, long(us % 1000000) * 1000};
    return nanosleep(&t, 0);
}
long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && managed()) {
        InRt g;
        int op = int(a[1]) & 127;
        int* p = reinterpret_cast<int*>(a[0]);
        Obj* o = obj(p, 1);
        Obj* ao = obj(p, 2);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            at(K_FWAIT, o);
            ev(K_FWAIT, ao, false);
            ev(K_FWAIT, o, true);
            if (*p != int(a[2])) {
                errno = EAGAIN;
                return -1;
            }
            o->wait[o->nwait++] = u8(me->id);
            me->woken = false;
            me->timed = a[3] != 0;
            at(K_FBLOCK, o);
            bool to = me->variant == 1 && !me->woken;
            if (to) {
                ev(K_FBLOCK, o, true);
                unqueue(o, me->id);
                bool tm = me->timed;
                me->variant = 0;
                errno = tm ? ETIMEDOUT : EINTR;
                return -1;
            }
            ev(K_FBLOCK, 0, false);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            at(K_FWAKE, o);
            ev(K_FWAKE, o, true);
            int k = 0;
            while (o->nwait && k < int(a[2])) {
                int w = o->wait[0];
                T[w].woken = true;
                T[w].h = H(T[w].h, me->h + u64(k));
                unqueue(o, w);
                ++k;
            }
            return k;
        }
    }
    long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = int(-r);
        return -1;
    }
    return r;
}

// ---------------------------------------------------------------- scenario API
void mc_fail(const char* fmt, ...) {
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    report(b);
}
void mc_outcome(uint64_t h) {
    InRt g;
    slock();
    bool bad = S->have_outcome && S->outcome != h;
    if (!S->have_outcome) {
        S->outcome = h;
        S->have_outcome = 1;
    }
    sunlock();
    if (bad) report("the result depends on the schedule");
}
void mc_note(uint64_t h) {
    InRt g;
    slock();
    int i = 0;
    for (; i < S->nnotes; ++i)
        if (S->notes[i] == h) break;
    if (i == S->nnotes && i < 64) S->notes[S->nnotes++] = h;
    sunlock();
}
void mc_quiet(bool on) { quiet = on; }
int mc_tid() { return me ? me->id : -1; }
int mc_choose(int n) {
    InRt g;
    u8 z[64] = {0};
    int p = decide(n, z, z, me->id);
    me->variant = 0;
    ev(K_CHOOSE, 0, false, u64(p));
    return p;
}
void mc_point() {
    if (!managed()) return;
    InRt g;
    at(K_POINT, 0);
    ev(K_POINT, 0, false);
}
}

// ====================================================================== driver
namespace {
template <typename V>
V* anon(size_t bytes, bool shared) {
    void* p = mmap(0, bytes, PROT_READ | PROT_WRITE,
                   (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE,
                   -1, 0);
    if (p == MAP_FAILED) _exit(97);
    return static_cast<V*>(p);
}
void runtime_init() {
    arena = anon<u8>(ARENA, false);
    astate = anon<u8>(ARENA / 16, false);
}
void last_exit() {
    // registered first, hence runs after all static destructors
    ++inrt;
    if (!active) return;
    for (int i = 1; i < nthr; ++i)
        if (T[i].used && !T[i].finished)
            reportf("T%d still runs after the end of the program", i);
    __atomic_fetch_add(&S->complete, 1, __ATOMIC_RELAXED);
    if (clen > S->deep) S->deep = clen;
    if (S->nsample < 4 && S->execs % 7 == 1) {
        slock();
        int n = S->nsample;
        if (n < 4) {
            size_t k = 0;
            k = app(S->sample[n], k, 600, "%s:", sc->name);
            for (u32 i = 0; i < ntrace && k < 560; ++i)
                k = app(S->sample[n], k, 600, " T%d:%s", trace[i].t, KN[trace[i].k]);
            S->nsample = n + 1;
        }
        sunlock();
    }
    finish_exec(0);
}
void on_crash(int s) {
    ++inrt;
    signal(s, SIG_DFL);
    reportf("signal %d (%s) in T%d", s, strsignal(s), me ? me->id : -1);
}
void child() {
    // one execution
    objs = anon<Obj>(sizeof(Obj) * NOBJ, false);
    shadow = anon<Gran>(sizeof(Gran) * NG, false);
    trace = anon<Ev>(sizeof(Ev) * MAXEV, false);
    stacks = anon<u8>(STACK * MAXT, false);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_crash;
    static u8 alt[65536];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, 0);
    sa.sa_flags = SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
    sigaction(SIGFPE, &sa, 0);
    sigaction(SIGILL, &sa, 0);
    sigaction(SIGABRT, &sa, 0);
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    if (!replay_print) dup2(fd, 2);
    alarm(40);
    atexit(last_exit);
    Thr* t = &T[0];
    memset(t, 0, sizeof *t);
    nthr = 1;
    t->used = t->started = true;
    t->tok = 1;
    t->kind = K_START;
    t->shi = uptr(__builtin_frame_address(0)) + (64 << 10);
    t->slo = t->shi - (8 << 20);
    t->h = 12345;
    t->vc.c[0] = 1;
    t->real = pthread_self();
    me = t;
    active = true;
    sc->run();
    run_tls_dtors(t);
    if (sc->via_exit) exit(0);
    last_exit();
}
void runner(int cpu) {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(cpu, &cs);
    sched_setaffinity(0, sizeof cs, &cs);
    static u8 c[MAXCH];
    u32 len = 0;
    for (;;) {
        int r = pop(c, &len);
        if (r < 0) return;
        if (r == 0) {
            struct timespec t = {0, 200000};
            raw(SYS_nanosleep, long(&t), 0);
            continue;
        }
        memcpy(sched_, c, len);
        plen = len;
        pid_t p = fork();
        if (p == 0) {
            child();
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        __atomic_fetch_add(&S->execs, 1, __ATOMIC_RELAXED);
        if (!S->stop && (!WIFEXITED(st) || WEXITSTATUS(st) > 1)) {
            slock();
            int n = S->nviol;
            if (n < 4) {
                snprintf(S->viol[n], sizeof S->viol[n], "execution ended with %s %d%s",
                         WIFEXITED(st) ? "code" : "signal",
                         WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st),
                         WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM
                             ? " (no termination)" : "");
                memcpy(S->vsched[n], c, len);
                S->vlen[n] = len;
                S->nviol = n + 1;
                S->stop = 1;
            }
            sunlock();
        }
        slock();
        S->active--;
        sunlock();
    }
}
void json(const char* s) {
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') putchar('\\');
        putchar(*s == '\n' ? ' ' : *s);
    }
}
}  // namespace

int mc_main(int argc, char** argv, McScenario* s, size_t n) {
    // fixed addresses make executions reproducible
    if (!getenv("MCRT_FIXED")) {
        personality(ADDR_NO_RANDOMIZE);
        setenv("MCRT_FIXED", "1", 1);
        execv("/proc/self/exe", argv);
    }
    bool thorough = false, light = false;
    const char* only = 0;
    const char* sched = 0;
    int pre = -2;
    double scale = 1;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--thorough")) thorough = true;
        if (!strcmp(argv[i], "--light")) light = true;
        if (!strcmp(argv[i], "--only") && i + 1 < argc) only = argv[i + 1];
        if (!strcmp(argv[i], "--schedule") && i + 1 < argc) sched = argv[i + 1];
        if (!strcmp(argv[i], "--preempt") && i + 1 < argc) pre = atoi(argv[i + 1]);
        if (!strcmp(argv[i], "--budget") && i + 1 < argc) scale = atof(argv[i + 1]);
        if (!strcmp(argv[i], "--list")) {
            for (size_t k = 0; k < n; ++k) puts(s[k].name);
            return 0;
        }
    }
    double total = thorough ? 3600 : 260, began = now();
    nocache = getenv("MCRT_NOCACHE") != 0;
    cpu_set_t cs;
    sched_getaffinity(0, sizeof cs, &cs);
    int cpus[64], nc = 0;
    for (int i = 0; i < CPU_SETSIZE && nc < 8; ++i)
        if (CPU_ISSET(i, &cs)) cpus[nc++] = i;
    S = anon<Shared>(sizeof(Shared), true);
    table = anon<Slot>(sizeof(Slot) * NSLOT, true);
    pool = anon<u8>(POOLB, true);
    u64 states = 0, events = 0, execs = 0, complete = 0;
    int bad = 0, incomplete = 0, ran = 0;
    static char detail[120000];
    size_t dk = 0;
    detail[0] = 0;
    static char samp[12][600];
    int nsamp = 0;
    for (size_t k = 0; k < n; ++k) {
        if (only && strcmp(only, s[k].name)) continue;
        sc = &s[k];
        if (sc->deep && !thorough && !only) continue;
        if (thorough && sc->preempt >= 0 && !sc->deep) sc->preempt++;
        if (light) sc->preempt = sc->preempt < 0 ? 2 : sc->preempt ? sc->preempt - 1 : 0;
        if (pre != -2) sc->preempt = pre;
        double limit = sc->budget * scale * (thorough ? 2 : 1);
        double rest = total - (now() - began);
        if (limit > rest) limit = rest < 3 ? 3 : rest;
        ++ran;
        memset(S, 0, sizeof *S);
        madvise(table, sizeof(Slot) * NSLOT, MADV_REMOVE);
        madvise(pool, POOLB, MADV_REMOVE);
        u8 c0[MAXCH];
        u32 l0 = 0;
        if (sched) {  // replay of one schedule: hex digits pairs
            for (const char* q = sched; q[0] && q[1]; q += 2) {
                char x[3] = {q[0], q[1], 0};
                c0[l0++] = u8(strtol(x, 0, 16));
            }
        }
        push(c0, l0);
        fflush(stdout);
        double t0 = now();
        pid_t ps[64];
        for (int i = 0; i < nc; ++i) {
            ps[i] = fork();
            if (ps[i] == 0) {
                runner(cpus[i]);
                _exit(0);
            }
        }
        bool over = false;
        int left = nc;
        while (left) {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                --left;
                continue;
            }
            if (now() - t0 > limit && !S->stop) {
                S->stop = 1;
                over = true;
            }
            struct timespec t = {0, 2000000};
            raw(SYS_nanosleep, long(&t), 0);
        }
        double dt = now() - t0;
        states += S->states;
        events += S->events;
        execs += S->execs;
        complete += S->complete;
        bool viol = S->nviol > 0;
        if (viol != sc->must_fail) ++bad;
        for (int i = 0; i < S->nviol && !sc->must_fail; ++i) {
            printf("VIOL scenario=%s %.1500s | schedule=", sc->name, S->viol[i]);
            for (u32 j = 0; j < S->vlen[i]; ++j) printf("%02x", S->vsched[i][j]);
            printf("\n");
        }
        if (sc->must_fail && !viol)
            printf("VIOL self test %s: expected violation not found\n", sc->name);
        if (!viol && S->complete == 0)
            printf("VIOL scenario=%s no execution completed\n", sc->name), ++bad;
        if (over || S->truncated || S->full) ++incomplete;
        dk = app(detail, dk, sizeof detail,
                 "%s{\"scenario\": \"%s\", \"preemptions\": %d, \"delay_bound\": %s, \"spurious\": %d, "
                 "\"schedules\": %llu, \"complete\": %llu, \"pruned\": %llu, "
                 "\"states\": %llu, \"events\": %llu, \"accesses\": %llu, "
                 "\"outcomes\": %d, \"deepest\": %llu, \"exhausted\": %s, "
                 "\"expected_violation\": %s, \"limit\": \"%s\", \"s\": %.1f}",
                 dk ? ", " : "", sc->name, sc->preempt, sc->delay ? "true" : "false",
                 sc->spurious,
                 (unsigned long long)S->execs, (unsigned long long)S->complete,
                 (unsigned long long)S->pruned, (unsigned long long)S->states,
                 (unsigned long long)S->events, (unsigned long long)S->racechk,
                 S->nnotes, (unsigned long long)S->deep,
                 over || S->truncated || S->full ? "false" : "true",
                 sc->must_fail ? "true" : "false", S->limit, dt);
        for (int i = 0; i < S->nsample && nsamp < 12 && i < 1; ++i)
            memcpy(samp[nsamp++], S->sample[i], 600);
        if (bad) break;
    }
    printf("STATS {\"states\": %llu, \"transitions\": %llu, \"traces\": %llu, "
           "\"schedules\": %llu, \"violations\": %d, \"incomplete\": %d, "
           "\"scenarios\": [%s], \"samples\": [",
           (unsigned long long)states, (unsigned long long)events,
           (unsigned long long)complete, (unsigned long long)execs, bad, incomplete,
           detail);
    for (int i = 0; i < nsamp; ++i) {
        printf("%s\"", i ? ", " : "");
        json(samp[i]);
        printf("\"");
    }
    printf("]}\n");
    fflush(stdout);
    return bad ? 1 : ran ? 0 : 2;
}
