// C13 (tasks) and C14 (start-up and shut-down) on the real thread pool.
#include "mcrt.hpp"
#include "DedicatedThreadPool.hpp"
#include <condition_variable>
#include <cstdlib>
#include <memory>
#include <string>
#include <system_error>

using intp::DedicatedThreadPool;

namespace {
struct Ex {
    int code;
};
struct Part {  // number of pool threads and tasks of a scenario
    int w, n;
};
typedef DedicatedThreadPool<int> Pool;
typedef DedicatedThreadPool<void> VPool;

int ran[2048];       // executions per task
int begun[64], done[64];
int first_worker, last_worker;

void pool_range(int w) {
    first_worker = 1;
    last_worker = w;
}
void on_pool(int i) {
    int t = mc_tid();
    if (t < first_worker || t > last_worker)
        mc_fail("task %d runs on T%d, which is not a pool thread", i, t);
}
struct Task {
    int i;
    int operator()() {
        on_pool(i);
        ++ran[i];
        return 100 + i;
    }
};
void expect(std::future<int>& f, int i) {
    int v = f.get();
    if (v != 100 + i) mc_fail("future of task %d holds %d", i, v);
    if (ran[i] != 1) mc_fail("task %d ran %d times", i, ran[i]);
}

// ------------------------------------------------------------------ C13
template <int W, int N, bool Reverse>
void tasks() {
    pool_range(W);
    Pool& p = Pool::get_instance(W);
    std::vector<std::future<int>> f;
    for (int i = 0; i < N; ++i) f.push_back(p.queue_task(Task{i}));
    for (int k = 0; k < N; ++k) {
        int i = Reverse ? N - 1 - k : k;
        expect(f[size_t(i)], i);
    }
    if (p.thread_num() != size_t(W)) mc_fail("thread_num() = %zu", p.thread_num());
    if (!p.is_main_queue_empty()) mc_fail("main queue not empty after all tasks");
}
// submit one after another: workers fall asleep in between
template <int W, int N>
void rounds() {
    pool_range(W);
    Pool& p = Pool::get_instance(W);
    for (int i = 0; i < N; ++i) {
        std::future<int> f = p.queue_task(Task{i});
        expect(f, i);
    }
}
template <int W, int N, int Mask>
void throwing() {
    pool_range(W);
    Pool& p = Pool::get_instance(W);
    std::vector<std::future<int>> f;
    for (int i = 0; i < N; ++i)
        f.push_back(p.queue_task([i]() -> int {
            on_pool(i);
            ++ran[i];
            if (Mask >> i & 1) throw Ex{1000 + i};
            return 100 + i;
        }));
    for (int i = 0; i < N; ++i) {
        if (Mask >> i & 1) {
            bool ok = false;
            try {
                f[size_t(i)].get();
            } catch (const Ex& e) { ok = e.code == 1000 + i; }
            if (!ok) mc_fail("exception of task %d lost", i);
            if (ran[i] != 1) mc_fail("task %d ran %d times", i, ran[i]);
        } else {
            expect(f[size_t(i)], i);
        }
    }
    std::future<int> g = p.queue_task(Task{N});  // the pool still works
    expect(g, N);
}
template <int W>
void nested() {
    pool_range(W);
    Pool& p = Pool::get_instance(W);
    std::future<int> inner;
    std::future<int> f = p.queue_task([&p, &inner]() -> int {
        on_pool(0);
        ++ran[0];
        inner = p.queue_task(Task{1});
        return 100;
    });
    std::future<int> g = p.queue_task(Task{2});
    expect(f, 0);
    expect(inner, 1);
    expect(g, 2);
}
template <int W>
void nested_chain() {  // two levels, void results
    pool_range(W);
    VPool& p = VPool::get_instance(W);
    std::future<void> b, c;
    std::future<void> a = p.queue_task([&] {
        on_pool(0);
        ++ran[0];
        b = p.queue_task([&] {
            on_pool(1);
            ++ran[1];
            c = p.queue_task([&] {
                on_pool(2);
                ++ran[2];
            });
        });
    });
    a.get();
    b.get();
    c.get();
    for (int i = 0; i < 3; ++i)
        if (ran[i] != 1) mc_fail("task %d ran %d times", i, ran[i]);
}
template <int W, int N>
void submitters() {  // the main thread and another one
    pool_range(W);
    Pool& p = Pool::get_instance(W);
    std::thread t([&p] {
        for (int i = 0; i < N; ++i) {
            std::future<int> f = p.queue_task(Task{i});
            expect(f, i);
        }
    });
    std::vector<std::future<int>> f;
    for (int i = N; i < 2 * N; ++i) f.push_back(p.queue_task(Task{i}));
    (void)p.is_main_queue_empty();
    (void)p.thread_num();
    for (int i = N; i < 2 * N; ++i) expect(f[size_t(i - N)], i);
    t.join();
}
void first_use() {  // the pool is created by whoever comes first
    std::future<int> f, g;
    Pool* a = nullptr;
    std::thread t([&] {
        a = &Pool::get_instance(1);
        g = a->queue_task([] {
            ++ran[0];
            return 100;
        });
        expect(g, 0);
    });
    Pool& p = Pool::get_instance(1);
    f = p.queue_task([] {
        ++ran[1];
        return 101;
    });
    expect(f, 1);
    t.join();
    if (a != &p) mc_fail("get_instance() gives different pools");
    if (p.thread_num() != 1) mc_fail("thread_num() = %zu", p.thread_num());
}
void two_pools() {  // pools of different result types
    Pool& p = Pool::get_instance(1);
    VPool& q = VPool::get_instance(1);
    int got = 0;
    std::future<int> f = p.queue_task([] {
        if (mc_tid() != 1) mc_fail("task on T%d instead of T1", mc_tid());
        ++ran[0];
        return 100;
    });
    std::future<void> g = q.queue_task([&got] {
        if (mc_tid() != 2) mc_fail("task on T%d instead of T2", mc_tid());
        got = 7;
    });
    g.get();
    if (got != 7) mc_fail("void task did not run");
    expect(f, 0);
}
struct MoveOnly {
    std::unique_ptr<int> v;
    MoveOnly(int k) : v(new int(k)) {}
    MoveOnly(MoveOnly&&) = default;
    std::string operator()() {
        if (!v) mc_fail("task was moved from");
        return std::string(40, char('a' + *v));
    }
};
void move_only() {  // callable and result with resources of their own
    typedef DedicatedThreadPool<std::string> P;
    P& p = P::get_instance(2);
    std::future<std::string> f = p.queue_task(MoveOnly(0));
    std::future<std::string> g = p.queue_task(MoveOnly(1));
    if (f.get() != std::string(40, 'a') || g.get() != std::string(40, 'b'))
        mc_fail("wrong result");
}
void dropped() {  // nobody keeps the future: the task runs all the same
    pool_range(1);
    Pool& p = Pool::get_instance(1);
    p.queue_task(Task{0});
    std::future<int> f = p.queue_task(Task{1});
    std::future<int> g = p.queue_task(Task{2});
    expect(f, 1);
    expect(g, 2);
    std::future<int> h = p.queue_task(Task{3});
    expect(h, 3);
    mc_note(uint64_t(ran[0]));
}
template <int W, int N>
void waiters() {  // tasks that meet a thread outside the pool
    pool_range(W);
    Pool& p = Pool::get_instance(W);
    std::mutex m;
    std::condition_variable cv;
    bool go = false;
    std::vector<std::future<int>> f;
    for (int i = 0; i < N; ++i)
        f.push_back(p.queue_task([&, i]() -> int {
            std::unique_lock<std::mutex> lk(m);
            cv.wait(lk, [&] { return go; });
            ++ran[i];
            return 100 + i;
        }));
    {
        std::lock_guard<std::mutex> lk(m);
        go = true;
    }
    cv.notify_all();
    for (int i = 0; i < N; ++i) expect(f[size_t(i)], i);
}

// ------------------------------------------------------------------ C14
std::vector<std::future<int>>* left;
bool need_all = false;
// registered before the pool exists: runs after it is destroyed
void after() {
    for (size_t i = 0; i < left->size(); ++i) {
        std::future<int>& f = (*left)[i];
        if (!f.valid()) continue;
        if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready)
            mc_fail("future of task %zu is left hanging after shut-down", i);
        if (begun[i] != done[i])
            mc_fail("task %zu was started but not finished", i);
        if (begun[i] > 1) mc_fail("task %zu ran %d times", i, begun[i]);
        try {
            int v = f.get();
            if (v != 100 + int(i)) mc_fail("future of task %zu holds %d", i, v);
            if (begun[i] != 1)
                mc_fail("task %zu has a result without having run", i);
        } catch (const std::future_error& e) {
            if (e.code() != std::future_errc::broken_promise)
                mc_fail("task %zu: unexpected future error", i);
            if (begun[i])
                mc_fail("task %zu ran but its promise is broken", i);
        } catch (const Ex& e) {
            if (e.code != 1000 + int(i) || begun[i] != 1)
                mc_fail("task %zu: unexpected exception", i);
        }
    }
    uint64_t h = 0;
    for (size_t i = 0; i < left->size(); ++i) h = h * 2 + uint64_t(begun[i]);
    mc_note(h);
    delete left;
}
void prepare() {
    left = new std::vector<std::future<int>>;
    left->reserve(64);
    std::atexit(after);
}
struct Long {
    int i;
    bool thr;
    int operator()() {
        begun[i]++;
        mc_point();
        done[i]++;
        if (thr) throw Ex{1000 + i};
        return 100 + i;
    }
};
template <int W>
void startstop() {
    Pool& p = Pool::get_instance(W);
    if (p.thread_num() != size_t(W ? W : 8))
        mc_fail("thread_num() = %zu", p.thread_num());
}
template <int W, int N, int Thr>
void pending() {
    prepare();
    Pool& p = Pool::get_instance(W);
    for (int i = 0; i < N; ++i)
        left->push_back(p.queue_task(Long{i, i < 31 && (Thr >> i & 1) != 0}));
}
template <int W>
void one_done() {  // one task is finished, others are on their way
    prepare();
    Pool& p = Pool::get_instance(W);
    for (int i = 0; i < 3; ++i) left->push_back(p.queue_task(Long{i, false}));
    (*left)[1].wait();
}
template <int W>
void late_nested() {  // a task submits another one while the pool goes down
    prepare();
    Pool& p = Pool::get_instance(W);
    left->resize(2);
    (*left)[0] = p.queue_task([&p]() -> int {
        begun[0]++;
        (*left)[1] = p.queue_task(Long{1, false});
        done[0]++;
        return 100;
    });
}
template <int W>
void slept() {  // workers may sleep when shut-down begins
    prepare();
    Pool& p = Pool::get_instance(W);
    left->push_back(p.queue_task(Long{0, false}));
    (*left)[0].wait();
    mc_point();
}
void two_down() {
    Pool::get_instance(1);
    VPool::get_instance(1);
}
template <int W>
void creation() {  // any single thread creation may fail
    Pool* p = nullptr;
    bool failed = false;
    for (int k = 0; k < 3 && !p; ++k) {
        try {
            p = &Pool::get_instance(W);
        } catch (const std::system_error& e) {
            if (e.code() != std::errc::resource_unavailable_try_again)
                mc_fail("unexpected error code");
            failed = true;
        }
    }
    if (!p) mc_fail("pool cannot be created after an error");
    if (p->thread_num() != size_t(W)) mc_fail("thread_num() = %zu", p->thread_num());
    std::future<int> f = p->queue_task([] { return 3; });
    std::future<int> g = p->queue_task([] { return 4; });
    if (f.get() != 3 || g.get() != 4) mc_fail("wrong result");
    mc_note(failed);
}
}  // namespace

#ifndef PART
#define PART 0
#endif
int main(int argc, char** argv) {
    static McScenario s[] = {
#if PART == 13
        // name, run, preemptions, spurious, create failures, exit, budget
        {"w1-t1", tasks<1, 1, false>, -1, 0},
        {"w1-t2", tasks<1, 2, false>, 3, 0},
        {"w2-t1", tasks<2, 1, false>, 3, 0},
        {"w2-t2", tasks<2, 2, false>, 2, 0},
        {"w2-t2-rev", tasks<2, 2, true>, 2, 0},
        {"w2-t3", tasks<2, 3, false>, 1, 0},
        {"w3-t2", tasks<3, 2, false>, 1, 0},
        {"w1-rounds", rounds<1, 2>, 3, 0},
        {"w2-rounds", rounds<2, 2>, 2, 0},
        {"w1-throw", throwing<1, 2, 1>, 2, 0},
        {"w2-throw", throwing<2, 2, 2>, 1, 0},
        {"w1-nested", nested<1>, 2, 0},
        {"w2-nested", nested<2>, 1, 0},
        {"w1-chain", nested_chain<1>, 2, 0},
        {"w2-chain", nested_chain<2>, 1, 0},
        {"w1-submitters", submitters<1, 1>, 2, 0},
        {"w2-submitters", submitters<2, 1>, 1, 0},
        {"first-use", first_use, 2, 0},
        {"two-pools", two_pools, 2, 0},
        {"move-only", move_only, 1, 0},
        {"dropped", dropped, 2, 0},
        {"w2-waiters", waiters<2, 2>, 1, 0},
        {"w1-batch", tasks<1, 18, false>, 1, 0},
        {"w2-batch", tasks<2, 18, true>, 0, 0},
        {"w2-spurious", tasks<2, 1, false>, 1, 1},
        // bound on all departures from the default schedule
        {"w1-t1300", tasks<1, 1300, false>, 0, 0, 0, true, 60, false, false, true},
        {"w3-t300", tasks<3, 300, true>, 0, 0, 0, true, 60, false, false, true},
        {"w8-t90", tasks<8, 90, false>, 0, 0, 0, true, 60, false, false, true},
        {"w3-t40", tasks<3, 40, true>, 1, 0, 0, true, 60, false, false, true},
        {"w2-rounds40", rounds<2, 40>, 1, 0, 0, true, 60, false, false, true},
#else
        {"w1-startstop", startstop<1>, -1, 1},
        {"w2-startstop", startstop<2>, -1, 0},
        {"w3-startstop", startstop<3>, 2, 0},
        {"default-startstop", startstop<0>, 0, 0},
        {"w2-startstop-spurious", startstop<2>, 2, 1},
        {"w1-pending1", pending<1, 1, 0>, -1, 0},
        {"w1-pending2", pending<1, 2, 1>, 3, 0},
        {"w2-pending1", pending<2, 1, 0>, 3, 0},
        {"w2-pending2", pending<2, 2, 2>, 2, 0},
        {"w2-pending3", pending<2, 3, 0>, 1, 0},
        {"w3-pending2", pending<3, 2, 0>, 1, 0},
        {"w1-one-done", one_done<1>, 2, 0},
        {"w2-one-done", one_done<2>, 1, 0},
        {"w1-late-nested", late_nested<1>, 2, 0},
        {"w2-late-nested", late_nested<2>, 2, 0},
        {"w1-slept", slept<1>, -1, 0},
        {"w2-slept", slept<2>, 2, 0},
        {"w1-pending-spurious", pending<1, 1, 0>, 2, 1},
        {"two-down", two_down, 2, 0},
        {"w1-creation", creation<1>, 2, 0, 2},
        {"w2-creation", creation<2>, 1, 0, 1},
        {"w3-creation", creation<3>, 0, 0, 1},
        {"w8-creation", creation<8>, 1, 0, 1, true, 60, false, false, true},
        {"w1-pending40", pending<1, 40, 5>, 1, 0, 0, true, 60, false, false, true},
        {"w2-pending40", pending<2, 40, 0>, 1, 0, 0, true, 60, false, false, true},
        {"w3-pending20", pending<3, 20, 2>, 1, 0, 0, true, 60, false, false, true},
        {"w8-pending12", pending<8, 12, 0>, 0, 0, 0, true, 60, false, false, true},
#endif
    };
    return mc_main(argc, argv, s, sizeof s / sizeof *s);
}
