#include <functional>
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#define private public // std::thread::_State is needed to take over thread creation
#include <thread>
#undef private
#include <time.h>
#include <unistd.h>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_sem_wait(sem_t*);
int __real_sem_trywait(sem_t*);
int __real_sem_timedwait(sem_t*, const struct timespec*);
int __real_sem_post(sem_t*);
int __real_sched_yield();
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
void iox_verif_point(const volatile void* addr, int kind, int phase);
}

namespace vs
{
namespace
{
struct Rng
{
    uint64_t s{1};
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
};

enum class St { Unused, Runnable, Blocked, Finished };
enum class Why { None, Mutex, Sem, Pred, Join };

constexpr int MAXT = 24;
struct T
{
    St st{St::Unused};
    Why why{Why::None};
    const void* obj{nullptr};
    std::function<bool()> pred;
    std::atomic<uint32_t> go{0};
    int64_t prio{0};
    const char* lbl{""};
    uint32_t consecutive{0};
    std::function<void()> body;
    pthread_t handle{};
    bool hasHandle{false};
};

T g_t[MAXT];
int g_n = 0;
int g_unfinished = 0;
bool g_active = false;
Rng g_rng;
Options g_opt;
Result g_res;
uint64_t g_clock = 0;
int g_mode = 0; // 0 random walk, 1 PCT
uint32_t g_switchNum = 1, g_switchDen = 4;
uint64_t g_changeAt[8];
int g_nChange = 0;
int64_t g_lowPrio = -1;
std::atomic<uint32_t> g_done{0};
StuckHandler g_stuck;
uint32_t g_timeoutRate = 50;
std::atomic<uint64_t> g_hooks{0};
std::atomic<uint32_t> g_perturb{0};
std::atomic<uint32_t> g_timeScale{1};
std::atomic<uint64_t> g_perturbSeed{1};

thread_local int t_id = -1;
thread_local Rng t_prng;
thread_local bool t_prngInit = false;
thread_local bool t_inSched = false;
thread_local int t_static = 0; // inside the initialisation of a function-local static: others would wait for it outside our control
thread_local bool t_realTime = false;
thread_local uint32_t t_injectAt = 0;
thread_local std::function<void()>* t_inject = nullptr;

void fwait(std::atomic<uint32_t>& a, uint32_t v)
{
    while (a.load(std::memory_order_acquire) == v)
        syscall(SYS_futex, reinterpret_cast<uint32_t*>(&a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
void fset(std::atomic<uint32_t>& a, uint32_t v)
{
    a.store(v, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<uint32_t*>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

[[noreturn]] void stuck(const char* kind)
{
    std::string s = kind;
    s += ":";
    for (int i = 0; i < g_n; ++i)
    {
        char b[160];
        const char* st = g_t[i].st == St::Finished ? "finished" : g_t[i].st == St::Runnable ? "runnable" : "blocked";
        const char* w = g_t[i].why == Why::Mutex ? "mutex" : g_t[i].why == Why::Sem ? "semaphore" : g_t[i].why == Why::Pred ? "cond" : g_t[i].why == Why::Join ? "join" : "";
        snprintf(b, sizeof b, " [%d %s %s %s]", i, g_t[i].lbl, st, g_t[i].st == St::Blocked ? w : "");
        s += b;
    }
    t_inSched = true;
    if (g_stuck)
        g_stuck(s);
    fprintf(stderr, "STUCK %s\n", s.c_str());
    _exit(90);
}

bool evalQuietly(const std::function<bool()>& f)
{
    bool old = t_inSched;
    t_inSched = true;
    bool v = f();
    t_inSched = old;
    return v;
}

void refreshPreds()
{
    for (int i = 0; i < g_n; ++i)
        if (g_t[i].st == St::Blocked && g_t[i].why == Why::Pred && evalQuietly(g_t[i].pred))
        {
            g_t[i].st = St::Runnable;
            g_t[i].why = Why::None;
        }
}

// choose who runs next; returns -1 if nobody can
int choose(int me, bool forceSwitch)
{
    int run[MAXT];
    int n = 0;
    bool meRunnable = false;
    refreshPreds();
    for (int i = 0; i < g_n; ++i)
        if (g_t[i].st == St::Runnable)
        {
            if (i == me)
                meRunnable = true;
            run[n++] = i;
        }
    if (n == 0)
        return -1;
    if (n == 1)
        return run[0];
    if (g_res.steps > g_opt.stepLimit)
    {
        g_res.fairMode = true;
        if (g_res.steps > uint64_t(g_opt.stepLimit) + g_opt.graceSteps)
            stuck("no progress under fair scheduling");
        // fair: round robin with quantum of 20 points
        if (meRunnable && !forceSwitch && g_t[me].consecutive < 20)
            return me;
        for (int k = 1; k <= g_n; ++k)
        {
            int c = (me + k) % g_n;
            if (me < 0)
                c = k % g_n;
            if (g_t[c].st == St::Runnable)
                return c;
        }
    }
    if (g_mode == 1)
    {
        for (int k = 0; k < g_nChange; ++k)
            if (g_res.steps == g_changeAt[k] && me >= 0)
                g_t[me].prio = g_lowPrio--;
        if ((forceSwitch || (me >= 0 && g_t[me].consecutive > 3000)) && me >= 0)
            g_t[me].prio = g_lowPrio--;
        int best = run[0];
        for (int k = 1; k < n; ++k)
            if (g_t[run[k]].prio > g_t[best].prio)
                best = run[k];
        return best;
    }
    if (meRunnable && !forceSwitch && g_t[me].consecutive < 3000)
    {
        if (g_rng.below(g_switchDen) >= g_switchNum)
            return me;
    }
    if (meRunnable && forceSwitch)
    {
        int o[MAXT];
        int m = 0;
        for (int k = 0; k < n; ++k)
            if (run[k] != me)
                o[m++] = run[k];
        return o[g_rng.below(m)];
    }
    return run[g_rng.below(n)];
}

void transfer(int me, int next)
{
    g_res.hash = (g_res.hash ^ (uint64_t(next) * 0x100 + 7 + g_res.steps * 131)) * 0x100000001b3ull;
    if (next == me)
    {
        ++g_t[me].consecutive;
        return;
    }
    ++g_res.switches;
    g_t[next].consecutive = 0;
    // decided before the hand-over: afterwards the slot of a finished thread may already belong to the next run
    bool wait = me >= 0 && g_t[me].st != St::Finished;
    if (me >= 0)
        g_t[me].go.store(0, std::memory_order_relaxed);
    fset(g_t[next].go, 1);
    if (wait)
        fwait(g_t[me].go, 0);
}

void step(int me, bool force)
{
    ++g_res.steps;
    ++g_clock;
    if (t_static > 0)
        return;
    int next = choose(me, force);
    if (next < 0)
        stuck("deadlock");
    if (next != me)
        transfer(me, next);
    else
        ++g_t[me].consecutive;
}

void blockOn(int me, Why w, const void* obj)
{
    g_t[me].st = St::Blocked;
    g_t[me].why = w;
    g_t[me].obj = obj;
    ++g_res.steps;
    ++g_clock;
    int next = choose(me, false);
    if (next < 0)
        stuck("deadlock");
    if (next == me) // a predicate became true
    {
        return;
    }
    transfer(me, next);
}

void wake(Why w, const void* obj)
{
    for (int i = 0; i < g_n; ++i)
        if (g_t[i].st == St::Blocked && g_t[i].why == w && g_t[i].obj == obj)
        {
            g_t[i].st = St::Runnable;
            g_t[i].why = Why::None;
        }
}

void finish(int me)
{
    g_t[me].st = St::Finished;
    wake(Why::Join, &g_t[me]);
    --g_unfinished;
    ++g_res.steps;
    t_id = -1;
    if (g_unfinished == 0)
    {
        g_active = false;
        fset(g_done, 1);
        return;
    }
    int next = choose(me, false);
    if (next < 0)
        stuck("deadlock");
    transfer(me, next);
}

// ---- worker pool ----
struct W
{
    std::atomic<uint32_t> sig{0};
    std::atomic<uint32_t> idle{1};
    int id{-1};
    std::function<void()> body;
};
W g_w[MAXT];
int g_nw = 0;

void* workerMain(void* p)
{
    W& w = *static_cast<W*>(p);
    uint32_t seen = 0;
    for (;;)
    {
        fwait(w.sig, seen);
        seen = w.sig.load();
        int id = w.id;
        fwait(g_t[id].go, 0);
        t_id = id;
        w.body();
        // release captured state before handing over
        w.body = nullptr;
        finish(id);
    }
    return nullptr;
}

int addThread()
{
    if (g_n >= MAXT)
    {
        fprintf(stderr, "too many controlled threads\n");
        _exit(91);
    }
    int id = g_n++;
    T& t = g_t[id];
    t.st = St::Runnable;
    t.why = Why::None;
    t.obj = nullptr;
    t.pred = nullptr;
    t.go.store(0);
    t.lbl = "";
    t.consecutive = 0;
    t.hasHandle = false;
    t.prio = int64_t(g_rng.below(1000000)) + 1;
    ++g_unfinished;
    return id;
}
} // namespace

void setStuckHandler(StuckHandler h) { g_stuck = std::move(h); }
bool controlled() { return t_id >= 0 && g_active; }
int self() { return t_id; }
uint64_t now() { return ++g_clock; }
void label(const char* l)
{
    if (t_id >= 0)
        g_t[t_id].lbl = l;
}
void setTimeScale(uint32_t s) { g_timeScale.store(s); }
void realTime(bool v) { t_realTime = v; }
void inject(uint32_t n, std::function<void()> f)
{
    delete t_inject;
    t_inject = n ? new std::function<void()>(std::move(f)) : nullptr;
    t_injectAt = n;
}
bool injectPending() { return t_injectAt != 0; }
void setTimeoutRate(uint32_t r) { g_timeoutRate = r; }
uint64_t hookCalls() { return g_hooks.load(); }
void setPerturb(uint32_t r, uint64_t seed)
{
    g_perturbSeed.store(seed);
    g_perturb.store(r);
}
void point()
{
    if (controlled() && !t_inSched)
        step(t_id, false);
}
void yieldPoint()
{
    if (controlled() && !t_inSched)
        step(t_id, true);
}
void waitUntil(const std::function<bool()>& pred, const char* what)
{
    if (!controlled())
    {
        while (!pred())
            __real_sched_yield();
        return;
    }
    int me = t_id;
    step(me, false);
    const char* old = g_t[me].lbl;
    while (!evalQuietly(pred))
    {
        g_t[me].lbl = what;
        g_t[me].pred = pred;
        blockOn(me, Why::Pred, nullptr);
    }
    g_t[me].pred = nullptr;
    g_t[me].lbl = old;
}

Result run(const std::vector<std::function<void()>>& bodies, const Options& o)
{
    g_opt = o;
    g_res = Result{};
    g_rng.s = o.seed * 0x9E3779B97F4A7C15ull + 12345;
    g_res.hash = 0xcbf29ce484222325ull;
    uint64_t r = g_rng.below(8);
    static const uint64_t est[] = {40, 120, 400, 1200, 4000};
    uint64_t estLen = est[g_rng.below(5)];
    if (r < 3)
    {
        g_mode = 1;
        g_nChange = 1 + int(g_rng.below(5));
        for (int i = 0; i < g_nChange; ++i)
            g_changeAt[i] = 1 + g_rng.below(estLen + 1);
        g_lowPrio = -1;
    }
    else
    {
        g_mode = 0;
        static const uint32_t den[] = {2, 4, 8, 20, 60};
        g_switchNum = 1;
        g_switchDen = den[r - 3];
    }
    g_n = 0;
    g_unfinished = 0;
    g_done.store(0);
    for (size_t i = 0; i < bodies.size(); ++i)
    {
        int id = addThread();
        if (g_nw <= int(i))
        {
            pthread_t h;
            __real_pthread_create(&h, nullptr, workerMain, &g_w[g_nw]);
            pthread_detach(h);
            ++g_nw;
        }
        g_w[i].id = id;
        g_w[i].body = bodies[i];
    }
    g_active = true;
    for (size_t i = 0; i < bodies.size(); ++i)
    {
        uint32_t v = g_w[i].sig.load();
        fset(g_w[i].sig, v + 1);
    }
    int first = choose(-1, false);
    transfer(-1, first);
    fwait(g_done, 0);
    return g_res;
}

// entry trampoline for threads created by controlled threads
struct Tramp
{
    int id;
    void* (*fn)(void*);
    void* arg;
};
static void* tramp(void* p)
{
    Tramp t = *static_cast<Tramp*>(p);
    delete static_cast<Tramp*>(p);
    fwait(g_t[t.id].go, 0);
    t_id = t.id;
    void* r = t.fn(t.arg);
    finish(t.id);
    return r;
}

static void perturb()
{
    uint32_t rate = g_perturb.load(std::memory_order_relaxed);
    if (rate == 0 || t_inSched)
        return;
    if (!t_prngInit)
    {
        t_prngInit = true;
        t_prng.s = g_perturbSeed.load(std::memory_order_relaxed) * 77 + uint64_t(syscall(SYS_gettid)) * 0x9E37ull;
    }
    if (t_prng.below(1000) < rate)
    {
        uint64_t k = t_prng.below(16);
        if (k < 12)
            __real_sched_yield();
        else if (k < 15)
        {
            volatile int x = 0;
            for (int i = int(t_prng.below(2000)); i > 0; --i)
                x = x + 1;
        }
        else
        {
            struct timespec ts{0, long(t_prng.below(60000))};
            __real_nanosleep(&ts, nullptr);
        }
    }
}
} // namespace vs

using namespace vs;

extern "C" void iox_verif_point(const volatile void*, int, int)
{
    if (t_id >= 0)
    {
        if (g_active && !t_inSched)
        {
            g_hooks.fetch_add(1, std::memory_order_relaxed);
            step(t_id, false);
        }
    }
    else
    {
        if (t_injectAt != 0 && --t_injectAt == 0)
        {
            auto* f = t_inject;
            t_inject = nullptr;
            (*f)();
            delete f;
        }
        perturb();
    }
}

extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!controlled() || t_inSched)
    {
        if (t_id < 0) perturb();
        return __real_pthread_mutex_lock(m);
    }
    step(t_id, false);
    for (;;)
    {
        int r = __real_pthread_mutex_trylock(m);
        if (r == EBUSY)
        {
            if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP || (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
            {
                // only the owner check of lock() can tell EDEADLK; trylock says EBUSY for own errorcheck mutexes
                if (m->__data.__owner == int(syscall(SYS_gettid)))
                    return EDEADLK;
            }
            blockOn(t_id, Why::Mutex, m);
            continue;
        }
        return r;
    }
}
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (controlled() && !t_inSched)
        step(t_id, false);
    return __real_pthread_mutex_trylock(m);
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_unlock(m);
    if (controlled() && !t_inSched)
    {
        int e = errno;
        wake(Why::Mutex, m);
        step(t_id, false);
        errno = e;
    }
    else if (t_id < 0) perturb();
    return r;
}
extern "C" int __wrap_sem_wait(sem_t* s)
{
    if (!controlled() || t_inSched)
        return __real_sem_wait(s);
    step(t_id, false);
    for (;;)
    {
        int r = __real_sem_trywait(s);
        if (r == 0 || errno != EAGAIN)
            return r;
        blockOn(t_id, Why::Sem, s);
    }
}
extern "C" int __wrap_sem_trywait(sem_t* s)
{
    if (controlled() && !t_inSched)
        step(t_id, false);
    return __real_sem_trywait(s);
}
extern "C" int __wrap_sem_timedwait(sem_t* s, const struct timespec* ts)
{
    if (!controlled() || t_inSched)
    {
        uint32_t scale = g_timeScale.load(std::memory_order_relaxed);
        while (scale == 0 && !t_realTime && ts) // time stands still: looks at the scale again from time to time
        {
            struct timespec t;
            clock_gettime(CLOCK_REALTIME, &t);
            t.tv_nsec += 50000000;
            if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; ++t.tv_sec; }
            int e = errno, r = __real_sem_timedwait(s, &t);
            if (r == 0 || errno != ETIMEDOUT) return r;
            errno = e; // posix_call looks at errno after a success as well
            scale = g_timeScale.load(std::memory_order_relaxed);
        }
        if (scale > 1 && ts)
        {
            struct timespec now;
            clock_gettime(CLOCK_REALTIME, &now);
            int64_t n = int64_t(now.tv_sec) * 1000000000 + now.tv_nsec, d = int64_t(ts->tv_sec) * 1000000000 + ts->tv_nsec;
            if (d > n)
            {
                d = n + (d - n) / scale;
                struct timespec t{time_t(d / 1000000000), long(d % 1000000000)};
                return __real_sem_timedwait(s, &t);
            }
        }
        return __real_sem_timedwait(s, ts);
    }
    step(t_id, false);
    for (;;)
    {
        int r = __real_sem_trywait(s);
        if (r == 0 || errno != EAGAIN)
            return r;
        if (g_rng.below(1000) < g_timeoutRate)
        {
            errno = ETIMEDOUT;
            return -1;
        }
        step(t_id, true);
    }
}
extern "C" int __wrap_sem_post(sem_t* s)
{
    if (!controlled() || t_inSched)
    {
        if (t_id < 0) perturb();
        return __real_sem_post(s);
    }
    step(t_id, false);
    int r = __real_sem_post(s);
    int e = errno;
    wake(Why::Sem, s);
    step(t_id, false);
    errno = e;
    return r;
}
extern "C" int __wrap_sched_yield()
{
    if (controlled() && !t_inSched)
    {
        step(t_id, true);
        return 0;
    }
    return __real_sched_yield();
}
extern "C" int __wrap_nanosleep(const struct timespec* a, struct timespec* b)
{
    if (controlled() && !t_inSched)
    {
        step(t_id, true);
        return 0;
    }
    return __real_nanosleep(a, b);
}
extern "C" int __wrap_pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!controlled() || t_inSched)
        return __real_pthread_create(h, at, fn, arg);
    int id = addThread();
    int r = __real_pthread_create(h, at, tramp, new Tramp{id, fn, arg});
    if (r != 0)
    {
        g_t[id].st = St::Finished;
        --g_unfinished;
        return r;
    }
    g_t[id].handle = *h;
    g_t[id].hasHandle = true;
    step(t_id, false);
    return r;
}
extern "C" int __wrap_pthread_join(pthread_t h, void** rv)
{
    if (controlled() && !t_inSched)
    {
        step(t_id, false);
        for (int i = 0; i < g_n; ++i)
            if (g_t[i].hasHandle && pthread_equal(g_t[i].handle, h))
            {
                while (g_t[i].st != St::Finished)
                    blockOn(t_id, Why::Join, &g_t[i]);
            }
    }
    return __real_pthread_join(h, rv);
}

// std::thread goes through libstdc++; intercept its two out-of-line functions
extern "C" void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread*, std::unique_ptr<std::thread::_State>*, void (*)());
static void* stdThreadMain(void* p)
{
    std::unique_ptr<std::thread::_State> s(static_cast<std::thread::_State*>(p));
    s->_M_run();
    return nullptr;
}
// std::unique_ptr is passed by invisible reference (non-trivial destructor)
extern "C" void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread* self, std::unique_ptr<std::thread::_State>* state, void (*dep)())
{
    if (!controlled() || t_inSched)
    {
        __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, state, dep);
        return;
    }
    pthread_t h{};
    __wrap_pthread_create(&h, nullptr, stdThreadMain, state->release());
    // std::thread::id holds the native handle
    static_assert(sizeof(std::thread) == sizeof(pthread_t), "layout");
    memcpy(static_cast<void*>(self), &h, sizeof h);
}
extern "C" void __real__ZNSt6thread4joinEv(std::thread*);
extern "C" void __wrap__ZNSt6thread4joinEv(std::thread* self)
{
    if (controlled() && !t_inSched && self->joinable())
    {
        pthread_t h = self->native_handle();
        __wrap_pthread_join(h, nullptr);
        pthread_t z{};
        memcpy(static_cast<void*>(self), &z, sizeof z);
        return;
    }
    __real__ZNSt6thread4joinEv(self);
}

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VS_TSAN 1
#endif
#endif
#ifndef VS_TSAN
#include <dlfcn.h>
namespace
{
template <typename F>
F next(std::atomic<void*>& cache, const char* name)
{
    void* p = cache.load(std::memory_order_relaxed);
    if (!p)
    {
        p = dlsym(RTLD_NEXT, name);
        cache.store(p, std::memory_order_relaxed);
    }
    return reinterpret_cast<F>(p);
}
std::atomic<void*> g_acquire{nullptr}, g_release{nullptr}, g_abort{nullptr};
} // namespace
extern "C" int __cxa_guard_acquire(uint64_t* g)
{
    int r = next<int (*)(uint64_t*)>(g_acquire, "__cxa_guard_acquire")(g);
    if (r) ++vs::t_static;
    return r;
}
extern "C" void __cxa_guard_release(uint64_t* g) noexcept
{
    next<void (*)(uint64_t*)>(g_release, "__cxa_guard_release")(g);
    --vs::t_static;
}
extern "C" void __cxa_guard_abort(uint64_t* g) noexcept
{
    next<void (*)(uint64_t*)>(g_abort, "__cxa_guard_abort")(g);
    --vs::t_static;
}
#endif
