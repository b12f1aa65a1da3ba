// C22: locks, semaphores and periodic tasks. mode sched: random programs of several threads on one primitive under the
// controlled scheduler with an exclusion/conservation monitor. mode real: real time, real thread and process deaths, several
// processes sharing one primitive, failing creations.
#include "common.hpp"
#include "sched.hpp"
#include "iox/spin_semaphore.hpp" // before periodic_task.hpp: the latter opens iox::concurrent::detail
#include "iox/detail/periodic_task.hpp"
#include "iox/logging.hpp"
#include "iox/deadline_timer.hpp"
#include "iox/mutex.hpp"
#include "iox/named_semaphore.hpp"
#include "iox/smart_lock.hpp"
#include "iox/spin_lock.hpp"
#include "iox/unnamed_semaphore.hpp"
#include <atomic>
#include <dlfcn.h>
#include <memory>
#include <mutex>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <thread>

using namespace iox;
using vh::count;
using vh::fmt;
using vh::Rng;
using concurrent::SpinLock;
using concurrent::SpinLockBuilder;
using concurrent::SpinSemaphore;
using concurrent::SpinSemaphoreBuilder;

namespace
{
int g_initFails = 0;
}
extern "C" int sem_init(sem_t* s, int p, unsigned v) noexcept
{
    if (g_initFails)
    {
        errno = g_initFails;
        return -1;
    }
    static auto f = reinterpret_cast<int (*)(sem_t*, int, unsigned)>(dlsym(RTLD_NEXT, "sem_init"));
    return f(s, p, v);
}
extern "C" int pthread_mutexattr_setrobust(pthread_mutexattr_t* a, int v) noexcept
{
    if (g_initFails) return g_initFails;
    static auto f = reinterpret_cast<int (*)(pthread_mutexattr_t*, int)>(dlsym(RTLD_NEXT, "pthread_mutexattr_setrobust"));
    return f(a, v);
}

namespace
{
std::string g_log;

// ------------------------------------------------------------------------------------------------------------ locks
enum class Behaviour { NORMAL, RECURSIVE, DETECT };
const char* BN[] = {"normal", "recursive", "detecting"};
struct Lock
{
    bool spin{false};
    Behaviour b{};
    bool robust{true};
    optional<mutex> m;
    optional<SpinLock> s;
    bool make(bool spin_, Behaviour b_, bool robust_, bool shared)
    {
        spin = spin_, b = b_, robust = robust_;
        auto lb = b == Behaviour::NORMAL ? LockBehavior::NORMAL : b == Behaviour::RECURSIVE ? LockBehavior::RECURSIVE : LockBehavior::WITH_DEADLOCK_DETECTION;
        if (spin) return !SpinLockBuilder().lock_behavior(lb).is_inter_process_capable(shared).create(s).has_error();
        return !MutexBuilder().lock_behavior(lb).is_inter_process_capable(shared).thread_termination_behavior(robust ? MutexThreadTerminationBehavior::RELEASE_WHEN_LOCKED : MutexThreadTerminationBehavior::STALL_WHEN_LOCKED).create(m).has_error();
    }
    expected<void, LockError> lock() { return spin ? s->lock() : m->lock(); }
    expected<TryLock, TryLockError> tryLock() { return spin ? s->try_lock() : m->try_lock(); }
    expected<void, UnlockError> unlock() { return spin ? s->unlock() : m->unlock(); }
    bool judgesMisuse() const { return spin || b != Behaviour::NORMAL; }
};

void lockCase(uint64_t seed)
{
    Rng r(seed);
    Lock L;
    bool spin = r.chance(500);
    Behaviour b = Behaviour(r.below(3));
    VH_CHECK(L.make(spin, b, r.chance(500), r.chance(500)), "create", "the lock cannot be created");
    size_t nt = r.range(2, 4);
    g_log = fmt("%s %s:", BN[int(b)], spin ? "spin lock" : "mutex");
    std::vector<std::string> plan(nt);
    for (auto& p : plan)
    {
        for (size_t i = 0, n = r.range(3, 14); i < n; ++i) p += "LLTTUUUuv"[r.below(9)];
        g_log += " " + p;
    }
    static int owner, depth, inside;
    static uint64_t ops;
    owner = -1, depth = 0, inside = 0, ops = 0;
    vs::setStuckHandler([&](const std::string& w) { vh::fail("lock_hang", w + " |" + g_log); });
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < nt; ++i)
        bodies.push_back([&, i] {
            int me = int(i), mine = 0;
            auto acquired = [&](const char* how) {
                VH_CHECK(owner == -1, "two_holders", "thread %d got the lock by %s while thread %d holds it |%s", me, how, owner, g_log.c_str());
                owner = me;
                mine = depth = 1;
                count("acquired");
            };
            auto release = [&] {
                if (mine == 1) owner = -1;
                depth = --mine;
                ++ops, ++inside;
                auto x = L.unlock();
                --inside;
                VH_CHECK(!x.has_error(), "unlock_refused", "the holder %d cannot unlock |%s", me, g_log.c_str());
            };
            for (char c : plan[i])
            {
                if (c == 'L')
                {
                    if (mine && b == Behaviour::NORMAL && !spin) continue; // would wait for itself by design
                    if (mine)
                    {
                        auto x = L.lock();
                        if (b == Behaviour::RECURSIVE)
                        {
                            VH_CHECK(!x.has_error(), "recursive_refused", "a recursive lock is refused |%s", g_log.c_str());
                            depth = ++mine;
                        }
                        else
                            VH_CHECK(x.has_error() && x.error() == LockError::DEADLOCK_CONDITION, "relocked", "locking again is not refused |%s", g_log.c_str());
                        count("relocks");
                        continue;
                    }
                    ++ops, ++inside;
                    auto x = L.lock();
                    --inside;
                    VH_CHECK(!x.has_error(), "lock_refused", "lock is refused |%s", g_log.c_str());
                    acquired("lock");
                }
                else if (c == 'T')
                {
                    bool quiet = inside == 0, freeBefore = owner == -1;
                    uint64_t at = ++ops;
                    ++inside;
                    auto x = L.tryLock();
                    --inside;
                    quiet = quiet && ops == at;
                    if (mine && b == Behaviour::DETECT && x.has_error())
                    { // glibc's robust mutexes say EDEADLK: refused, with an error
                        VH_CHECK(x.error() != TryLockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED, "try_error", "nobody died |%s", g_log.c_str());
                        count("relocks");
                        continue;
                    }
                    VH_CHECK(!x.has_error(), "try_error", "try_lock fails |%s", g_log.c_str());
                    bool got = *x == TryLock::LOCK_SUCCEEDED;
                    if (mine)
                    {
                        VH_CHECK(got == (b == Behaviour::RECURSIVE), "relocked", "try_lock of the holder %s |%s", got ? "succeeds" : "fails", g_log.c_str());
                        if (got) depth = ++mine;
                        continue;
                    }
                    if (got) acquired("try_lock");
                    else if (quiet) VH_CHECK(!freeBefore, "try_failed", "try_lock of the free lock fails |%s", g_log.c_str());
                    count(got ? "try_won" : "try_lost");
                }
                else if (c == 'U' && mine) release();
                else if (c == 'u' && !mine && L.judgesMisuse())
                {
                    auto x = L.unlock();
                    VH_CHECK(x.has_error() && (x.error() == UnlockError::NOT_OWNED_BY_THREAD || x.error() == UnlockError::NOT_LOCKED), "foreign_unlock", "thread %d can unlock what it does not hold |%s", me, g_log.c_str());
                    count("foreign_unlocks");
                }
                else if (c == 'v' && mine)
                {
                    for (int k = 0; k < 3; ++k)
                    {
                        vs::point();
                        VH_CHECK(owner == me && depth == mine, "two_holders", "thread %d holds the lock which %d locked |%s", me, owner, g_log.c_str());
                    }
                    count("visits");
                }
            }
            while (mine) release();
        });
    vs::Options o;
    o.seed = seed;
    auto res = vs::run(bodies, o);
    vh::distinct(vh::mix(res.hash, std::hash<std::string>()(g_log)));
    auto x = L.tryLock();
    VH_CHECK(!x.has_error() && *x == TryLock::LOCK_SUCCEEDED, "not_free", "the lock is not free after all unlocks |%s", g_log.c_str());
    VH_CHECK(!L.unlock().has_error(), "unlock_refused", "the holder cannot unlock |%s", g_log.c_str());
    count("lock_runs");
    vh::sample(g_log);
}

struct Pair
{
    int a{0}, b{0};
    void inc()
    {
        ++a;
        vs::point();
        ++b;
    }
    bool same() const
    {
        int x = a;
        vs::point();
        return x == b;
    }
};
void smartCase(uint64_t seed)
{
    Rng r(seed);
    using SL = concurrent::smart_lock<Pair>;
    SL s, t;
    size_t nt = r.range(2, 4);
    std::vector<std::vector<unsigned>> plan(nt);
    for (auto& p : plan)
        for (size_t i = 0, n = r.range(2, 8); i < n; ++i) p.push_back(unsigned(r.below(7)));
    g_log = "smart_lock";
    static int incs;
    incs = 0;
    bool assigned = false;
    for (auto& p : plan)
        for (auto x : p) assigned |= x == 5;
    vs::setStuckHandler([&](const std::string& w) { vh::fail("lock_hang", w + " |" + g_log); });
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < nt; ++i)
        bodies.push_back([&, i] {
            for (auto x : plan[i])
            {
                if (x == 0) s->inc(), ++incs;
                else if (x == 1)
                {
                    auto g = s.get_scope_guard();
                    g->inc();
                    ++incs;
                    VH_CHECK(g->same(), "smart_lock", "the protected object was changed while it was locked");
                }
                else if (x == 2) { auto c = s.get_copy(); VH_CHECK(c.a == c.b, "smart_lock", "a copy shows a half made change"); }
                else if (x == 3) { SL c(s); auto d = c.get_copy(); VH_CHECK(d.a == d.b, "smart_lock", "a copy shows a half made change"); }
                else if (x == 4) VH_CHECK(s->same(), "smart_lock", "a half made change is visible");
                else if (x == 5) { if (i & 1) s = t; else t = s; }
                else { const SL& cs = s; VH_CHECK(cs->same(), "smart_lock", "a half made change is visible"); }
                count("smart_operations");
            }
        });
    vs::Options o;
    o.seed = seed;
    auto res = vs::run(bodies, o);
    auto c = s.get_copy();
    VH_CHECK(c.a == c.b && (assigned || c.a == incs), "smart_lock", "%d of %d changes are there", c.a, incs);
    vh::distinct(res.hash);
}

// ------------------------------------------------------------------------------------------------------- semaphores
struct Sem
{
    int kind{0};
    optional<UnnamedSemaphore> u;
    optional<NamedSemaphore> n;
    optional<SpinSemaphore> s;
    bool make(int k, uint32_t v, bool shared)
    {
        kind = k;
        if (k == 0) return !UnnamedSemaphoreBuilder().initialValue(v).isInterProcessCapable(shared).create(u).has_error();
        if (k == 1) return !NamedSemaphoreBuilder().name(NamedSemaphore::Name_t(TruncateToCapacity, fmt("vsy_%d", int(getpid())).c_str())).openMode(OpenMode::PurgeAndCreate).permissions(perms::owner_all).initialValue(v).create(n).has_error();
        return !SpinSemaphoreBuilder().initialValue(v).isInterProcessCapable(shared).create(s).has_error();
    }
    expected<void, SemaphoreError> post() { return kind == 0 ? u->post() : kind == 1 ? n->post() : s->post(); }
    expected<void, SemaphoreError> wait() { return kind == 0 ? u->wait() : kind == 1 ? n->wait() : s->wait(); }
    expected<bool, SemaphoreError> tryWait() { return kind == 0 ? u->tryWait() : kind == 1 ? n->tryWait() : s->tryWait(); }
    expected<SemaphoreWaitState, SemaphoreError> timedWait(units::Duration d) { return kind == 0 ? u->timedWait(d) : kind == 1 ? n->timedWait(d) : s->timedWait(d); }
};
const char* SN[] = {"unnamed semaphore", "named semaphore", "spin semaphore"};

void semCase(uint64_t seed)
{
    Rng r(seed);
    Sem S;
    int kind = int(r.below(3));
    bool high = r.chance(150);
    uint64_t v0 = high ? uint64_t(SEM_VALUE_MAX) - r.below(3) : r.below(4);
    VH_CHECK(S.make(kind, uint32_t(v0), r.chance(500)), "create", "the semaphore cannot be created");
    size_t nt = r.range(2, 4);
    g_log = fmt("%s, value %llu:", SN[kind], (unsigned long long)v0);
    std::vector<std::string> plan(nt);
    size_t waits = 0;
    for (auto& p : plan)
    {
        for (size_t i = 0, n = r.range(2, 12); i < n; ++i) p += "PPPWWYYZ"[r.below(8)];
        for (char c : p) waits += c == 'W';
        g_log += " " + p;
    }
    static uint64_t posted, started, taken, ops, blocked;
    static int inside;
    posted = started = taken = ops = blocked = 0, inside = 0;
    vs::setStuckHandler([&](const std::string& w) { vh::fail("lost_post", w + fmt(" (%llu posts, %llu taken)", (unsigned long long)posted, (unsigned long long)taken) + " |" + g_log); });
    vs::setTimeoutRate(200);
    std::vector<std::function<void()>> bodies;
    auto took = [&] {
        ++taken;
        VH_CHECK(taken <= v0 + started, "too_many_through", "%llu waits came through with value %llu and %llu posts |%s", (unsigned long long)taken, (unsigned long long)v0, (unsigned long long)started, g_log.c_str());
        count("taken");
    };
    auto post = [&] {
        bool quiet = inside == 0;
        uint64_t at = ++ops;
        uint64_t value = v0 + posted - taken;
        ++inside;
        ++started;
        auto x = S.post();
        --inside;
        quiet = quiet && ops == at;
        if (x.has_error())
        {
            --started;
            VH_CHECK(x.error() == SemaphoreError::SEMAPHORE_OVERFLOW, "post_error", "post fails |%s", g_log.c_str());
            VH_CHECK(high && (!quiet || value == SEM_VALUE_MAX), "post_refused", "post is refused at value %llu |%s", (unsigned long long)value, g_log.c_str());
            count("overflows");
        }
        else
        {
            ++posted;
            if (quiet) VH_CHECK(value < SEM_VALUE_MAX, "overflow", "post at the maximum succeeds |%s", g_log.c_str());
            count("posts");
        }
    };
    size_t running = nt;
    for (size_t i = 0; i < nt; ++i)
        bodies.push_back([&, i] {
            for (char c : plan[i])
            {
                if (c == 'P') post();
                else if (c == 'W')
                {
                    ++ops, ++inside;
                    auto x = S.wait();
                    --inside;
                    VH_CHECK(!x.has_error(), "wait_error", "wait fails |%s", g_log.c_str());
                    took();
                    count("waits");
                }
                else
                {
                    bool quiet = inside == 0;
                    uint64_t at = ++ops, value = v0 + posted - taken;
                    ++inside;
                    bool got;
                    if (c == 'Y')
                    {
                        auto x = S.tryWait();
                        VH_CHECK(!x.has_error(), "wait_error", "tryWait fails |%s", g_log.c_str());
                        got = *x;
                    }
                    else
                    {
                        auto x = S.timedWait(units::Duration::fromMicroseconds(i * 7));
                        VH_CHECK(!x.has_error(), "wait_error", "timedWait fails |%s", g_log.c_str());
                        got = *x == SemaphoreWaitState::NO_TIMEOUT;
                    }
                    --inside;
                    quiet = quiet && ops == at;
                    if (quiet) VH_CHECK(got == (value > 0), "value", "%s of a semaphore with value %llu %s |%s", c == 'Y' ? "tryWait" : "timedWait", (unsigned long long)value, got ? "succeeds" : "fails", g_log.c_str());
                    if (got) took();
                    count(got ? "try_won" : "try_lost");
                }
            }
            --running;
        });
    // nobody has to wait for ever
    bodies.push_back([&] {
        while (running) post(), vs::yieldPoint();
    });
    vs::Options o;
    o.seed = seed;
    auto res = vs::run(bodies, o);
    vh::distinct(vh::mix(res.hash, std::hash<std::string>()(g_log)));
    uint64_t want = v0 + posted - taken, have = 0;
    if (want > 1000)
    {
        have = SEM_VALUE_MAX;
        while (!S.post().has_error() && have > 1000) --have;
    }
    else
        while (S.tryWait().value()) ++have;
    VH_CHECK(have == want, "conservation", "the semaphore has the value %llu instead of %llu |%s", (unsigned long long)have, (unsigned long long)want, g_log.c_str());
    count("sem_runs");
}

// --------------------------------------------------------------------------------------------------------- real time
uint64_t nowNs(clockid_t c)
{
    struct timespec t;
    clock_gettime(c, &t);
    return uint64_t(t.tv_sec) * 1000000000ull + uint64_t(t.tv_nsec);
}
void timedCase(Rng& r)
{
    Sem S;
    int kind = int(r.below(3));
    uint32_t v = r.chance(600) ? 0 : uint32_t(r.range(1, 3));
    VH_CHECK(S.make(kind, v, true), "create", "the semaphore cannot be created");
    uint64_t ns = r.chance(200) ? r.below(2000) : r.below(r.chance(500) ? 300000 : 6000000);
    if (r.chance(100)) ns = 0;
    std::atomic<bool> posted{false};
    std::thread t;
    uint64_t at = r.below(3000000);
    bool postLater = v == 0 && r.chance(400), forever = postLater && r.chance(500);
    units::Duration d = forever ? (r.chance(500) ? units::Duration::fromSeconds(3600) : units::Duration::fromDays(100000)) : units::Duration::fromNanoseconds(ns);
    g_log = fmt("%s timedWait %llu ns%s", SN[kind], (unsigned long long)ns, postLater ? " with a later post" : "");
    if (postLater)
        t = std::thread([&] {
            struct timespec ts{0, long(at)};
            nanosleep(&ts, nullptr);
            posted = true;
            if (S.post().has_error()) abort();
        });
    clockid_t c = kind == 2 ? CLOCK_MONOTONIC : CLOCK_REALTIME;
    uint64_t a = nowNs(c);
    auto x = S.timedWait(d);
    uint64_t b = nowNs(c);
    bool wasPosted = posted;
    VH_CHECK(!x.has_error(), "wait_error", "timedWait fails |%s", g_log.c_str());
    if (*x == SemaphoreWaitState::TIMEOUT)
    {
        VH_CHECK(!forever, "early_timeout", "an endless timedWait times out |%s", g_log.c_str());
        VH_CHECK(b - a >= ns, "early_timeout", "times out after %llu ns |%s", (unsigned long long)(b - a), g_log.c_str());
        VH_CHECK(v == 0, "missed_token", "times out although the semaphore has the value %u |%s", v, g_log.c_str());
        count("timeouts");
    }
    else
    {
        VH_CHECK(v > 0 || wasPosted, "too_many_through", "returns without a post |%s", g_log.c_str());
        count("tokens");
    }
    if (t.joinable()) t.join();
    uint64_t want = v + (postLater ? 1 : 0) - (*x == SemaphoreWaitState::NO_TIMEOUT ? 1 : 0), have = 0;
    while (S.tryWait().value()) ++have;
    VH_CHECK(have == want, "conservation", "the semaphore has the value %llu instead of %llu |%s", (unsigned long long)have, (unsigned long long)want, g_log.c_str());
}

// in real time a hang is told by an alarm; the forked processes die with this one
void onAlarm(int) { vh::fail("lock_hang", "a scenario does not end |" + g_log); }
void childSetup()
{
    alarm(0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
}
template <typename T>
struct Shared
{
    T* p;
    Shared()
    {
        void* m = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) exit(75);
        p = new (m) T();
    }
    ~Shared()
    {
        p->~T();
        munmap(static_cast<void*>(p), sizeof(T));
    }
    T* operator->() { return p; }
    T& operator*() { return *p; }
};
struct Arena
{
    Lock l;
    Sem s;
    uint64_t counter{0};
    std::atomic<uint64_t> got{0}, ready{0}, result{0};
};

void deathCase(Rng& r)
{
    Shared<Arena> A;
    Behaviour b = Behaviour(r.below(3));
    bool robust = r.chance(850), process = r.chance(500);
    VH_CHECK(A->l.make(false, b, robust, true), "create", "the mutex cannot be created");
    mutex& m = *A->l.m;
    size_t depth = b == Behaviour::RECURSIVE ? r.range(1, 4) : 1;
    size_t rounds = robust ? r.range(1, 3) : 1;
    g_log = fmt("%s mutex%s, %s ends", BN[int(b)], robust ? "" : " (stalling)", process ? "a process" : "a thread");
    for (size_t k = 0; k < rounds; ++k)
    {
        bool waiterFirst = robust && r.chance(300);
        A->ready = 0;
        auto die = [&] {
            for (size_t i = 0; i < depth; ++i)
                if (m.lock().has_error()) _exit(9);
            A->ready = 1;
            if (waiterFirst)
            {
                struct timespec ts{0, 3000000};
                nanosleep(&ts, nullptr);
            }
        };
        pid_t pid = -1;
        std::thread th;
        if (process)
        {
            pid = fork();
            if (pid == 0)
            {
                childSetup();
                die();
                if (r.chance(500)) kill(getpid(), SIGKILL);
                _exit(0);
            }
        }
        else
            th = std::thread(die);
        auto reap = [&] {
            if (th.joinable()) th.join();
            if (pid > 0)
            {
                int st;
                waitpid(pid, &st, 0);
                VH_CHECK(WIFSIGNALED(st) || WEXITSTATUS(st) == 0, "lock_refused", "a process cannot lock the mutex |%s", g_log.c_str());
                pid = -1;
            }
        };
        if (!waiterFirst) reap();
        else
            while (!A->ready) sched_yield();
        if (!robust)
        {
            auto x = m.try_lock();
            VH_CHECK(!x.has_error() && *x == TryLock::FAILED_TO_ACQUIRE_LOCK, "dead_owner", "a stalled mutex can be locked |%s", g_log.c_str());
            count("stalled");
            return;
        }
        bool reported;
        if (waiterFirst || r.chance(500))
        {
            auto x = m.lock();
            reported = x.has_error() && x.error() == LockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED;
        }
        else
        {
            auto x = m.try_lock();
            reported = x.has_error() && x.error() == TryLockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED;
        }
        if (waiterFirst) reap();
        VH_CHECK(reported, "dead_owner", "the death of the owner is not reported |%s", g_log.c_str());
        count("owner_deaths");
        // it is held now: nobody else gets it
        auto other = [&](const char* what, bool want) {
            bool got = false, err = false;
            std::thread o([&] {
                auto x = m.try_lock();
                err = x.has_error();
                got = !err && *x == TryLock::LOCK_SUCCEEDED;
                if (got && m.unlock().has_error()) err = true;
            });
            o.join();
            VH_CHECK(got == want && !err, "dead_owner", "another thread %s the mutex %s |%s", got ? "gets" : "does not get", what, g_log.c_str());
        };
        other("while it is held inconsistent", false);
        if (r.chance(800))
        {
            m.make_consistent();
            other("while it is held", false);
            VH_CHECK(!m.unlock().has_error(), "dead_owner", "the repaired mutex cannot be unlocked |%s", g_log.c_str());
            other("after it was repaired", true);
            VH_CHECK(!m.lock().has_error() && !m.unlock().has_error(), "dead_owner", "the repaired mutex cannot be used |%s", g_log.c_str());
            count("repaired");
        }
        else
        {
            IOX_DISCARD_RESULT(m.unlock());
            auto x = m.lock();
            VH_CHECK(x.has_error(), "dead_owner", "a mutex which was never repaired can be locked |%s", g_log.c_str());
            auto y = m.try_lock();
            VH_CHECK(y.has_error() || *y == TryLock::FAILED_TO_ACQUIRE_LOCK, "dead_owner", "a mutex which was never repaired can be locked |%s", g_log.c_str());
            count("unrecoverable");
            return;
        }
    }
}

void processesCase(Rng& r)
{
    Shared<Arena> A;
    bool spin = r.chance(500);
    VH_CHECK(A->l.make(spin, Behaviour(r.below(3)), true, true), "create", "the lock cannot be created");
    int sk = r.chance(500) ? 0 : 2;
    VH_CHECK(A->s.make(sk, uint32_t(r.below(3)), true), "create", "the semaphore cannot be created");
    size_t np = r.range(2, 4), n = r.range(50, 400);
    g_log = fmt("%zu processes, %s, %s", np, spin ? "spin lock" : "mutex", SN[sk]);
    std::vector<pid_t> ps;
    uint64_t initial = 0;
    while (A->s.tryWait().value()) ++initial;
    for (size_t i = 0; i < np; ++i)
    {
        pid_t p = fork();
        if (p == 0)
        {
            childSetup();
            Rng q(r.next() + i);
            for (size_t k = 0; k < n; ++k)
            {
                if (q.chance(300))
                {
                    for (;;)
                    {
                        auto x = A->l.tryLock();
                        if (x.has_error()) _exit(3);
                        if (*x == TryLock::LOCK_SUCCEEDED) break;
                        sched_yield();
                    }
                }
                else if (A->l.lock().has_error()) _exit(3);
                A->counter = A->counter + 1;
                if (A->l.unlock().has_error()) _exit(4);
                if (i & 1)
                {
                    if (A->s.post().has_error()) _exit(5);
                }
                else if (A->s.tryWait().value())
                    ++A->got;
            }
            _exit(0);
        }
        ps.push_back(p);
    }
    for (auto p : ps)
    {
        int st;
        waitpid(p, &st, 0);
        VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "process_failed", "an operation failed in a process (status %x) |%s", st, g_log.c_str());
    }
    VH_CHECK(A->counter == np * n, "two_holders", "%llu of %zu changes made under the lock are there |%s", (unsigned long long)A->counter, np * n, g_log.c_str());
    uint64_t have = 0;
    while (A->s.tryWait().value()) ++have;
    VH_CHECK(have + A->got == (np / 2) * n, "conservation", "%llu posts, %llu taken, %llu left |%s", (unsigned long long)((np / 2) * n), (unsigned long long)A->got.load(), (unsigned long long)have, g_log.c_str());
    count("process_runs");
    count("shared_operations", np * n);
}

void builderCase(Rng& r)
{
    g_log = "builders";
    static const int E[] = {EINVAL, ENOSYS, ENOMEM};
    optional<UnnamedSemaphore> u;
    optional<SpinSemaphore> s;
    optional<mutex> m;
    optional<SpinLock> l;
    uint32_t tooMuch = uint32_t(SEM_VALUE_MAX) + 1u + uint32_t(r.below(1000));
    auto x = UnnamedSemaphoreBuilder().initialValue(tooMuch).create(u);
    VH_CHECK(x.has_error() && x.error() == SemaphoreError::SEMAPHORE_OVERFLOW && !u, "builder", "a semaphore with a too large value is created");
    auto y = SpinSemaphoreBuilder().initialValue(tooMuch).create(s);
    VH_CHECK(y.has_error() && y.error() == SemaphoreError::SEMAPHORE_OVERFLOW && !s, "builder", "a semaphore with a too large value is created");
    g_initFails = E[r.below(3)];
    auto z = UnnamedSemaphoreBuilder().initialValue(1).create(u);
    auto w = MutexBuilder().create(m);
    g_initFails = 0;
    VH_CHECK(z.has_error() && !u, "builder", "a semaphore whose initialisation fails is reported as created");
    VH_CHECK(w.has_error() && !m, "builder", "a mutex whose initialisation fails is reported as created");
    VH_CHECK(!MutexBuilder().create(m).has_error() && m && !SpinLockBuilder().create(l).has_error() && l, "builder", "locks cannot be created");
    VH_CHECK(!m->lock().has_error() && !l->lock().has_error(), "builder", "locks cannot be locked");
    auto a = MutexBuilder().create(m);
    VH_CHECK(a.has_error() && a.error() == MutexBuilder::Error::LOCK_ALREADY_INITIALIZED, "builder", "a mutex is created twice");
    auto b = SpinLockBuilder().create(l);
    VH_CHECK(b.has_error() && b.error() == SpinLockBuilder::Error::LOCK_ALREADY_INITIALIZED, "builder", "a spin lock is created twice");
    bool got = true, got2 = true;
    std::thread t([&] { got = *m->try_lock() == TryLock::LOCK_SUCCEEDED, got2 = *l->try_lock() == TryLock::LOCK_SUCCEEDED; });
    t.join();
    VH_CHECK(!got && !got2, "builder", "a refused creation frees the lock");
    VH_CHECK(!m->unlock().has_error() && !l->unlock().has_error(), "builder", "locks cannot be unlocked");
    count("builders");
}

void timerCase(Rng& r)
{
    auto iv = [&] { return r.chance(100) ? 0 : r.below(r.chance(500) ? 20000 : 2000000); };
    uint64_t d = iv();
    g_log = fmt("deadline timer %llu", (unsigned long long)d);
    uint64_t a0 = nowNs(CLOCK_MONOTONIC);
    deadline_timer t(units::Duration::fromNanoseconds(d));
    uint64_t a1 = nowNs(CLOCK_MONOTONIC);
    for (size_t i = 0, n = r.range(2, 12); i < n; ++i)
    {
        unsigned op = unsigned(r.below(6));
        if (op == 0)
        {
            a0 = nowNs(CLOCK_MONOTONIC);
            t.reset();
            a1 = nowNs(CLOCK_MONOTONIC);
            g_log += " reset";
        }
        else if (op == 1)
        {
            d = iv();
            a0 = nowNs(CLOCK_MONOTONIC);
            t.reset(units::Duration::fromNanoseconds(d));
            a1 = nowNs(CLOCK_MONOTONIC);
            g_log += fmt(" reset(%llu)", (unsigned long long)d);
        }
        else if (op == 2)
        {
            struct timespec ts{0, long(r.below(d + 20000))};
            nanosleep(&ts, nullptr);
        }
        uint64_t b0 = nowNs(CLOCK_MONOTONIC);
        bool expired = t.hasExpired();
        uint64_t b1 = nowNs(CLOCK_MONOTONIC);
        if (b1 - a0 < d) VH_CHECK(!expired, "timer", "expired after at most %llu ns |%s", (unsigned long long)(b1 - a0), g_log.c_str());
        if (b0 - a1 >= d) VH_CHECK(expired, "timer", "not expired after at least %llu ns |%s", (unsigned long long)(b0 - a1), g_log.c_str());
        b0 = nowNs(CLOCK_MONOTONIC);
        uint64_t left = t.remainingTime().toNanoseconds();
        b1 = nowNs(CLOCK_MONOTONIC);
        uint64_t most = b0 - a1 >= d ? 0 : d - (b0 - a1), least = b1 - a0 >= d ? 0 : d - (b1 - a0);
        VH_CHECK(left <= most && left >= least, "timer", "%llu ns are left instead of %llu to %llu |%s", (unsigned long long)left, (unsigned long long)least, (unsigned long long)most, g_log.c_str());
        count("timer_checks");
    }
}

struct Task
{
    std::atomic<uint64_t>* runs;
    std::atomic<int>* inside;
    std::atomic<uint64_t>* lastEnd;
    std::atomic<uint64_t>* shortest;
    std::atomic<bool>* first;
    void operator()()
    {
        uint64_t now = nowNs(CLOCK_REALTIME);
        if (inside->fetch_add(1) != 0) *shortest = 0;
        if (!first->exchange(false))
        {
            uint64_t d = now - lastEnd->load();
            if (d < shortest->load()) *shortest = d;
        }
        ++*runs;
        inside->fetch_sub(1);
        *lastEnd = nowNs(CLOCK_REALTIME);
    }
};
void taskCase(Rng& r)
{
    std::atomic<uint64_t> runs{0}, lastEnd{0}, shortest{~0ull};
    std::atomic<int> inside{0};
    std::atomic<bool> first{true};
    Task t{&runs, &inside, &lastEnd, &shortest, &first};
    using namespace concurrent::detail;
    auto iv = [&] { return r.below(1500000) + 1000; };
    uint64_t d = iv();
    g_log = "periodic task";
    std::unique_ptr<PeriodicTask<Task>> p;
    bool active = r.chance(500);
    if (active) p.reset(new PeriodicTask<Task>(PeriodicTaskAutoStart, units::Duration::fromNanoseconds(d), "t", t));
    else p.reset(new PeriodicTask<Task>(PeriodicTaskManualStart, "t", t));
    for (size_t i = 0, n = r.range(2, 8); i < n; ++i)
    {
        VH_CHECK(p->is_active() == active, "task_state", "the task is %sactive |%s", active ? "not " : "", g_log.c_str());
        switch (r.below(3))
        {
        case 0:
        {
            p->stop();
            g_log += " stop";
            active = false;
            uint64_t k = runs;
            VH_CHECK(shortest.load() >= d, "task_interval", "two runs %llu ns apart with an interval of %llu |%s", (unsigned long long)shortest.load(), (unsigned long long)d, g_log.c_str());
            struct timespec ts{0, long(r.below(3000000))};
            nanosleep(&ts, nullptr);
            VH_CHECK(runs == k && inside == 0, "task_after_stop", "the task runs after stop |%s", g_log.c_str());
            count("task_stops");
            break;
        }
        case 1:
        {
            p->stop();
            VH_CHECK(!active || shortest.load() >= d, "task_interval", "two runs %llu ns apart with an interval of %llu |%s", (unsigned long long)shortest.load(), (unsigned long long)d, g_log.c_str());
            d = iv();
            first = true;
            shortest = ~0ull;
            uint64_t k = runs;
            g_log += fmt(" start(%llu)", (unsigned long long)d);
            p->start(units::Duration::fromNanoseconds(d));
            active = true;
            size_t want = r.range(1, 3);
            uint64_t end = nowNs(CLOCK_MONOTONIC) + 20000000000ull;
            while (runs < k + want)
            {
                VH_CHECK(nowNs(CLOCK_MONOTONIC) < end, "task_stalled", "the task does not run periodically |%s", g_log.c_str());
                struct timespec ts{0, 100000};
                nanosleep(&ts, nullptr);
            }
            count("task_starts");
            break;
        }
        default:
        {
            struct timespec ts{0, long(r.below(2000000))};
            nanosleep(&ts, nullptr);
        }
        }
    }
    p.reset();
    uint64_t k = runs;
    struct timespec ts{0, 1000000};
    nanosleep(&ts, nullptr);
    VH_CHECK(runs == k, "task_after_stop", "the task runs after its destruction |%s", g_log.c_str());
    VH_CHECK(shortest.load() >= d, "task_interval", "two runs %llu ns apart with an interval of %llu |%s", (unsigned long long)shortest.load(), (unsigned long long)d, g_log.c_str());
    count("task_runs", runs);
}
} // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv, "a random program on a lock or semaphore under one schedule, or a random scenario in real time");
    iox::log::Logger::init(iox::log::LogLevel::Off);
    vh::ctx().trace = &g_log;
    return vh::runCases([&](uint64_t s, uint64_t) {
        Rng r(s);
        if (vh::ctx().mode == "real")
        {
            signal(SIGALRM, onAlarm);
            alarm(60);
            unsigned x = unsigned(r.below(13));
            if (x == 12) timerCase(r);
            else if (x < 4) timedCase(r);
            else if (x < 7) deathCase(r);
            else if (x < 9) processesCase(r);
            else if (x < 10) builderCase(r);
            else taskCase(r);
            alarm(0);
            vh::distinct(s);
            return;
        }
        unsigned x = unsigned(r.below(10));
        if (x < 5) lockCase(r.next());
        else if (x < 9) semCase(r.next());
        else smartCase(r.next());
    });
}
