// C13: multi producer / multi consumer queues under the controlled scheduler, judged by a FIFO linearizability oracle.
#include "common.hpp"
#include "iox/detail/mpmc_lockfree_queue.hpp"
#include "iox/detail/mpmc_resizeable_lockfree_queue.hpp"
#include "life.hpp"
#include "sched.hpp"
#include <memory>
#include <algorithm>
#include <functional>

using namespace vh;

struct Enq { uint64_t v, s, e; };
struct Deq { uint64_t v, s, e; };
struct Ev { uint64_t s, e; uint64_t cap; }; // failing push / eviction / empty pop

struct History
{
    std::vector<Enq> enq;
    std::vector<Deq> deq;
    std::vector<Ev> full;  // operations that claim the queue was full
    std::vector<Ev> empty; // operations that claim the queue was empty
    struct Resize { uint64_t s, e; uint64_t from, to; };
    std::vector<Resize> resizes;
    uint64_t initialCap{0};
    std::string log;
    void note(const std::string& s) { if (log.size() < 3500) log += s; }
};

static uint64_t minCap(const History& h, uint64_t s, uint64_t e)
{
    // smallest capacity that may be in force somewhere in [s,e]
    uint64_t cap = h.initialCap;
    uint64_t best = ~0ull;
    for (auto& r : h.resizes)
    {
        if (r.e < s) { cap = r.to; continue; }
        if (r.s > e) break;
        best = std::min({best, r.from, r.to});
    }
    return std::min(best, cap);
}

static void judge(const History& h, const char* who)
{
    std::map<uint64_t, const Enq*> in;
    std::map<uint64_t, const Deq*> out;
    for (auto& x : h.enq) in[x.v] = &x;
    for (auto& x : h.deq)
    {
        auto it = in.find(x.v);
        VH_CHECK(it != in.end(), "invented", "%s: value %llx taken but never pushed; history:%s", who, (unsigned long long)x.v, h.log.c_str());
        VH_CHECK(!out.count(x.v), "duplicate", "%s: value %llx taken twice; history:%s", who, (unsigned long long)x.v, h.log.c_str());
        VH_CHECK(it->second->s < x.e, "causality", "%s: value %llx taken before pushed", who, (unsigned long long)x.v);
        out[x.v] = &x;
    }
    for (auto& x : h.enq)
        VH_CHECK(out.count(x.v), "lost", "%s: value %llx pushed but neither taken, evicted nor left in the queue; history:%s", who, (unsigned long long)x.v, h.log.c_str());
    for (auto& x : h.enq)
        for (auto& y : h.enq)
            if (x.e < y.s)
            {
                const Deq* dx = out[x.v];
                const Deq* dy = out[y.v];
                VH_CHECK(!(dy->e < dx->s), "order", "%s: %llx pushed before %llx but taken after it; history:%s", who, (unsigned long long)x.v, (unsigned long long)y.v, h.log.c_str());
            }
    // an element is certainly in the queue from the end of its push until the start of its removal; a pop may find
    // the queue empty only if these intervals leave a gap inside the pop's own interval
    std::vector<std::pair<uint64_t, uint64_t>> iv;
    for (auto& x : h.enq)
        if (x.e < out[x.v]->s) iv.push_back({x.e, out[x.v]->s});
    std::sort(iv.begin(), iv.end());
    for (auto& p : h.empty)
    {
        uint64_t covered = p.s; // everything in [p.s, covered) is covered
        for (auto& i : iv)
        {
            if (i.first > covered) break;
            covered = std::max(covered, i.second);
        }
        VH_CHECK(covered <= p.e, "false-empty", "%s: a pop in [%llu,%llu] found the queue empty although there was an element in it all the time; history:%s", who,
                 (unsigned long long)p.s, (unsigned long long)p.e, h.log.c_str());
    }
    for (auto& p : h.full)
    {
        uint64_t possible = 0;
        for (auto& x : h.enq)
            if (!(x.s > p.e) && !(out[x.v]->e < p.s) && !(x.s == p.s)) ++possible;
        VH_CHECK(possible >= minCap(h, p.s, p.e), "false-full", "%s: a push treated the queue as full (capacity %llu) although at most %llu elements can have been in it; history:%s", who,
                 (unsigned long long)minCap(h, p.s, p.e), (unsigned long long)possible, h.log.c_str());
    }
}

struct IQueue
{
    virtual ~IQueue() = default;
    virtual bool tryPush(uint64_t v, bool mv) = 0;
    virtual bool push(uint64_t v, bool mv, uint64_t& evicted) = 0; // true if evicted
    virtual bool pop(uint64_t& v) = 0;
    virtual bool empty() = 0;
    virtual uint64_t size() = 0;
    virtual uint64_t capacity() = 0;
    virtual bool setCapacity(uint64_t, std::function<void(uint64_t)>) { return false; }
    virtual uint64_t maxCapacity() = 0;
};
template <typename Q, uint64_t C>
struct QImpl : IQueue
{
    std::unique_ptr<Q> q = std::make_unique<Q>();
    bool tryPush(uint64_t v, bool mv) override
    {
        Life l(v);
        if (mv) return q->tryPush(std::move(l));
        return q->tryPush(l);
    }
    bool push(uint64_t v, bool mv, uint64_t& ev) override
    {
        Life l(v);
        auto r = mv ? q->push(std::move(l)) : q->push(l);
        if (r.has_value()) { ev = r.value(); return true; }
        return false;
    }
    bool pop(uint64_t& v) override
    {
        auto r = q->pop();
        if (!r.has_value()) return false;
        v = r.value();
        return true;
    }
    bool empty() override { return q->empty(); }
    uint64_t size() override { return q->size(); }
    uint64_t capacity() override { return q->capacity(); }
    uint64_t maxCapacity() override { return C; }
};
template <uint64_t C>
struct RImpl : QImpl<iox::concurrent::MpmcResizeableLockFreeQueue<Life, C>, C>
{
    bool setCapacity(uint64_t c, std::function<void(uint64_t)> f) override
    {
        return this->q->setCapacity(c, [&](const Life& l) { f(l); });
    }
};

static std::unique_ptr<IQueue> makeQueue(Rng& r, bool resizable)
{
    if (resizable)
        switch (r.below(5))
        {
        case 0: return std::make_unique<RImpl<1>>();
        case 1: return std::make_unique<RImpl<2>>();
        case 2: return std::make_unique<RImpl<3>>();
        case 3: return std::make_unique<RImpl<4>>();
        default: return std::make_unique<RImpl<7>>();
        }
    switch (r.below(5))
    {
    case 0: return std::make_unique<QImpl<iox::concurrent::MpmcLockFreeQueue<Life, 1>, 1>>();
    case 1: return std::make_unique<QImpl<iox::concurrent::MpmcLockFreeQueue<Life, 2>, 2>>();
    case 2: return std::make_unique<QImpl<iox::concurrent::MpmcLockFreeQueue<Life, 3>, 3>>();
    case 3: return std::make_unique<QImpl<iox::concurrent::MpmcLockFreeQueue<Life, 4>, 4>>();
    default: return std::make_unique<QImpl<iox::concurrent::MpmcLockFreeQueue<Life, 8>, 8>>();
    }
}

static void doPop(IQueue& q, History& h)
{
    uint64_t s = vs::now(), v = 0;
    bool ok = q.pop(v);
    uint64_t e = vs::now();
    h.note(fmt(" %d:pop[%llu,%llu]=%s%llx", vs::self(), (unsigned long long)s, (unsigned long long)e, ok ? "" : "empty", (unsigned long long)v));
    if (ok) { h.deq.push_back({v, s, e}); count("pops"); }
    else { h.empty.push_back({s, e, 0}); count("empty_pops"); }
}

static void concurrentCase(uint64_t seed, bool resizable)
{
    Rng r(seed);
    int64_t live0 = Life::live();
    {
        auto q = makeQueue(r, resizable);
        History h;
        uint64_t cap = q->maxCapacity();
        if (resizable && r.chance(500))
        {
            uint64_t c = r.range(1, cap);
            VH_CHECK(q->setCapacity(c, [](uint64_t) {}), "setcap", "setCapacity refused in range");
            cap = c;
        }
        h.initialCap = cap;
        // prefill / rotate, so that cycles differ
        uint64_t serial = 1;
        for (uint64_t i = r.below(2 * cap + 1); i > 0; --i)
        {
            uint64_t v = serial++, s = vs::now(), ev = 0;
            bool evd = q->push(v, false, ev);
            uint64_t e = vs::now();
            h.enq.push_back({v, s, e});
            if (evd) { h.deq.push_back({ev, s, e}); h.full.push_back({s, e, cap}); }
            if (r.chance(300)) doPop(*q, h);
        }
        unsigned nt = unsigned(r.range(2, 4));
        unsigned nops = unsigned(r.range(2, 7));
        uint32_t pushBias = uint32_t(r.range(200, 800));
        bool useTry = r.chance(500), usePush = r.chance(700) || !useTry;
        uint64_t resizer = resizable ? r.below(nt + 1) : 99;
        std::vector<std::function<void()>> bodies;
        for (unsigned t = 0; t < nt; ++t)
        {
            uint64_t ts = r.next();
            bodies.push_back([&, t, ts, nops] {
                Rng tr(ts);
                uint64_t curCap = cap;
                for (unsigned i = 0; i < nops; ++i)
                {
                    if (t == resizer && tr.chance(400))
                    {
                        uint64_t nc = tr.range(0, q->maxCapacity());
                        History::Resize rz{vs::now(), ~0ull, curCap, nc};
                        size_t at = h.resizes.size();
                        h.resizes.push_back(rz);
                        std::vector<uint64_t> removed;
                        uint64_t s = rz.s;
                        bool ok = q->setCapacity(nc, [&](uint64_t v) { removed.push_back(v); });
                        uint64_t e = vs::now();
                        VH_CHECK(ok, "setcap", "the only resizer was refused");
                        h.resizes[at].e = e;
                        h.note(fmt(" %d:cap(%llu->%llu)[%llu,%llu] removed %zu", vs::self(), (unsigned long long)curCap, (unsigned long long)nc, (unsigned long long)s, (unsigned long long)e, removed.size()));
                        curCap = nc;
                        VH_CHECK(q->capacity() == nc, "capacity", "capacity() = %llu after setCapacity(%llu)", (unsigned long long)q->capacity(), (unsigned long long)nc);
                        for (auto v : removed) h.deq.push_back({v, s, e});
                        count("resizes");
                        continue;
                    }
                    if (tr.chance(pushBias))
                    {
                        uint64_t v = (uint64_t(t + 1) << 32) | (i + 1);
                        bool mv = tr.chance(500);
                        uint64_t s = vs::now();
                        bool tryIt = useTry && (!usePush || tr.chance(500));
                        // an overflowing push on capacity 0 is not meaningful: it waits for a capacity
                        if (resizable && resizer != 99) tryIt = tryIt || resizer < nt;
                        if (tryIt)
                        {
                            bool ok = q->tryPush(v, mv);
                            uint64_t e = vs::now();
                            h.note(fmt(" %d:try(%llx)[%llu,%llu]=%d", vs::self(), (unsigned long long)v, (unsigned long long)s, (unsigned long long)e, ok));
                            if (ok) { h.enq.push_back({v, s, e}); count("pushes"); }
                            else { h.full.push_back({s, e, 0}); count("refused_pushes"); }
                        }
                        else
                        {
                            uint64_t ev = 0;
                            bool evd = q->push(v, mv, ev);
                            uint64_t e = vs::now();
                            h.note(fmt(" %d:push(%llx)[%llu,%llu] evicts %llx", vs::self(), (unsigned long long)v, (unsigned long long)s, (unsigned long long)e, (unsigned long long)ev));
                            h.enq.push_back({v, s, e});
                            count("pushes");
                            if (evd) { h.deq.push_back({ev, s, e}); h.full.push_back({s, e, 0}); count("evictions"); }
                        }
                    }
                    else
                        doPop(*q, h);
                    VH_CHECK(q->size() <= q->maxCapacity(), "size", "size() = %llu exceeds the maximum capacity", (unsigned long long)q->size());
                }
            });
        }
        vs::Options o;
        o.seed = r.next();
        auto res = vs::run(bodies, o);
        if (res.switches > nt) distinct(mix(res.hash, std::hash<std::string>()(h.log)));
        count("schedule_points", res.steps);
        count("context_switches", res.switches);
        // quiescent: the rest
        uint64_t n = q->size();
        VH_CHECK(q->empty() == (n == 0), "empty", "empty() contradicts size() at quiescence");
        VH_CHECK(n <= q->capacity(), "size", "size() %llu exceeds capacity %llu at quiescence", (unsigned long long)n, (unsigned long long)q->capacity());
        uint64_t got = 0;
        size_t before = h.deq.size();
        for (uint64_t i = 0; i < 64; ++i)
        {
            size_t b = h.deq.size();
            doPop(*q, h);
            if (h.deq.size() == b) break;
            ++got;
        }
        (void)before;
        VH_CHECK(got == n, "size", "size() said %llu but %llu elements were in the queue; history:%s", (unsigned long long)n, (unsigned long long)got, h.log.c_str());
        // the queue must still offer its full capacity
        uint64_t c = q->capacity();
        for (uint64_t i = 0; i < c; ++i)
        {
            uint64_t v = 0xF000 + i, s = vs::now();
            bool ok = q->tryPush(v, false);
            VH_CHECK(ok, "capacity-lost", "after the run only %llu of %llu elements fit; history:%s", (unsigned long long)i, (unsigned long long)c, h.log.c_str());
            h.enq.push_back({v, s, vs::now()});
        }
        VH_CHECK(!q->tryPush(0xFFFF, false), "capacity-gained", "more than the capacity fits");
        for (uint64_t i = 0; i < c; ++i) doPop(*q, h);
        judge(h, resizable ? "resizeable queue" : "queue");
        count("histories");
        if (h.log.size() > 100 && ctx().samples.size() < 3) sample(fmt("cap %llu threads %u:", (unsigned long long)cap, nt) + h.log.substr(0, 500));
    }
    VH_CHECK(Life::live() == live0, "leak", "%lld elements leaked", (long long)(Life::live() - live0));
}

// sequential histories with strict bounded-FIFO model (exact results), long enough for many index cycles
static void sequentialCase(uint64_t seed)
{
    Rng r(seed);
    bool rz = r.chance(500);
    int64_t live0 = Life::live();
    {
        auto q = makeQueue(r, rz);
        std::vector<uint64_t> m;
        uint64_t cap = q->maxCapacity();
        uint64_t serial = 1;
        for (int i = 0; i < 400; ++i)
        {
            uint64_t k = r.below(rz ? 12 : 10);
            if (k < 3)
            {
                uint64_t v = serial++;
                bool ok = q->tryPush(v, r.chance(500));
                VH_CHECK(ok == (m.size() < cap), "seq-tryPush", "tryPush = %d with %zu of %llu", ok, m.size(), (unsigned long long)cap);
                if (ok) m.push_back(v);
            }
            else if (k < 6 && cap > 0)
            {
                uint64_t v = serial++, ev = 0;
                bool e = q->push(v, r.chance(500), ev);
                VH_CHECK(e == (m.size() >= cap), "seq-push", "push evicts = %d with %zu of %llu", e, m.size(), (unsigned long long)cap);
                if (e)
                {
                    VH_CHECK(ev == m.front(), "seq-evict", "evicted %llx instead of the oldest %llx", (unsigned long long)ev, (unsigned long long)m.front());
                    m.erase(m.begin());
                }
                m.push_back(v);
            }
            else if (k < 10)
            {
                uint64_t v = 0;
                bool ok = q->pop(v);
                VH_CHECK(ok == !m.empty(), "seq-pop", "pop = %d with %zu elements", ok, m.size());
                if (ok)
                {
                    VH_CHECK(v == m.front(), "seq-order", "popped %llx instead of %llx", (unsigned long long)v, (unsigned long long)m.front());
                    m.erase(m.begin());
                }
            }
            else if (rz)
            {
                uint64_t nc = r.range(0, q->maxCapacity() + 1);
                std::vector<uint64_t> rem;
                bool ok = q->setCapacity(nc, [&](uint64_t v) { rem.push_back(v); });
                VH_CHECK(ok == (nc <= q->maxCapacity()), "seq-setcap", "setCapacity(%llu) = %d", (unsigned long long)nc, ok);
                if (ok)
                {
                    cap = nc;
                    std::vector<uint64_t> want;
                    while (m.size() > cap) { want.push_back(m.front()); m.erase(m.begin()); }
                    VH_CHECK(rem == want, "seq-resize", "shrinking removed %zu elements instead of the %zu oldest", rem.size(), want.size());
                }
                else
                    VH_CHECK(rem.empty(), "seq-setcap", "refused setCapacity removed elements");
            }
            VH_CHECK(q->size() == m.size() && q->empty() == m.empty() && q->capacity() == cap, "seq-size",
                     "size %llu empty %d capacity %llu, expected %zu/%llu", (unsigned long long)q->size(), q->empty(), (unsigned long long)q->capacity(), m.size(), (unsigned long long)cap);
        }
        // the queue does not own its elements beyond its life (it is meant for shared memory): drain it
        for (uint64_t v = 0; q->pop(v);)
        {
            VH_CHECK(!m.empty() && v == m.front(), "seq-order", "drained element out of order");
            m.erase(m.begin());
        }
        count("sequential_ops", 400);
    }
    VH_CHECK(Life::live() == live0, "leak", "%lld elements leaked", (long long)(Life::live() - live0));
}

// index queue: wrap-around of the cycle counter with small value types
template <uint64_t C, typename V>
static void indexQueueCase(Rng& r)
{
    using Q = iox::concurrent::MpmcIndexQueue<C, V>;
    bool full = r.chance(500);
    std::unique_ptr<Q> q = full ? std::make_unique<Q>(Q::ConstructFull) : std::make_unique<Q>(Q::ConstructEmpty);
    std::vector<V> m, avail;
    for (uint64_t i = 0; i < C; ++i) (full ? m : avail).push_back(V(i));
    for (int i = 0; i < 900; ++i)
    {
        uint64_t k = r.below(8);
        V v{};
        if (k < 4)
        {
            if (avail.empty()) continue;
            size_t at = r.below(avail.size());
            v = avail[at];
            avail.erase(avail.begin() + long(at));
            q->push(v);
            m.push_back(v);
        }
        else
        {
            iox::optional<V> o;
            bool want;
            uint64_t n = r.below(C + 2);
            if (k < 6) { o = q->pop(); want = !m.empty(); }
            else if (k == 6) { o = q->popIfFull(); want = m.size() == C; }
            else { o = q->popIfSizeIsAtLeast(n); want = !m.empty() && m.size() >= n; }
            bool ok = o.has_value();
            if (ok) v = o.value();
            VH_CHECK(ok == want, "index-pop", "index queue<%llu>: pop kind %llu = %d with %zu elements (n=%llu)", (unsigned long long)C, (unsigned long long)k, ok, m.size(), (unsigned long long)n);
            if (ok)
            {
                VH_CHECK(v == m.front(), "index-order", "index queue<%llu>: got %llu instead of %llu", (unsigned long long)C, (unsigned long long)v, (unsigned long long)m.front());
                m.erase(m.begin());
                avail.push_back(v);
            }
        }
        VH_CHECK(q->empty() == m.empty(), "index-empty", "index queue: empty() wrong");
    }
    count("index_queue_ops", 900);
}

int main(int argc, char** argv)
{
    init(argc, argv,
         "case = random queue type (fixed/resizeable, capacity 1..8), random prefill, 2-4 threads with 2-7 random operations each, "
         "one controlled schedule; non-trivial = more context switches than threads, distinct by the sequence of scheduling decisions and the history they produced");
    vs::setStuckHandler([](const std::string& w) { fail("stuck", w); });
    return runCases([](uint64_t s, uint64_t i) {
        if (i % 16 == 0)
        {
            sequentialCase(s);
            Rng r(s);
            indexQueueCase<1, uint64_t>(r);
            indexQueueCase<4, uint64_t>(r);
            indexQueueCase<5, uint32_t>(r);
            indexQueueCase<3, uint16_t>(r);
        }
        else
            concurrentCase(s, i % 2 == 0);
    });
}
