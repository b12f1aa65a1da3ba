// C26: documented concurrent use in freely running threads under ThreadSanitizer. All memory which is handed over by the
// queues, pools and endpoints is written and read with plain accesses, hence a missing happens-before edge is a reported race.
#include "common.hpp"
#include "env.hpp"
#include "iceoryx_posh/internal/mepoo/shared_chunk.hpp"
#include "iox/detail/mpmc_lockfree_queue.hpp"
#include "iox/detail/mpmc_loffli.hpp"
#include "iox/detail/mpmc_resizeable_lockfree_queue.hpp"
#include "iox/detail/periodic_task.hpp"
#include "iox/detail/spsc_fifo.hpp"
#include "iox/detail/spsc_sofi.hpp"
#include "iox/smart_lock.hpp"
#include "iox/spin_lock.hpp"
#include "sched.hpp"
#include "world.hpp"
#include <functional>
#include <mutex>
#include <thread>

#if __has_feature(thread_sanitizer)
#include <sanitizer/tsan_interface.h>
#include <sys/socket.h>
#include <sys/syscall.h>
// what is sent over a socket happens before its reception; the sanitizer does not know this for datagrams
static char g_wire;
extern "C" ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l)
{
    __tsan_release(&g_wire);
    return syscall(SYS_sendto, fd, b, n, fl, a, l);
}
extern "C" ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l)
{
    auto r = syscall(SYS_recvfrom, fd, b, n, fl, a, l);
    if (r >= 0) __tsan_acquire(&g_wire);
    return r;
}
#endif

using namespace iox;
using namespace vh;
using namespace vw;
using units::Duration;

namespace
{
// counters which do not synchronise the threads
struct Counter
{
    const char* name;
    std::atomic<uint64_t> n{0};
    Counter* next;
    static std::atomic<Counter*>& head() { static std::atomic<Counter*> h{nullptr}; return h; }
    explicit Counter(const char* s) : name(s), next(head().load(std::memory_order_relaxed))
    {
        while (!head().compare_exchange_weak(next, this, std::memory_order_release, std::memory_order_relaxed)) {}
    }
    static void flush()
    {
        for (auto* c = head().load(std::memory_order_acquire); c; c = c->next) vh::count(c->name, c->n.exchange(0, std::memory_order_relaxed));
    }
};
#define TC(what) do { static Counter* c_ = new Counter(what); c_->n.fetch_add(1, std::memory_order_relaxed); } while (0)
using Bodies = std::vector<std::function<void(Rng&)>>;
void go(Rng& r, Bodies& b)
{
    vs::setPerturb(uint32_t(r.below(4) * 15), r.next());
    std::vector<uint64_t> seeds;
    for (size_t i = 0; i < b.size(); ++i) seeds.push_back(r.next());
    std::vector<std::thread> t;
    for (size_t i = 0; i < b.size(); ++i)
        t.emplace_back([&, i] {
            Rng rr(seeds[i]);
            b[i](rr);
        });
    for (auto& x : t) x.join();
    vs::setPerturb(0, 1);
    Counter::flush();
    count("threads", b.size());
}
void nap(Rng& r)
{
    if (r.chance(100)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(100)));
    else if (r.chance(200)) std::this_thread::yield();
}
struct Cell
{
    uint64_t w[4]{};
    void write(uint64_t v) { for (auto& x : w) x = v; }
    void check(const char* who) const { for (auto& x : w) VH_CHECK(x == w[0], "torn", "%s: torn content", who); }
};
struct Val
{
    uint64_t idx, a[3];
    Val(uint64_t i = 0) : idx(i), a{i, i, i} {}
    void check(const char* who) const { VH_CHECK(a[0] == idx && a[1] == idx && a[2] == idx, "torn", "%s: torn element", who); }
};

template <typename Q>
optional<Val> popOf(Q& q)
{
    if constexpr (std::is_same<Q, concurrent::SpscSofi<Val, 8>>::value)
    {
        Val v;
        return q.pop(v) ? optional<Val>(v) : nullopt;
    }
    else return q.pop();
}
// ---- queues: cells circulate between a queue of free ones and a queue of filled ones ----
template <typename Q, typename Push>
void circulate(Rng& r, const char* who, Q& freeQ, Q& fullQ, size_t cells, size_t nProd, size_t nCons, Push push)
{
    std::vector<Cell> cell(cells);
    for (size_t i = 0; i < cells; ++i) VH_CHECK(push(freeQ, freeQ, Val(i)), "harness", "%s: cannot fill", who);
    std::atomic<size_t> producing{nProd};
    size_t per = 40 + r.below(100);
    Bodies b;
    for (size_t i = 0; i < nProd; ++i)
        b.push_back([&](Rng& rr) {
            for (size_t k = 0; k < per; ++k)
            {
                auto v = popOf(freeQ);
                if (!v.has_value())
                {
                    nap(rr);
                    continue;
                }
                v->check(who);
                cell[v->idx].write(rr.next());
                while (!push(fullQ, freeQ, *v)) std::this_thread::yield();
                TC("handed_over");
                nap(rr);
            }
            producing.fetch_sub(1, std::memory_order_relaxed);
        });
    for (size_t i = 0; i < nCons; ++i)
        b.push_back([&](Rng& rr) {
            while (producing.load(std::memory_order_relaxed) != 0)
            {
                auto v = popOf(fullQ);
                if (!v.has_value())
                {
                    nap(rr);
                    continue;
                }
                v->check(who);
                cell[v->idx].check(who);
                nap(rr);
                while (!push(freeQ, freeQ, *v)) std::this_thread::yield();
            }
        });
    go(r, b);
    count("queue_runs");
}
template <typename Q>
void spsc(Rng& r, const char* who)
{
    // single producer and consumer in both directions
    std::unique_ptr<Q> f(new Q), q(new Q);
    circulate(r, who, *f, *q, 1 + r.below(6), 1, 1, [](Q& to, Q&, const Val& v) {
        if constexpr (std::is_same<Q, concurrent::SpscSofi<Val, 8>>::value)
        {
            Val ev;
            bool ok = to.push(v, ev);
            VH_CHECK(ok, "overflow", "SpscSofi overflowed although it has room");
            return true;
        }
        else return to.push(v);
    });
}
// the overflowing queue: what is evicted returns to the producer
void sofiOverflow(Rng& r)
{
    using Q = concurrent::SpscSofi<uint64_t, 4>;
    std::unique_ptr<Q> q(new Q);
    std::vector<Cell> cell(16);
    concurrent::MpmcLockFreeQueue<uint64_t, 16> back;
    for (uint64_t i = 0; i < 16; ++i) back.tryPush(i);
    std::atomic<bool> done{false};
    Bodies b;
    b.push_back([&](Rng& rr) {
        for (int k = 0; k < 200; ++k)
        {
            auto i = back.pop();
            if (!i.has_value()) continue;
            cell[*i].write(rr.next());
            uint64_t ev;
            if (!q->push(*i, ev))
            {
                cell[ev].check("sofi");
                back.tryPush(ev);
                TC("evictions");
            }
            nap(rr);
        }
        done.store(true, std::memory_order_relaxed);
    });
    b.push_back([&](Rng& rr) {
        while (!done.load(std::memory_order_relaxed))
        {
            uint64_t i;
            if (q->pop(i))
            {
                cell[i].check("sofi");
                nap(rr);
                back.tryPush(i);
                TC("handed_over");
            }
            nap(rr);
        }
    });
    go(r, b);
    count("queue_runs");
}
void loffli(Rng& r)
{
    uint32_t n = 1 + uint32_t(r.below(8));
    concurrent::MpmcLoFFLi l;
    std::vector<uint32_t> mem(concurrent::MpmcLoFFLi::requiredIndexMemorySize(n) / 4 + 1);
    l.init(mem.data(), n);
    std::vector<Cell> cell(n);
    Bodies b;
    size_t nt = 2 + r.below(4);
    for (size_t t = 0; t < nt; ++t)
        b.push_back([&](Rng& rr) {
            for (int k = 0; k < 100; ++k)
            {
                uint32_t i;
                if (l.pop(i))
                {
                    cell[i].write(rr.next());
                    cell[i].check("index list");
                    nap(rr);
                    VH_CHECK(l.push(i), "refused", "the index list refuses an index it gave out");
                    TC("handed_over");
                }
                nap(rr);
            }
        });
    go(r, b);
    count("queue_runs");
}
void queues(Rng& r)
{
    size_t np = 1 + r.below(3), nc = 1 + r.below(3);
    switch (r.below(7))
    {
    case 0:
    {
        using Q = concurrent::MpmcLockFreeQueue<Val, 8>;
        std::unique_ptr<Q> f(new Q), q(new Q);
        circulate(r, "MpmcLockFreeQueue", *f, *q, 1 + r.below(8), np, nc, [](Q& to, Q&, const Val& v) { return to.tryPush(v); });
        break;
    }
    case 1:
    {
        using Q = concurrent::MpmcLockFreeQueue<Val, 16>;
        std::unique_ptr<Q> f(new Q), q(new Q);
        // whatever overflows goes to the free ones
        circulate(r, "MpmcLockFreeQueue(overflow)", *f, *q, 1 + r.below(16), np, nc, [](Q& to, Q& fr, const Val& v) {
            auto e = to.push(v);
            if (e.has_value())
            {
                e->check("evicted");
                VH_CHECK(fr.tryPush(*e), "refused", "queue refuses an element although it has room");
            }
            return true;
        });
        break;
    }
    case 2:
    {
        using Q = concurrent::MpmcResizeableLockFreeQueue<Val, 16>;
        std::unique_ptr<Q> f(new Q(16)), q(new Q(1 + r.below(16)));
        circulate(r, "MpmcResizeableLockFreeQueue", *f, *q, 1 + r.below(16), np, nc, [](Q& to, Q& fr, const Val& v) {
            auto e = to.push(v);
            if (e.has_value())
            {
                e->check("evicted");
                VH_CHECK(fr.tryPush(*e), "refused", "queue refuses an element although it has room");
                TC("evictions");
            }
            return true;
        });
        break;
    }
    case 3: spsc<concurrent::SpscFifo<Val, 8>>(r, "SpscFifo"); break;
    case 4: spsc<concurrent::SpscSofi<Val, 8>>(r, "SpscSofi"); break;
    case 5: sofiOverflow(r); break;
    default: loffli(r); break;
    }
}

// ---- pools: one writer gets a chunk, several readers hold it ----
void pool(Rng& r)
{
    Pools p({{64, uint32_t(1 + r.below(4))}, {128, uint32_t(1 + r.below(3))}});
    size_t nw = 1 + r.below(2), nr = 2 + r.below(3);
    struct Slot
    {
        std::atomic<int> full{0};
        mepoo::SharedChunk c;
    };
    std::vector<std::unique_ptr<Slot>> slot;
    for (size_t i = 0; i < nw * nr; ++i) slot.emplace_back(new Slot);
    std::atomic<size_t> writing{nw};
    Bodies b;
    for (size_t w = 0; w < nw; ++w)
        b.push_back([&, w](Rng& rr) {
            for (int k = 0; k < 80; ++k)
            {
                uint32_t size = uint32_t(8 + rr.below(100));
                auto s = mepoo::ChunkSettings::create(size, 8);
                auto e = p.mm->getChunk(s.value());
                if (e.has_error())
                {
                    nap(rr);
                    continue;
                }
                {
                    mepoo::SharedChunk c = std::move(e.value());
                    fill(c.getUserPayload(), size, rr.next() | 1);
                    static_cast<uint32_t*>(c.getUserPayload())[0] = size;
                    for (size_t i = 0; i < nr; ++i)
                    {
                        auto& sl = *slot[w * nr + i];
                        if (rr.chance(800) && sl.full.load(std::memory_order_acquire) == 0)
                        {
                            sl.c = c;
                            sl.full.store(1, std::memory_order_release);
                        }
                    }
                }
                TC("chunks");
                nap(rr);
            }
            writing.fetch_sub(1, std::memory_order_relaxed);
        });
    for (size_t i = 0; i < nr; ++i)
        b.push_back([&, i](Rng& rr) {
            uint64_t sum = 0;
            for (;;)
            {
                bool end = writing.load(std::memory_order_relaxed) == 0;
                for (size_t w = 0; w < nw; ++w)
                {
                    auto& sl = *slot[w * nr + i];
                    if (sl.full.load(std::memory_order_acquire) == 1)
                    {
                        mepoo::SharedChunk c = std::move(sl.c);
                        sl.full.store(0, std::memory_order_release);
                        auto* q = static_cast<const uint8_t*>(c.getUserPayload());
                        uint32_t n = static_cast<const uint32_t*>(c.getUserPayload())[0];
                        VH_CHECK(n >= 8 && n < 108, "content", "a held chunk was overwritten");
                        nap(rr);
                        for (uint32_t k = 0; k < n; ++k) sum += q[k];
                        TC("handed_over");
                        // held for a while, released afterwards
                        if (rr.chance(300)) nap(rr);
                    }
                }
                if (end) break;
                nap(rr);
            }
            volatile uint64_t sink = sum;
            (void)sink;
        });
    go(r, b);
    slot.clear();
    for (uint32_t i = 0; i < p.n(); ++i) VH_CHECK(p.info(i).m_usedChunks == 0, "leak", "%u chunks still used", p.info(i).m_usedChunks);
    count("pool_runs");
}

// ---- endpoints ----
struct Net
{
    World& w{World::get()};
    Pools pools;
    std::mutex daemon; // the daemon handles requests and discovery one after the other
    Net(Rng& r)
        : pools({{128, uint32_t(20 + r.below(200))}})
    {
    }
    void discover()
    {
        std::lock_guard<std::mutex> g(daemon);
        w.discover();
    }
    template <typename T, typename F>
    std::unique_ptr<T> make(F f)
    {
        std::lock_guard<std::mutex> g(daemon);
        auto d = f();
        VH_CHECK(!d.has_error(), "create", "creating an endpoint failed");
        return std::make_unique<T>(d.value());
    }
    std::unique_ptr<UPub> pub(const capro::ServiceDescription& sd, const popo::PublisherOptions& o, unsigned a)
    {
        return make<UPub>([&] { return w.pm->acquirePublisherPortData(sd, o, appName(a), pools.mm.get(), roudi::PortManager::PortConfigInfo()); });
    }
    std::unique_ptr<USub> sub(const capro::ServiceDescription& sd, const popo::SubscriberOptions& o, unsigned a)
    {
        return make<USub>([&] { return w.pm->acquireSubscriberPortData(sd, o, appName(a), roudi::PortManager::PortConfigInfo()); });
    }
    std::unique_ptr<UClient> client(const capro::ServiceDescription& sd, const popo::ClientOptions& o, unsigned a)
    {
        return make<UClient>([&] { return w.pm->acquireClientPortData(sd, o, appName(a), pools.mm.get(), roudi::PortManager::PortConfigInfo()); });
    }
    std::unique_ptr<UServer> server(const capro::ServiceDescription& sd, const popo::ServerOptions& o, unsigned a)
    {
        return make<UServer>([&] { return w.pm->acquireServerPortData(sd, o, appName(a), pools.mm.get(), roudi::PortManager::PortConfigInfo()); });
    }
    popo::ConditionVariableData& cv()
    {
        std::lock_guard<std::mutex> g(daemon);
        auto d = w.pm->acquireConditionVariableData(appName(99));
        VH_CHECK(!d.has_error(), "create", "no condition variable");
        return *d.value();
    }
};
void writePayload(void* p, uint64_t id)
{
    static_cast<uint64_t*>(p)[0] = id;
    for (int i = 1; i < 6; ++i) static_cast<uint64_t*>(p)[i] = id * uint64_t(i);
}
void readPayload(const void* p)
{
    auto* q = static_cast<const uint64_t*>(p);
    uint64_t id = q[0];
    for (int i = 1; i < 6; ++i) VH_CHECK(q[i] == id * uint64_t(i), "content", "payload changed while it is read");
    TC("payloads_read");
}
const capro::ServiceDescription SD = svc("Race", "One", "Data");

void pubsub(Rng& r)
{
    Net n(r);
    size_t np = 1 + r.below(3), ns = 1 + r.below(4);
    bool block = r.chance(300);
    std::vector<std::unique_ptr<UPub>> pubs;
    std::vector<std::unique_ptr<USub>> subs;
    for (size_t i = 0; i < np; ++i)
    {
        popo::PublisherOptions o;
        o.historyCapacity = r.chance(400) ? 1 + r.below(5) : 0;
        o.subscriberTooSlowPolicy = block ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        pubs.push_back(n.pub(SD, o, unsigned(i)));
    }
    auto subOpts = [&](Rng& rr) {
        popo::SubscriberOptions o;
        o.queueCapacity = 1 + rr.below(8);
        o.historyRequest = rr.below(o.queueCapacity + 1);
        o.queueFullPolicy = block && rr.chance(500) ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
        return o;
    };
    for (size_t i = 0; i < ns; ++i) subs.push_back(n.sub(SD, subOpts(r), unsigned(20 + i)));
    n.discover();
    n.discover();
    std::atomic<size_t> producing{np};
    Bodies b;
    for (size_t i = 0; i < np; ++i)
        b.push_back([&, i](Rng& rr) {
            for (int k = 0; k < 60; ++k)
            {
                auto l = pubs[i]->loan(48, 8);
                if (l.has_error())
                {
                    nap(rr);
                    continue;
                }
                writePayload(l.value(), rr.next());
                if (rr.chance(100)) pubs[i]->release(l.value());
                else pubs[i]->publish(l.value());
                TC("published");
                if (rr.chance(20))
                {
                    pubs[i]->stopOffer();
                    nap(rr);
                    pubs[i]->offer();
                }
                (void)pubs[i]->hasSubscribers();
                nap(rr);
            }
            producing.fetch_sub(1, std::memory_order_relaxed);
        });
    for (size_t i = 0; i < ns; ++i)
        b.push_back([&, i](Rng& rr) {
            std::vector<const void*> held;
            while (producing.load(std::memory_order_relaxed) != 0)
            {
                auto t = subs[i]->take();
                if (!t.has_error())
                {
                    readPayload(t.value());
                    held.push_back(t.value());
                }
                while (!held.empty() && (held.size() > 3 || rr.chance(600)))
                {
                    size_t k = rr.below(held.size());
                    readPayload(held[k]);
                    subs[i]->release(held[k]);
                    held.erase(held.begin() + long(k));
                }
                (void)subs[i]->hasData();
                (void)subs[i]->hasMissedData();
                (void)subs[i]->getSubscriptionState();
                if (rr.chance(10))
                {
                    subs[i]->unsubscribe();
                    nap(rr);
                    subs[i]->subscribe();
                }
                nap(rr);
            }
            for (auto p : held) subs[i]->release(p);
        });
    // the daemon
    b.push_back([&](Rng& rr) {
        while (producing.load(std::memory_order_relaxed) != 0)
        {
            n.discover();
            std::this_thread::sleep_for(std::chrono::microseconds(rr.below(300)));
        }
    });
    // endpoints which come and go
    b.push_back([&](Rng& rr) {
        while (producing.load(std::memory_order_relaxed) != 0)
        {
            if (rr.chance(500))
            {
                auto o = subOpts(rr);
                o.queueFullPolicy = popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
                auto s = n.sub(SD, o, 50);
                for (size_t k = rr.below(20); k > 0; --k)
                {
                    auto t = s->take();
                    if (!t.has_error())
                    {
                        readPayload(t.value());
                        s->release(t.value());
                    }
                    std::this_thread::sleep_for(std::chrono::microseconds(rr.below(100)));
                }
            }
            else
            {
                popo::PublisherOptions o;
                o.subscriberTooSlowPolicy = block ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
                auto p = n.pub(SD, o, 51);
                for (size_t k = rr.below(5); k > 0; --k)
                {
                    auto l = p->loan(48, 8);
                    if (!l.has_error() && producing.load(std::memory_order_relaxed) != 0 && !block)
                    {
                        writePayload(l.value(), rr.next());
                        p->publish(l.value());
                    }
                    else if (!l.has_error()) p->release(l.value());
                    std::this_thread::sleep_for(std::chrono::microseconds(rr.below(100)));
                }
            }
            TC("short_lived");
            n.discover();
        }
    });
    // consumers may be gone when a producer still waits for them: keep draining
    go(r, b);
    pubs.clear();
    subs.clear();
    for (int i = 0; i < 3; ++i) n.discover();
    n.w.checkNoPorts("race");
    count("pubsub_runs");
}
void rpc(Rng& r)
{
    Net n(r);
    size_t nc = 1 + r.below(4);
    popo::ServerOptions so;
    so.requestQueueCapacity = 1 + r.below(16);
    auto srv = n.server(SD, so, 1);
    std::vector<std::unique_ptr<UClient>> cl;
    for (size_t i = 0; i < nc; ++i)
    {
        popo::ClientOptions co;
        co.responseQueueCapacity = 1 + r.below(8);
        cl.push_back(n.client(SD, co, unsigned(10 + i)));
    }
    n.discover();
    n.discover();
    std::atomic<size_t> asking{nc};
    Bodies b;
    for (size_t i = 0; i < nc; ++i)
        b.push_back([&, i](Rng& rr) {
            for (int k = 0; k < 50; ++k)
            {
                auto l = cl[i]->loan(48, 8);
                if (!l.has_error())
                {
                    writePayload(l.value(), rr.next());
                    if (rr.chance(100)) cl[i]->releaseRequest(l.value());
                    else if (!cl[i]->send(l.value()).has_error()) TC("requests");
                }
                for (int m = 0; m < 3; ++m)
                {
                    auto t = cl[i]->take();
                    if (!t.has_error())
                    {
                        readPayload(t.value());
                        nap(rr);
                        cl[i]->releaseResponse(t.value());
                        TC("responses");
                    }
                    nap(rr);
                }
                (void)cl[i]->hasMissedResponses();
                (void)cl[i]->getConnectionState();
                if (rr.chance(20))
                {
                    cl[i]->disconnect();
                    nap(rr);
                    cl[i]->connect();
                }
            }
            asking.fetch_sub(1, std::memory_order_relaxed);
        });
    b.push_back([&](Rng& rr) {
        while (asking.load(std::memory_order_relaxed) != 0)
        {
            auto t = srv->take();
            if (t.has_error())
            {
                nap(rr);
                continue;
            }
            readPayload(t.value());
            auto h = popo::RequestHeader::fromPayload(t.value());
            auto l = srv->loan(h, 48, 8);
            if (!l.has_error())
            {
                writePayload(l.value(), rr.next());
                (void)srv->send(l.value());
            }
            readPayload(t.value());
            srv->releaseRequest(t.value());
            if (rr.chance(10))
            {
                srv->stopOffer();
                nap(rr);
                srv->offer();
            }
        }
    });
    b.push_back([&](Rng& rr) {
        while (asking.load(std::memory_order_relaxed) != 0)
        {
            n.discover();
            std::this_thread::sleep_for(std::chrono::microseconds(rr.below(300)));
            if (rr.chance(100))
            {
                popo::ClientOptions co;
                auto c = n.client(SD, co, 40);
                n.discover();
                std::this_thread::sleep_for(std::chrono::microseconds(rr.below(300)));
                TC("short_lived");
            }
        }
    });
    go(r, b);
    cl.clear();
    srv.reset();
    for (int i = 0; i < 3; ++i) n.discover();
    n.w.checkNoPorts("race");
    count("rpc_runs");
}

// ---- notifications ----
struct Box
{
    std::atomic<uint64_t> calls{0};
};
void onData(USub* s, Box* b)
{
    for (;;)
    {
        auto t = s->take();
        if (t.has_error()) break;
        readPayload(t.value());
        s->release(t.value());
    }
    b->calls.fetch_add(1, std::memory_order_relaxed);
    TC("callbacks");
}
void onTrigger(popo::UserTrigger*, Box* b)
{
    b->calls.fetch_add(1, std::memory_order_relaxed);
    TC("callbacks");
}
struct Lst : popo::Listener
{
    explicit Lst(popo::ConditionVariableData& d)
        : popo::Listener(d) {}
};
void notify(Rng& r, bool withListener)
{
    Net n(r);
    size_t np = 1 + r.below(3), ns = 1 + r.below(3), nt = r.below(3);
    std::vector<std::unique_ptr<UPub>> pubs;
    std::vector<std::unique_ptr<USub>> subs;
    std::vector<std::unique_ptr<popo::UserTrigger>> trig;
    for (size_t i = 0; i < np; ++i) pubs.push_back(n.pub(SD, {}, unsigned(i)));
    for (size_t i = 0; i < ns; ++i)
    {
        popo::SubscriberOptions o;
        o.queueCapacity = 1 + r.below(8);
        subs.push_back(n.sub(SD, o, unsigned(20 + i)));
    }
    for (size_t i = 0; i < nt; ++i) trig.push_back(std::make_unique<popo::UserTrigger>());
    n.discover();
    n.discover();
    Box box;
    std::unique_ptr<Lst> l;
    std::unique_ptr<WSet<16>> ws;
    if (withListener) l.reset(new Lst(n.cv()));
    else ws.reset(new WSet<16>(n.cv()));
    auto attach = [&](Rng& rr, USub& s) {
        if (l) (void)l->attachEvent(s, popo::SubscriberEvent::DATA_RECEIVED, popo::createNotificationCallback(onData, box));
        else if (rr.chance(500)) (void)ws->attachEvent(s, popo::SubscriberEvent::DATA_RECEIVED, 1);
        else (void)ws->attachState(s, popo::SubscriberState::HAS_DATA, 2);
    };
    auto detach = [&](USub& s) {
        if (l) l->detachEvent(s, popo::SubscriberEvent::DATA_RECEIVED);
        else
        {
            ws->detachEvent(s, popo::SubscriberEvent::DATA_RECEIVED);
            ws->detachState(s, popo::SubscriberState::HAS_DATA);
        }
    };
    for (auto& s : subs) attach(r, *s);
    for (auto& t : trig)
    {
        if (l) (void)l->attachEvent(*t, popo::createNotificationCallback(onTrigger, box));
        else (void)ws->attachEvent(*t, 3);
    }
    std::atomic<size_t> producing{np + trig.size()};
    std::atomic<bool> end{false};
    Bodies b;
    for (size_t i = 0; i < np; ++i)
        b.push_back([&, i](Rng& rr) {
            for (int k = 0; k < 50; ++k)
            {
                auto m = pubs[i]->loan(48, 8);
                if (!m.has_error())
                {
                    writePayload(m.value(), rr.next());
                    pubs[i]->publish(m.value());
                    TC("published");
                }
                nap(rr);
                if (rr.chance(200)) std::this_thread::sleep_for(std::chrono::microseconds(rr.below(200)));
            }
            producing.fetch_sub(1, std::memory_order_relaxed);
        });
    for (size_t i = 0; i < trig.size(); ++i)
        b.push_back([&, i](Rng& rr) {
            for (int k = 0; k < 50; ++k)
            {
                trig[i]->trigger();
                (void)trig[i]->hasTriggered();
                TC("triggers");
                std::this_thread::sleep_for(std::chrono::microseconds(rr.below(100)));
            }
            producing.fetch_sub(1, std::memory_order_relaxed);
        });
    if (ws)
        b.push_back([&](Rng& rr) {
            // the owner of the wait set also attaches and detaches
            while (producing.load(std::memory_order_relaxed) != 0)
            {
                auto v = ws->timedWait(Duration::fromMilliseconds(5));
                for (auto& i : v)
                {
                    if (i->getNotificationId() == 3) continue;
                    auto* s = i->getOrigin<USub>();
                    if (s != nullptr) onData(s, &box);
                }
                if (rr.chance(100))
                {
                    auto& s = *subs[rr.below(subs.size())];
                    detach(s);
                    attach(rr, s);
                    TC("reattached");
                }
            }
        });
    else
        b.push_back([&](Rng& rr) {
            while (producing.load(std::memory_order_relaxed) != 0)
            {
                auto& s = *subs[rr.below(subs.size())];
                detach(s);
                // nobody else uses it now
                onData(&s, &box);
                attach(rr, s);
                TC("reattached");
                std::this_thread::sleep_for(std::chrono::microseconds(rr.below(500)));
            }
        });
    b.push_back([&](Rng& rr) {
        while (producing.load(std::memory_order_relaxed) != 0)
        {
            n.discover();
            std::this_thread::sleep_for(std::chrono::microseconds(rr.below(500)));
        }
    });
    go(r, b);
    // the listener is destroyed while its callbacks may still run
    if (r.chance(500))
    {
        l.reset();
        ws.reset();
    }
    subs.clear();
    trig.clear();
    l.reset();
    ws.reset();
    pubs.clear();
    for (int i = 0; i < 3; ++i) n.discover();
    n.w.checkNoPorts("race");
    count("notify_runs");
}

// ---- helpers ----
void helpers(Rng& r)
{
    struct Data
    {
        uint64_t a{0}, b{0};
        void inc() { ++a; ++b; }
    };
    concurrent::smart_lock<Data> sl;
    optional<concurrent::SpinLock> spin;
    VH_CHECK(!concurrent::SpinLockBuilder().lock_behavior(r.chance(500) ? LockBehavior::RECURSIVE : LockBehavior::WITH_DEADLOCK_DETECTION).create(spin).has_error(), "create", "no spin lock");
    Data guarded;
    std::atomic<uint64_t> ran{0};
    uint64_t perTask = 0; // written by the task only
    std::atomic<size_t> busy{0};
    Bodies b;
    size_t nt = 2 + r.below(3);
    busy = nt;
    for (size_t t = 0; t < nt; ++t)
        b.push_back([&](Rng& rr) {
            for (int k = 0; k < 100; ++k)
            {
                sl->inc();
                {
                    auto g = sl.get_scope_guard();
                    VH_CHECK(g->a == g->b, "torn", "smart_lock: two threads at once");
                }
                if (rr.chance(100))
                {
                    auto c = sl.get_copy();
                    VH_CHECK(c.a == c.b, "torn", "smart_lock: copy while modified");
                }
                if (rr.chance(800)) VH_CHECK(!spin->lock().has_error(), "lock", "spin lock fails");
                else
                {
                    auto e = spin->try_lock();
                    VH_CHECK(!e.has_error(), "lock", "spin lock fails");
                    if (e.value() != TryLock::LOCK_SUCCEEDED) continue;
                }
                guarded.inc();
                VH_CHECK(guarded.a == guarded.b, "torn", "spin lock: two threads at once");
                VH_CHECK(!spin->unlock().has_error(), "lock", "spin lock fails");
                TC("critical_sections");
                nap(rr);
            }
            --busy;
        });
    b.push_back([&](Rng& rr) {
        while (busy.load() != 0)
        {
            uint64_t* p = &perTask;
            {
                concurrent::detail::PeriodicTask<std::function<void()>> task(concurrent::detail::PeriodicTaskAutoStart, Duration::fromMicroseconds(200), "vt", [p, &ran] { ++*p; ++ran; });
                std::this_thread::sleep_for(std::chrono::microseconds(rr.below(1000)));
                if (rr.chance(500)) task.stop();
                if (rr.chance(200)) task.start(Duration::fromMicroseconds(300));
            }
            ++perTask; // the task has ended
            TC("periodic_tasks");
        }
    });
    go(r, b);
    count("helper_runs");
}

// ---- a real daemon and several threads of one application ----
ve::Env* env = nullptr;
void runtimes(Rng& r)
{
    if (!env) env = new ve::Env(roudi_env::MinimalIceoryxConfigBuilder().payloadChunkCount(300).payloadChunkSize(256).discoveryChunkCount(20).introspectionChunkCount(20).create());
    auto* rt = &env->app("threads");
    size_t nt = 2 + r.below(3);
    std::atomic<size_t> busy{nt};
    runtime::ServiceDiscovery sdShared;
    Bodies b;
    for (size_t t = 0; t < nt; ++t)
        b.push_back([&, t](Rng& rr) {
            ve::Runtime::active() = rt;
            for (int k = 0; k < 12; ++k)
            {
                auto sd = ve::svc("race", fmt("%lu", (unsigned long)rr.below(3)), "e");
                switch (rr.below(6))
                {
                case 0:
                case 1:
                {
                    popo::UntypedPublisher p(sd);
                    popo::UntypedSubscriber s(ve::svc("race", fmt("%lu", (unsigned long)rr.below(3)), "e"));
                    for (int m = 0; m < 10; ++m)
                    {
                        auto l = p.loan(48, 8);
                        if (!l.has_error())
                        {
                            writePayload(l.value(), rr.next());
                            p.publish(l.value());
                            TC("published");
                        }
                        auto v = s.take();
                        if (!v.has_error())
                        {
                            readPayload(v.value());
                            s.release(v.value());
                        }
                        std::this_thread::sleep_for(std::chrono::microseconds(rr.below(300)));
                    }
                    break;
                }
                case 2:
                {
                    // one server per service is allowed in an application
                    auto own = ve::svc("race", fmt("s%lu", (unsigned long)t), "e");
                    popo::UntypedServer s(own);
                    popo::UntypedClient c(own);
                    for (int m = 0; m < 5; ++m)
                    {
                        auto l = c.loan(48, 8);
                        if (!l.has_error())
                        {
                            writePayload(l.value(), rr.next());
                            (void)c.send(l.value()); // also takes the request back if it fails
                        }
                        auto v = s.take();
                        if (!v.has_error())
                        {
                            readPayload(v.value());
                            s.releaseRequest(v.value());
                        }
                        std::this_thread::sleep_for(std::chrono::microseconds(rr.below(300)));
                    }
                    break;
                }
                case 3:
                {
                    runtime::ServiceDiscovery d;
                    d.findService(nullopt, nullopt, nullopt, [](auto&) { TC("found"); }, popo::MessagingPattern::PUB_SUB);
                    break;
                }
                case 4:
                {
                    popo::WaitSet<4> ws;
                    popo::UntypedSubscriber s(sd);
                    (void)ws.attachEvent(s, popo::SubscriberEvent::DATA_RECEIVED, 1);
                    (void)ws.timedWait(Duration::fromMilliseconds(2));
                    break;
                }
                default:
                {
                    popo::Listener l;
                    popo::UserTrigger u;
                    Box box;
                    (void)l.attachEvent(u, popo::createNotificationCallback(onTrigger, box));
                    u.trigger();
                    break;
                }
                }
                // one discovery object is used by all the threads
                sdShared.findService(ve::id("race"), nullopt, nullopt, [](auto&) { TC("found"); }, rr.chance(500) ? popo::MessagingPattern::PUB_SUB : popo::MessagingPattern::REQ_RES);
                TC("searches");
            }
            busy.fetch_sub(1, std::memory_order_relaxed);
        });
    b.push_back([&](Rng& rr) {
        while (busy.load(std::memory_order_relaxed) != 0)
        {
            env->discover();
            std::this_thread::sleep_for(std::chrono::microseconds(rr.below(2000)));
        }
    });
    go(r, b);
    count("runtime_runs");
}
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "runs of freely running threads; distinct = runs (each with its own random structure)");
    std::string mode = ctx().mode;
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    int rc = runCases([&](uint64_t seed, uint64_t) {
        Rng r(seed);
        distinct(seed);
        if (mode == "runtime") runtimes(r);
        else if (mode == "endpoints")
            switch (r.below(4))
            {
            case 0: pubsub(r); break;
            case 1: rpc(r); break;
            case 2: notify(r, false); break;
            default: notify(r, true); break;
            }
        else
            switch (r.below(8))
            {
            case 0: helpers(r); break;
            case 1:
            case 2: pool(r); break;
            default: queues(r); break;
            }
    });
    delete env; // its threads have to end before the statics
    return rc;
}
