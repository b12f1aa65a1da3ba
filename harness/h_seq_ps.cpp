// Sequential exact model of publish/subscribe against the real ports, port manager and pools.
// Every observable (data, order, history, missed flag, states, connections, limits, pool usage, registry) is compared
// with the model after each operation. Serves C01 C02 C03 C04 C06 C10 C11 C12 C27.
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include "world.hpp"
#include <algorithm>
#include <deque>

using namespace vh;
using namespace vw;
using namespace iox;

namespace
{
struct Sample
{
    uint64_t id{0};
    const mepoo::ChunkHeader* addr{nullptr};
    const void* payload{nullptr};
    uint64_t size{0};
    uint32_t uh{0}; // user header size
    uint32_t pub{0};
    uint64_t seq{0};
};
struct Pub
{
    uint32_t id{0};
    unsigned app{0};
    unsigned service{0};
    popo::PublisherOptions o;
    Abandonable<UPub> u;
    popo::UniquePortId uid{roudi::DEFAULT_UNIQUE_ROUDI_ID};
    bool user{true};   // the user object exists
    bool req{false}, offered{false}, doomed{false};
    std::vector<Sample> loans;
    std::deque<Sample> hist;
    bool hasLast{false};
    Sample last;
    uint64_t sent{0};
    std::vector<uint32_t> conns; // subscriber ids
};
struct Sub
{
    uint32_t id{0};
    unsigned app{0};
    unsigned service{0};
    popo::SubscriberOptions o;
    Abandonable<USub> u;
    bool user{true};
    bool req{false}, subscribed{false}, doomed{false}, lost{false};
    std::deque<Sample> q;
    std::vector<Sample> held;
};
struct Contribution { uint32_t pub; std::vector<Sample> s; };

struct Case
{
    Rng r;
    World& w{World::get()};
    std::vector<capro::ServiceDescription> services;
    std::unique_ptr<Pools> pools;
    std::vector<std::unique_ptr<Pub>> pubs; // known to the daemon
    std::vector<std::unique_ptr<Sub>> subs;
    uint32_t nextPub{1}, nextSub{1};
    uint64_t nextId{1};
    unsigned napps{3};
    std::string log;
    std::map<uint32_t, std::vector<Contribution>> contrib; // per subscriber during one discovery
    std::map<uint32_t, std::deque<Sample>> before;
    std::unique_ptr<USub> reg;     // watches the registry topic
    bool big;

    explicit Case(uint64_t seed)
        : r(seed)
        , big(r.chance(20))
    {
        const char* ss[] = {"Radar", "Radar", "Lidar", "Radar"};
        const char* ii[] = {"Front", "Rear", "Front", "Front"};
        const char* ee[] = {"Object", "Object", "Object", "Raw"};
        unsigned ns = r.chance(550) ? 1 : unsigned(r.range(2, 4));
        for (unsigned i = 0; i < ns; ++i) services.push_back(svc(ss[i], ii[i], ee[i]));
        std::vector<std::pair<uint64_t, uint32_t>> pc;
        if (big)
            pc = {{32, uint32_t(r.range(300, 700))}};
        else
        {
            pc.push_back({32, uint32_t(r.range(2, 14))});
            if (r.chance(700)) pc.push_back({128, uint32_t(r.range(1, 10))});
            if (r.chance(400)) pc.push_back({512, uint32_t(r.range(1, 5))});
        }
        pools.reset(new Pools(pc));
    }
    void note(const std::string& s)
    {
        log += " " + s;
        if (log.size() > 6000) log.erase(0, 3000);
    }
    std::string hist() { return log.substr(log.size() > 1500 ? log.size() - 1500 : 0); }
#define CK(cond, key, ...) VH_CHECK(cond, key, "%s; history:%s", vh::fmt(__VA_ARGS__).c_str(), hist().c_str())

    Sub* sub(uint32_t id)
    {
        for (auto& s : subs)
            if (s->id == id) return s.get();
        return nullptr;
    }
    // ---- model of the daemon -------------------------------------------------------------------------------------
    void push(Sub& s, const Sample& x, bool blocking)
    {
        if (s.q.size() < s.o.queueCapacity)
            s.q.push_back(x);
        else if (blocking)
            s.lost = true; // history that does not fit into a non-overflowing queue
        else
        {
            s.q.pop_front();
            s.q.push_back(x);
            s.lost = true;
            count("evictions");
        }
    }
    void connect(Pub& p, Sub& s)
    {
        if (std::find(p.conns.begin(), p.conns.end(), s.id) != p.conns.end()) return;
        if (p.conns.size() >= MAX_SUBSCRIBERS_PER_PUBLISHER)
        {
            count("refused_connections");
            return;
        }
        p.conns.push_back(s.id);
        count("connections");
        uint64_t n = std::min<uint64_t>(s.o.historyRequest, p.hist.size());
        Contribution c{p.id, {}};
        if (!before.count(s.id)) before[s.id] = s.q;
        for (uint64_t i = p.hist.size() - n; i < p.hist.size(); ++i)
        {
            push(s, p.hist[i], s.o.queueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER);
            c.s.push_back(p.hist[i]);
            count("history_deliveries");
        }
        if (!c.s.empty()) contrib[s.id].push_back(c);
    }
    bool matches(Pub& p, Sub& s) { return p.service == s.service && compatible(p.o, s.o); }
    void discPub(Pub& p)
    {
        if (p.req && !p.offered)
        {
            p.offered = true;
            for (auto& s : subs)
                if (s->subscribed && matches(p, *s)) connect(p, *s);
        }
        else if (!p.req && p.offered)
        {
            p.offered = false;
            p.conns.clear();
        }
    }
    void discSub(Sub& s)
    {
        if (s.req && !s.subscribed)
        {
            s.subscribed = true;
            for (auto& p : pubs)
                if (p->offered && matches(*p, s)) connect(*p, s);
        }
        else if (!s.req && s.subscribed)
        {
            s.subscribed = false;
            for (auto& p : pubs)
                p->conns.erase(std::remove(p->conns.begin(), p->conns.end(), s.id), p->conns.end());
        }
    }
    void killPub(size_t i) { pubs.erase(pubs.begin() + long(i)); }
    void killSub(size_t i)
    {
        for (auto& p : pubs) p->conns.erase(std::remove(p->conns.begin(), p->conns.end(), subs[i]->id), p->conns.end());
        subs.erase(subs.begin() + long(i));
    }
    // several publishers delivered their history to one subscriber in one step: their relative order is not specified
    void resolveAmbiguity()
    {
        for (auto& c : contrib)
        {
            Sub* s = sub(c.first);
            if (!s || c.second.size() < 2) continue;
            count("merged_histories");
            bool blocking = s->o.queueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER;
            std::deque<Sample> old = before[c.first];
            uint64_t total = old.size();
            for (auto& k : c.second) total += k.s.size();
            uint64_t expect = std::min<uint64_t>(total, s->o.queueCapacity);
            if (!s->user)
            {
                // nobody can look at it any more
                continue;
            }
            // drain and judge
            std::vector<Sample> got;
            while (s->held.size() + got.size() < MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY)
            {
                auto t = s->u->take();
                if (t.has_error()) break;
                auto* h = mepoo::ChunkHeader::fromUserPayload(t.value());
                Sample x;
                bool found = false;
                for (auto& o : old)
                    if (o.addr == h) { x = o; found = true; }
                for (auto& k : c.second)
                    for (auto& o : k.s)
                        if (o.addr == h) { x = o; found = true; }
                CK(found, "alien", "subscriber %u received a sample that was neither queued nor in a history", s->id);
                judgeContent(*s, x, t.value());
                got.push_back(x);
            }
            CK(got.size() == expect, "history-count", "subscriber %u holds %zu samples after merging histories, expected %llu", s->id, got.size(), (unsigned long long)expect);
            // old content first (its oldest are discarded), then each history in order; a sample may be in both
            uint64_t lostTotal = total - expect;
            uint64_t keep = blocking ? old.size() : old.size() - std::min<uint64_t>(lostTotal, old.size());
            for (uint64_t i = 0; i < keep; ++i)
                CK(i < got.size() && got[i].id == old[old.size() - keep + i].id, "order", "queued samples lost or reordered when histories arrive");
            for (auto& k : c.second)
            {
                std::vector<uint64_t> v;
                for (uint64_t i = keep; i < got.size(); ++i)
                    if (got[i].pub == k.pub) v.push_back(got[i].id);
                CK(v.size() <= k.s.size(), "duplicate", "history of publisher %u delivered more than once", k.pub);
                for (size_t i = 0; i < v.size(); ++i)
                {
                    uint64_t want = blocking ? k.s[i].id : k.s[k.s.size() - v.size() + i].id;
                    CK(v[i] == want, "history-order", "history of publisher %u is not delivered oldest first", k.pub);
                }
            }
            s->q.clear();
            for (auto& g : got) s->u->release(g.payload);
        }
        contrib.clear();
        before.clear();
    }
    void discover()
    {
        note("discover");
        count("discoveries");
        contrib.clear();
        before.clear();
        w.discover();
        for (size_t i = 0; i < pubs.size();)
        {
            discPub(*pubs[i]);
            if (pubs[i]->doomed) killPub(i);
            else ++i;
        }
        for (size_t i = 0; i < subs.size();)
        {
            discSub(*subs[i]);
            if (subs[i]->doomed) killSub(i);
            else ++i;
        }
        resolveAmbiguity();
        checkRegistry();
    }
    // ---- checks --------------------------------------------------------------------------------------------------
    void judgeContent(Sub& s, const Sample& x, const void* payload)
    {
        auto* h = mepoo::ChunkHeader::fromUserPayload(payload);
        CK(h == x.addr && payload == x.payload, "wrong-sample", "subscriber %u got chunk %p, expected sample %llu at %p", s.id, static_cast<const void*>(h), (unsigned long long)x.id, static_cast<const void*>(x.addr));
        CK(h->userPayloadSize() == x.size, "size", "sample %llu has size %llu instead of %llu", (unsigned long long)x.id, (unsigned long long)h->userPayloadSize(), (unsigned long long)x.size);
        CK(h->userHeaderSize() == x.uh, "size", "sample %llu has user header size %u instead of %u", (unsigned long long)x.id, h->userHeaderSize(), x.uh);
        CK(mismatch(payload, x.size, x.id) < 0, "content", "payload of sample %llu changed at byte %lld", (unsigned long long)x.id, (long long)mismatch(payload, x.size, x.id));
        if (x.uh) CK(mismatch(h->userHeader(), x.uh, x.id + 7) < 0, "content", "user header of sample %llu changed", (unsigned long long)x.id);
        CK(h->sequenceNumber() == x.seq, "sequence", "sample %llu has sequence number %llu instead of %llu", (unsigned long long)x.id, (unsigned long long)h->sequenceNumber(), (unsigned long long)x.seq);
        count("content_checks");
    }
    void checkAll()
    {
        std::set<const mepoo::ChunkHeader*> live;
        for (auto& p : pubs)
        {
            for (auto& l : p->loans)
            {
                CK(live.insert(l.addr).second, "ownership", "loaned chunk is also owned elsewhere");
                CK(mismatch(l.payload, l.size, l.id) < 0, "content", "loaned memory of publisher %u was changed by someone else", p->id);
            }
        }
        std::set<const mepoo::ChunkHeader*> loaned = live;
        for (auto& p : pubs)
        {
            if (p->hasLast) live.insert(p->last.addr); // may coincide with a loan (reuse)
            for (auto& h : p->hist)
            {
                CK(!loaned.count(h.addr), "ownership", "chunk in a history was loaned to somebody");
                live.insert(h.addr);
            }
        }
        for (auto& s : subs)
        {
            for (auto& h : s->q)
            {
                CK(!loaned.count(h.addr), "ownership", "queued chunk was loaned to somebody");
                live.insert(h.addr);
            }
            for (auto& h : s->held)
            {
                CK(!loaned.count(h.addr), "ownership", "chunk held by subscriber %u was loaned to somebody", s->id);
                live.insert(h.addr);
                CK(mismatch(h.payload, h.size, h.id) < 0, "content", "sample %llu held by subscriber %u was overwritten", (unsigned long long)h.id, s->id);
                if (h.uh) CK(mismatch(h.addr->userHeader(), h.uh, h.id + 7) < 0, "content", "user header of held sample %llu was overwritten", (unsigned long long)h.id);
            }
        }
        std::vector<uint32_t> used(pools->n(), 0);
        for (auto* a : live) ++used[pools->poolOf(a)];
        for (uint32_t i = 0; i < pools->n(); ++i)
        {
            auto inf = pools->info(i);
            CK(inf.m_usedChunks == used[i], "conservation", "pool %u: %u chunks used, but %u are owned by somebody", i, inf.m_usedChunks, used[i]);
        }
        count("conservation_checks");
        for (auto& p : pubs)
            if (p->user)
            {
                CK(p->u->isOffered() == p->req, "state", "publisher %u reports offered=%d", p->id, !p->req);
                CK(p->u->hasSubscribers() == !p->conns.empty(), "connection", "publisher %u has %s subscribers, expected %zu", p->id, p->u->hasSubscribers() ? "some" : "no", p->conns.size());
            }
        for (auto& s : subs)
            if (s->user)
            {
                auto st = s->u->getSubscriptionState();
                CK(st == (s->subscribed ? SubscribeState::SUBSCRIBED : SubscribeState::NOT_SUBSCRIBED), "state", "subscriber %u reports state %u", s->id, unsigned(st));
                CK(s->u->hasData() == !s->q.empty(), "has-data", "subscriber %u reports hasData=%d with %zu queued", s->id, int(s->u->hasData()), s->q.size());
            }
        count("state_checks");
    }
    void checkRegistry()
    {
        if (!reg) return;
        const roudi::ServiceRegistry* r0 = nullptr;
        static std::map<std::string, uint64_t> lastSeen;
        bool fresh = false;
        while (true)
        {
            auto t = reg->take();
            if (t.has_error()) break;
            fresh = true;
            r0 = static_cast<const roudi::ServiceRegistry*>(t.value());
            lastSeen.clear();
            r0->forEach([&](const roudi::ServiceRegistry::ServiceDescriptionEntry& e) {
                auto& d = e.serviceDescription;
                lastSeen[fmt("%s/%s/%s", d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str())] = e.publisherCount;
            });
            reg->release(t.value());
        }
        (void)fresh;
        for (auto& sd : services)
        {
            uint64_t n = 0;
            for (auto& p : pubs)
                if (p->offered && services[p->service] == sd) ++n;
            std::string k = fmt("%s/%s/%s", sd.getServiceIDString().c_str(), sd.getInstanceIDString().c_str(), sd.getEventIDString().c_str());
            uint64_t seen = lastSeen.count(k) ? lastSeen[k] : 0;
            CK((seen > 0) == (n > 0), "registry", "service %s is %s in the published registry while %llu publishers offer it", k.c_str(), seen ? "listed" : "not listed", (unsigned long long)n);
        }
        count("registry_checks");
    }
    // ---- operations ----------------------------------------------------------------------------------------------
    void createPub()
    {
        std::unique_ptr<Pub> p(new Pub());
        p->id = nextPub++;
        p->app = unsigned(r.below(napps));
        p->service = unsigned(r.below(services.size()));
        uint64_t hc[] = {0, 1, 2, 3, 5, 16};
        p->o.historyCapacity = hc[r.below(6)];
        p->o.offerOnCreate = r.chance(700);
        p->o.subscriberTooSlowPolicy = r.chance(400) ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        note(fmt("pub%u(app%u,s%u,h%llu,%s%s)", p->id, p->app, p->service, (unsigned long long)p->o.historyCapacity, p->o.offerOnCreate ? "offer" : "-", p->o.subscriberTooSlowPolicy == popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER ? ",wait" : ""));
        auto d = w.pm->acquirePublisherPortData(services[p->service], p->o, appName(p->app), pools->mm.get(), roudi::PortManager::PortConfigInfo());
        CK(!d.has_error(), "create", "creating a publisher failed");
        p->u.make(d.value());
        p->uid = p->u->getUid();
        p->req = p->o.offerOnCreate;
        contrib.clear();
        before.clear();
        pubs.push_back(std::move(p));
        discPub(*pubs.back());
        resolveAmbiguity();
    }
    void createSub()
    {
        std::unique_ptr<Sub> s(new Sub());
        s->id = nextSub++;
        s->app = unsigned(r.below(napps));
        s->service = unsigned(r.below(services.size()));
        uint64_t qc[] = {1, 2, 3, 4, 8, 256};
        s->o.queueCapacity = qc[r.below(6)];
        s->o.historyRequest = r.chance(500) ? 0 : std::min<uint64_t>(r.range(1, 6), s->o.queueCapacity);
        s->o.subscribeOnCreate = r.chance(700);
        s->o.queueFullPolicy = r.chance(300) ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
        s->o.requiresPublisherHistorySupport = r.chance(200);
        note(fmt("sub%u(app%u,s%u,q%llu,h%llu,%s%s%s)", s->id, s->app, s->service, (unsigned long long)s->o.queueCapacity, (unsigned long long)s->o.historyRequest, s->o.subscribeOnCreate ? "sub" : "-", s->o.queueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER ? ",block" : "", s->o.requiresPublisherHistorySupport ? ",needhist" : ""));
        auto d = w.pm->acquireSubscriberPortData(services[s->service], s->o, appName(s->app), roudi::PortManager::PortConfigInfo());
        CK(!d.has_error(), "create", "creating a subscriber failed");
        s->u.make(d.value());
        s->req = s->o.subscribeOnCreate;
        contrib.clear();
        before.clear();
        subs.push_back(std::move(s));
        discSub(*subs.back());
        resolveAmbiguity();
    }
    bool wouldBlock(Pub& p)
    {
        if (!p.req || p.o.subscriberTooSlowPolicy != popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER) return false;
        for (auto id : p.conns)
        {
            Sub* s = sub(id);
            if (s && s->o.queueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER && s->q.size() >= s->o.queueCapacity) return true;
        }
        return false;
    }
    bool sharedElsewhere(Pub& p, const mepoo::ChunkHeader* a)
    {
        for (auto& q : pubs)
        {
            for (auto& h : q->hist)
                if (h.addr == a) return true;
            for (auto& l : q->loans)
                if (l.addr == a) return true;
            if (q.get() != &p && q->hasLast && q->last.addr == a) return true;
        }
        for (auto& s : subs)
        {
            for (auto& h : s->q)
                if (h.addr == a) return true;
            for (auto& h : s->held)
                if (h.addr == a) return true;
        }
        return false;
    }
    void loan(Pub& p)
    {
        uint64_t sizes[] = {1, 8, 24, 32, 40, 128, 200, 512, 600};
        uint64_t size = big ? r.range(1, 24) : sizes[r.below(9)];
        uint64_t largest = pools->info(pools->n() - 1).m_chunkSize;
        if (!big && size + 60 > largest && r.chance(900)) size = r.range(1, 32);
        uint32_t al = 1u << r.below(5);
        uint32_t uh = r.chance(250) ? uint32_t(8u << r.below(2)) : 0;
        auto cs = mepoo::ChunkSettings::create(size, al, uh, uh ? 8 : 1);
        uint64_t need = cs.value().requiredChunkSize();
        uint32_t pool = pools->smallestFitting(need);
        bool reusable = p.hasLast && !sharedElsewhere(p, p.last.addr) && p.last.addr->chunkSize() >= need;
        bool tooMany = p.loans.size() >= MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY;
        bool noFit = pool >= pools->n();
        bool empty = !noFit && pools->info(pool).m_usedChunks == pools->info(pool).m_numChunks;
        std::vector<uint32_t> usedBefore;
        for (uint32_t i = 0; i < pools->n(); ++i) usedBefore.push_back(pools->info(i).m_usedChunks);
        auto l = p.u->loan(size, al, uh, uh ? 8 : 1);
        note(fmt("pub%u.loan(%llu)=%s", p.id, (unsigned long long)size, l.has_error() ? popo::asStringLiteral(l.error()) : "ok"));
        if (l.has_error())
        {
            auto e = l.error();
            bool explained = (tooMany && e == popo::AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL)
                             || (!reusable && empty && e == popo::AllocationError::RUNNING_OUT_OF_CHUNKS)
                             || (!reusable && noFit && e == popo::AllocationError::NO_MEMPOOLS_AVAILABLE);
            CK(explained, "loan-refused", "publisher %u: loan of %llu bytes refused with %s (loans %zu, pool full %d, fits %d, reusable %d)", p.id, (unsigned long long)size, popo::asStringLiteral(e), p.loans.size(), empty, !noFit, reusable);
            count(tooMany ? "refused_limit" : (noFit ? "refused_size" : "refused_empty"));
            return;
        }
        CK(!tooMany, "limit", "publisher %u got loan number %zu", p.id, p.loans.size() + 1);
        CK(reusable || (!noFit && !empty), "loan-granted", "publisher %u got memory although no fitting chunk is free", p.id);
        auto* h = mepoo::ChunkHeader::fromUserPayload(l.value());
        bool reused = p.hasLast && h == p.last.addr;
        CK(!sharedElsewhere(p, h), "ownership", "loan hands out a chunk that somebody still owns");
        if (reused) CK(reusable, "ownership", "publisher %u reuses its last chunk although others own it or it is too small", p.id);
        else CK(pools->poolOf(h) == pool, "wrong-pool", "chunk for %llu bytes comes from pool %u instead of %u", (unsigned long long)size, pools->poolOf(h), pool);
        CK(reinterpret_cast<uintptr_t>(l.value()) % al == 0, "alignment", "payload not aligned");
        CK(h->userPayloadSize() == size && h->userHeaderSize() == uh, "size", "header of the loaned chunk has wrong sizes");
        CK(h->originId() == p.uid, "origin", "loaned chunk carries a wrong origin id");
        Sample s;
        s.id = nextId++;
        s.addr = h;
        s.payload = l.value();
        s.size = size;
        s.uh = uh;
        s.pub = p.id;
        fill(l.value(), size, s.id);
        if (uh) fill(h->userHeader(), uh, s.id + 7);
        p.loans.push_back(s);
        count("loans");
        if (reused) count("reuses");
    }
    void publish(Pub& p, size_t k)
    {
        if (wouldBlock(p)) { count("would_block"); return; }
        Sample s = p.loans[k];
        p.loans.erase(p.loans.begin() + long(k));
        s.seq = p.sent++;
        note(fmt("pub%u.publish(#%llu)", p.id, (unsigned long long)s.id));
        p.u->publish(const_cast<void*>(s.payload));
        if (p.req)
            for (auto id : p.conns)
            {
                Sub* q = sub(id);
                push(*q, s, p.o.subscriberTooSlowPolicy == popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER && q->o.queueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER);
            }
        if (p.o.historyCapacity > 0)
        {
            if (p.hist.size() >= p.o.historyCapacity) p.hist.pop_front();
            p.hist.push_back(s);
        }
        p.hasLast = true;
        p.last = s;
        count("publishes");
    }
    void take(Sub& s)
    {
        auto t = s.u->take();
        note(fmt("sub%u.take=%s", s.id, t.has_error() ? popo::asStringLiteral(t.error()) : "ok"));
        if (s.q.empty())
        {
            CK(t.has_error() && t.error() == popo::ChunkReceiveResult::NO_CHUNK_AVAILABLE, "take-empty", "subscriber %u with empty queue took something or reported a wrong error", s.id);
            count("empty_takes");
            return;
        }
        Sample x = s.q.front();
        s.q.pop_front();
        if (t.has_error())
        {
            CK(t.error() == popo::ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL && s.held.size() > MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY, "take-refused", "subscriber %u holding %zu samples cannot take although %zu are queued: %s", s.id, s.held.size(), s.q.size() + 1, popo::asStringLiteral(t.error()));
            count("refused_hold");
            return;
        }
        CK(s.held.size() <= MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY, "limit", "subscriber %u holds %zu samples", s.id, s.held.size() + 1);
        judgeContent(s, x, t.value());
        s.held.push_back(x);
        count("takes");
    }
    void step()
    {
        std::vector<Pub*> up;
        std::vector<Sub*> us;
        for (auto& p : pubs)
            if (p->user) up.push_back(p.get());
        for (auto& s : subs)
            if (s->user) us.push_back(s.get());
        uint64_t x = r.below(100);
        if (x < 6 || up.empty())
        {
            if (pubs.size() < 5) createPub();
        }
        else if (x < 13 || us.empty())
        {
            if (subs.size() < 5) createSub();
        }
        else if (x < 15)
        {
            auto* p = r.pick(up);
            note(fmt("~pub%u", p->id));
            p->u.destroy();
            p->user = false;
            p->doomed = true;
        }
        else if (x < 17)
        {
            auto* s = r.pick(us);
            note(fmt("~sub%u", s->id));
            s->u.destroy();
            s->user = false;
            s->doomed = true;
        }
        else if (x < 18)
        {
            unsigned a = unsigned(r.below(napps));
            note(fmt("crash(app%u)", a));
            count("crashes");
            for (auto& p : pubs)
                if (p->app == a) p->u.abandon();
            for (auto& s : subs)
                if (s->app == a) s->u.abandon();
            w.pm->deletePortsOfProcess(appName(a));
            for (size_t i = 0; i < pubs.size();)
                if (pubs[i]->app == a) killPub(i);
                else ++i;
            for (size_t i = 0; i < subs.size();)
                if (subs[i]->app == a) killSub(i);
                else ++i;
        }
        else if (x < 21)
        {
            auto* p = r.pick(up);
            note(fmt("pub%u.offer", p->id));
            p->u->offer();
            p->req = true;
        }
        else if (x < 24)
        {
            auto* p = r.pick(up);
            note(fmt("pub%u.stopOffer", p->id));
            p->u->stopOffer();
            p->req = false;
        }
        else if (x < 28)
        {
            auto* s = r.pick(us);
            note(fmt("sub%u.subscribe", s->id));
            s->u->subscribe();
            if (!s->req)
            {
                s->q.clear();
                s->req = true;
            }
        }
        else if (x < 31)
        {
            auto* s = r.pick(us);
            note(fmt("sub%u.unsubscribe", s->id));
            s->u->unsubscribe();
            s->req = false;
        }
        else if (x < 41)
            discover();
        else if (x < 52)
            loan(*r.pick(up));
        else if (x < 72)
        {
            auto* p = r.pick(up);
            if (p->loans.empty()) loan(*p);
            if (!p->loans.empty()) publish(*p, r.below(p->loans.size()));
        }
        else if (x < 74)
        {
            auto* p = r.pick(up);
            if (!p->loans.empty())
            {
                size_t k = r.below(p->loans.size());
                note(fmt("pub%u.release(#%llu)", p->id, (unsigned long long)p->loans[k].id));
                p->u->release(const_cast<void*>(p->loans[k].payload));
                p->loans.erase(p->loans.begin() + long(k));
                count("loan_releases");
            }
        }
        else if (x < 86)
        {
            std::vector<Sub*> withData;
            for (auto* s : us)
                if (!s->q.empty()) withData.push_back(s);
            take(withData.empty() || r.chance(100) ? *r.pick(us) : *r.pick(withData));
        }
        else if (x < 95)
        {
            auto* s = r.pick(us);
            if (!s->held.empty())
            {
                size_t k = r.below(s->held.size());
                Sample h = s->held[k];
                judgeContent(*s, h, h.payload);
                note(fmt("sub%u.release(#%llu)", s->id, (unsigned long long)h.id));
                s->u->release(h.payload);
                s->held.erase(s->held.begin() + long(k));
                count("releases");
            }
        }
        else if (x < 96)
        {
            auto* s = r.pick(us);
            note(fmt("sub%u.releaseQueued", s->id));
            s->u->releaseQueuedData();
            s->q.clear();
        }
        else
        {
            auto* s = r.pick(us);
            bool m = s->u->hasMissedData();
            note(fmt("sub%u.missed=%d", s->id, m));
            CK(m == s->lost, "missed-flag", "subscriber %u reports missed=%d although %s", s->id, m, s->lost ? "samples were discarded" : "nothing was discarded");
            s->lost = false;
            count(m ? "missed_true" : "missed_false");
        }
    }
    // fills the receiver and sender limits
    void bigRun()
    {
        for (int i = 0; i < 2; ++i) createPub();
        for (int i = 0; i < 2; ++i) createSub();
        for (auto& p : pubs) { p->u->offer(); p->req = true; }
        for (auto& s : subs)
        {
            s->u->subscribe();
            if (!s->req) { s->q.clear(); s->req = true; }
        }
        discover();
        for (unsigned i = 0; i < 1200; ++i)
        {
            uint64_t x = r.below(100);
            Pub& p = *r.pick(pubs);
            Sub& s = *r.pick(subs);
            if (x < 40)
            {
                if (p.loans.empty()) loan(p);
                if (!p.loans.empty()) publish(p, 0);
            }
            else if (x < 93) take(s);
            else if (x < 95) loan(p);
            else if (x < 97 && s.held.size() > 200)
            {
                size_t k = r.below(s.held.size());
                s.u->release(s.held[k].payload);
                s.held.erase(s.held.begin() + long(k));
            }
            maxOf("max_held", s.held.size());
            if (i % 16 == 0) checkAll();
        }
        count("limit_runs");
    }
    // all endpoint slots: one more is refused with the documented error, everything else goes on, a freed slot is usable
    void portLimits()
    {
        auto runOut = [&](const char* what, uint64_t limit, auto acquire, auto wrongError) {
            uint64_t n = 0;
            while (n <= limit + 3)
            {
                auto d = acquire(n);
                if (d.has_error())
                {
                    CK(!wrongError(d.error()), "limit-error", "%s: wrong error when all slots are used", what);
                    break;
                }
                ++n;
            }
            CK(n == limit, "limit", "%llu %s could be created instead of %llu", (unsigned long long)n, what, (unsigned long long)limit);
            for (int i = 0; i < 2; ++i) CK(acquire(n + 5).has_error(), "limit", "%s beyond the limit", what);
            count("slots_filled", n);
        };
        popo::PublisherOptions po;
        po.offerOnCreate = r.chance(500);
        popo::SubscriberOptions so;
        so.subscribeOnCreate = r.chance(500);
        auto ci = roudi::PortManager::PortConfigInfo();
        auto sd = [&](uint64_t i) { return svc("L", fmt("%llu", (unsigned long long)(i % 40)).c_str(), fmt("%llu", (unsigned long long)i).c_str()); };
        unsigned which = unsigned(r.below(5));
        note(fmt("limit%u", which));
        auto app = appName(50);
        for (int round = 0; round < 2; ++round)
        {
            switch (which)
            {
            case 0: runOut("publishers", MAX_PUBLISHERS - w.basePubs, [&](uint64_t i) { return w.pm->acquirePublisherPortData(sd(i), po, app, pools->mm.get(), ci); }, [](auto e) { return e != roudi::PortPoolError::PUBLISHER_PORT_LIST_FULL; }); break;
            case 1: runOut("subscribers", MAX_SUBSCRIBERS - (reg ? 1 : 0), [&](uint64_t i) { return w.pm->acquireSubscriberPortData(sd(i), so, app, ci); }, [](auto e) { return e != roudi::PortPoolError::SUBSCRIBER_PORT_LIST_FULL; }); break;
            case 2: runOut("clients", MAX_CLIENTS, [&](uint64_t i) { return w.pm->acquireClientPortData(sd(i), {}, app, pools->mm.get(), ci); }, [](auto e) { return e != roudi::PortPoolError::CLIENT_PORT_LIST_FULL; }); break;
            case 3: runOut("servers", MAX_SERVERS, [&](uint64_t i) { return w.pm->acquireServerPortData(sd(i), {}, app, pools->mm.get(), ci); }, [](auto e) { return e != roudi::PortPoolError::SERVER_PORT_LIST_FULL; }); break;
            default: runOut("condition variables", MAX_NUMBER_OF_CONDITION_VARIABLES, [&](uint64_t) { return w.pm->acquireConditionVariableData(app); }, [](auto e) { return e != roudi::PortPoolError::CONDITION_VARIABLE_LIST_FULL; }); break;
            }
            w.pm->deletePortsOfProcess(app);
        }
        discover();
        if (which == 1)
        {
            // more subscribers than one publisher can serve
            while (pubs.empty()) createPub();
            Pub& p = *pubs[0];
            p.u->offer();
            p.req = true;
            discover();
            for (unsigned i = 0; i < MAX_SUBSCRIBERS_PER_PUBLISHER + 2; ++i)
            {
                createSub();
                auto& s = *subs.back();
                (void)s;
            }
            for (int i = 0; i < 4; ++i)
            {
                if (p.loans.empty()) loan(p);
                if (!p.loans.empty()) publish(p, 0);
                checkAll();
            }
        }
        count("port_limit_runs");
    }
    void finish()
    {
        for (auto& p : pubs)
        {
            if (p->u.live) p->u.destroy();
            p->doomed = true;
        }
        for (auto& s : subs)
        {
            if (s->u.live) s->u.destroy();
            s->doomed = true;
        }
        note("end");
        w.discover();
        pubs.clear();
        subs.clear();
        for (uint32_t i = 0; i < pools->n(); ++i)
            CK(pools->info(i).m_usedChunks == 0, "leak", "pool %u: %u chunks are still used after all endpoints are gone", i, pools->info(i).m_usedChunks);
        checkRegistry();
        if (reg)
        {
            reg.reset();
            w.discover();
        }
        w.checkNoPorts("end of case");
    }
    void run()
    {
        ctx().trace = &log;
        if (r.chance(600))
        {
            popo::SubscriberOptions so;
            so.historyRequest = 1;
            so.queueCapacity = 1;
            auto d = w.pm->acquireSubscriberPortData({SERVICE_DISCOVERY_SERVICE_NAME, SERVICE_DISCOVERY_INSTANCE_NAME, SERVICE_DISCOVERY_EVENT_NAME}, so, appName(99), roudi::PortManager::PortConfigInfo());
            reg.reset(new USub(d.value()));
            discover();
        }
        if (ctx().mode == "limits" && r.chance(500))
            portLimits();
        if (big)
            bigRun();
        else
        {
            unsigned n = unsigned(r.range(20, 160));
            for (unsigned i = 0; i < n; ++i)
            {
                step();
                checkAll();
                count("operations");
            }
        }
        checkAll();
        distinct(mix(std::hash<std::string>()(log), log.size()));
        sample(log);
        finish();
        ctx().trace = nullptr;
    }
};
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "random operation histories on the real publish/subscribe ports, port manager and pools compared with an exact sequential model after every operation");
    World::get();
    return runCases([](uint64_t seed, uint64_t) { Case c(seed); c.run(); });
}
