// Sequential exact model of request/response against the real client and server ports, port manager and pools.
// Routing, order, sequence ids, states, limits, ownership, pool usage and the service registry are compared with the
// model after each operation. Serves C07 C11 C02 C01 C10 C12 C27.
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include "world.hpp"
#include <algorithm>
#include <deque>

using namespace vh;
using namespace vw;
using namespace iox;

namespace
{
struct Msg
{
    uint64_t id{0};
    const mepoo::ChunkHeader* addr{nullptr};
    const void* payload{nullptr};
    uint64_t size{0};
    int64_t seqId{0};
    bool error{false};
    uint32_t client{0}; // who asked
    uint64_t chunkSeq{0};
    popo::UniquePortId origin{roudi::DEFAULT_UNIQUE_ROUDI_ID};
};
struct Sender
{
    std::vector<Msg> loans;
    bool hasLast{false};
    Msg last;
    uint64_t sent{0};
};
struct Receiver
{
    std::deque<Msg> q;
    std::vector<Msg> held;
    bool lost{false};
};
struct Client
{
    uint32_t id{0};
    unsigned app{0}, service{0};
    popo::ClientOptions o;
    Abandonable<UClient> u;
    popo::UniquePortId uid{roudi::DEFAULT_UNIQUE_ROUDI_ID};
    bool user{true}, doomed{false}, req{false};
    ConnectionState st{ConnectionState::NOT_CONNECTED};
    uint32_t server{0};
    Sender tx;
    Receiver rx;
};
struct Server
{
    uint32_t id{0};
    unsigned app{0}, service{0};
    popo::ServerOptions o;
    Abandonable<UServer> u;
    popo::UniquePortId uid{roudi::DEFAULT_UNIQUE_ROUDI_ID};
    bool user{true}, doomed{false}, req{false}, offered{false};
    std::vector<uint32_t> conns;
    Sender tx;
    Receiver rx;
};

struct Case
{
    Rng r;
    World& w{World::get()};
    std::vector<capro::ServiceDescription> services;
    std::unique_ptr<Pools> pools;
    std::vector<std::unique_ptr<Client>> clients;
    std::vector<std::unique_ptr<Server>> servers;
    std::unique_ptr<UPub> otherKind; // a publisher with the same service name: the two kinds must not be mixed up
    bool otherOffered{false};
    unsigned otherApp{98};
    uint32_t nextClient{1}, nextServer{1};
    uint64_t nextId{1};
    int64_t nextSeq{1};
    unsigned napps{3};
    bool calm{false}, hog{false};
    std::string log;
    std::unique_ptr<USub> reg;
    std::map<std::string, std::pair<uint64_t, uint64_t>> lastSeen;

    explicit Case(uint64_t seed)
        : r(seed)
    {
        const char* ss[] = {"Calc", "Calc", "Conf", "Calc"};
        const char* ii[] = {"A", "B", "A", "A"};
        const char* ee[] = {"add", "add", "add", "sub"};
        calm = r.chance(600);
        hog = r.chance(200);
        unsigned ns = r.chance(550) ? 1 : unsigned(r.range(2, 4));
        for (unsigned i = 0; i < ns; ++i) services.push_back(svc(ss[i], ii[i], ee[i]));
        std::vector<std::pair<uint64_t, uint32_t>> pc;
        pc.push_back({64, uint32_t(r.chance(hog ? 900 : 300) ? r.range(30, 90) : r.range(2, 16))});
        if (r.chance(700)) pc.push_back({192, uint32_t(r.range(1, 12))});
        if (r.chance(400)) pc.push_back({512, uint32_t(r.range(1, 5))});
        pools.reset(new Pools(pc));
    }
    void note(const std::string& s)
    {
        log += " " + s;
        if (log.size() > 6000) log.erase(0, 3000);
    }
    std::string hist() { return log.substr(log.size() > 1500 ? log.size() - 1500 : 0); }
#define CK(cond, key, ...) VH_CHECK(cond, key, "%s; history:%s", vh::fmt(__VA_ARGS__).c_str(), hist().c_str())
    static bool blocks(popo::ConsumerTooSlowPolicy a, popo::QueueFullPolicy b)
    {
        return a == popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER && b == popo::QueueFullPolicy::BLOCK_PRODUCER;
    }
    static bool clash(popo::ConsumerTooSlowPolicy a, popo::QueueFullPolicy b)
    {
        return a == popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA && b == popo::QueueFullPolicy::BLOCK_PRODUCER;
    }
    Client* client(uint32_t id)
    {
        for (auto& c : clients)
            if (c->id == id) return c.get();
        return nullptr;
    }
    Server* server(uint32_t id)
    {
        for (auto& s : servers)
            if (s->id == id) return s.get();
        return nullptr;
    }
    bool matches(Server& s, Client& c)
    {
        return s.service == c.service && !clash(c.o.serverTooSlowPolicy, s.o.requestQueueFullPolicy)
               && !clash(s.o.clientTooSlowPolicy, c.o.responseQueueFullPolicy);
    }
    // ---- model of the daemon -------------------------------------------------------------------------------------
    bool tryConnect(Server& s, Client& c)
    {
        if (!s.offered || !matches(s, c)) return false;
        if (s.conns.size() >= MAX_CLIENTS_PER_SERVER) { count("refused_connections"); return false; }
        s.conns.push_back(c.id);
        c.server = s.id;
        c.st = ConnectionState::CONNECTED;
        count("connections");
        return true;
    }
    void discServer(Server& s)
    {
        if (s.req && !s.offered)
        {
            s.offered = true;
            for (auto& c : clients)
                if (c->st == ConnectionState::WAIT_FOR_OFFER) tryConnect(s, *c);
        }
        else if (!s.req && s.offered)
            stopOffer(s);
    }
    void stopOffer(Server& s)
    {
        if (!s.offered) return;
        s.offered = false;
        for (auto id : s.conns)
            if (auto* c = client(id))
            {
                c->st = ConnectionState::WAIT_FOR_OFFER;
                c->server = 0;
            }
        for (auto& c : clients)
            if (matches(s, *c) && c->st != ConnectionState::CONNECTED) count("stop_offer_to_unconnected");
        s.conns.clear();
        count("stop_offers");
    }
    void drop(Client& c)
    {
        if (auto* s = server(c.server)) s->conns.erase(std::remove(s->conns.begin(), s->conns.end(), c.id), s->conns.end());
        c.server = 0;
        c.st = ConnectionState::NOT_CONNECTED;
    }
    void discClient(Client& c)
    {
        if (c.st == ConnectionState::NOT_CONNECTED && c.req)
        {
            c.st = ConnectionState::WAIT_FOR_OFFER;
            for (auto& s : servers)
                if (tryConnect(*s, c)) break;
        }
        else if (c.st != ConnectionState::NOT_CONNECTED && !c.req)
            drop(c);
    }
    void killServer(size_t i)
    {
        stopOffer(*servers[i]);
        servers.erase(servers.begin() + long(i));
    }
    void killClient(size_t i)
    {
        drop(*clients[i]);
        clients.erase(clients.begin() + long(i));
    }
    void discover()
    {
        note("discover");
        count("discoveries");
        w.discover();
        for (size_t i = 0; i < servers.size();)
        {
            discServer(*servers[i]);
            if (servers[i]->doomed) killServer(i);
            else ++i;
        }
        for (size_t i = 0; i < clients.size();)
        {
            discClient(*clients[i]);
            if (clients[i]->doomed) killClient(i);
            else ++i;
        }
        checkRegistry();
    }
    void push(Receiver& x, uint64_t cap, const Msg& m, bool blocking)
    {
        if (x.q.size() >= cap)
        {
            CK(!blocking, "harness", "model would block");
            x.q.pop_front();
            x.lost = true;
            count("evictions");
        }
        x.q.push_back(m);
    }
    // ---- checks --------------------------------------------------------------------------------------------------
    void judge(const char* who, uint32_t id, const Msg& x, const void* payload, bool request)
    {
        auto* h = mepoo::ChunkHeader::fromUserPayload(payload);
        CK(h == x.addr && payload == x.payload, "wrong-message", "%s %u got another message than #%llu", who, id, (unsigned long long)x.id);
        CK(h->userPayloadSize() == x.size, "size", "message #%llu has wrong size", (unsigned long long)x.id);
        CK(mismatch(payload, x.size, x.id) < 0, "content", "message #%llu changed", (unsigned long long)x.id);
        CK(h->originId() == x.origin, "origin", "message #%llu has a wrong origin", (unsigned long long)x.id);
        if (request)
        {
            auto* rh = popo::RequestHeader::fromPayload(payload);
            CK(rh->getSequenceId() == x.seqId, "sequence-id", "request #%llu has sequence id %lld instead of %lld", (unsigned long long)x.id, (long long)rh->getSequenceId(), (long long)x.seqId);
        }
        else
        {
            auto* rh = popo::ResponseHeader::fromPayload(payload);
            CK(rh->getSequenceId() == x.seqId, "sequence-id", "response #%llu has sequence id %lld instead of %lld", (unsigned long long)x.id, (long long)rh->getSequenceId(), (long long)x.seqId);
            CK(rh->hasServerError() == x.error, "server-error", "response #%llu has server error %d", (unsigned long long)x.id, int(rh->hasServerError()));
        }
        count("content_checks");
    }
    template <typename F>
    void eachSender(F f)
    {
        for (auto& c : clients) f(c->tx);
        for (auto& s : servers) f(s->tx);
    }
    template <typename F>
    void eachReceiver(F f)
    {
        for (auto& c : clients) f(c->rx);
        for (auto& s : servers) f(s->rx);
    }
    void checkAll()
    {
        std::set<const mepoo::ChunkHeader*> live;
        eachSender([&](Sender& s) {
            for (auto& l : s.loans)
            {
                CK(live.insert(l.addr).second, "ownership", "loaned chunk is also owned elsewhere");
                CK(mismatch(l.payload, l.size, l.id) < 0, "content", "loaned memory was changed by someone else");
            }
        });
        std::set<const mepoo::ChunkHeader*> loaned = live;
        eachSender([&](Sender& s) { if (s.hasLast) live.insert(s.last.addr); });
        eachReceiver([&](Receiver& x) {
            for (auto& h : x.q)
            {
                CK(!loaned.count(h.addr), "ownership", "queued chunk was loaned to somebody");
                live.insert(h.addr);
            }
            for (auto& h : x.held)
            {
                CK(!loaned.count(h.addr), "ownership", "held chunk was loaned to somebody");
                live.insert(h.addr);
                CK(mismatch(h.payload, h.size, h.id) < 0, "content", "held message #%llu was overwritten", (unsigned long long)h.id);
            }
        });
        std::vector<uint32_t> used(pools->n(), 0);
        for (auto* a : live) ++used[pools->poolOf(a)];
        for (uint32_t i = 0; i < pools->n(); ++i)
            CK(pools->info(i).m_usedChunks == used[i], "conservation", "pool %u: %u chunks used, but %u are owned by somebody", i, pools->info(i).m_usedChunks, used[i]);
        count("conservation_checks");
        for (auto& s : servers)
            if (s->user)
            {
                CK(s->u->isOffered() == s->req, "state", "server %u reports offered=%d", s->id, !s->req);
                CK(s->u->hasClients() == !s->conns.empty(), "connection", "server %u reports clients=%d, expected %zu", s->id, int(s->u->hasClients()), s->conns.size());
                CK(s->u->hasRequests() == !s->rx.q.empty(), "has-data", "server %u reports hasRequests=%d with %zu queued", s->id, int(s->u->hasRequests()), s->rx.q.size());
            }
        for (auto& c : clients)
            if (c->user)
            {
                auto st = c->u->getConnectionState();
                CK(st == c->st, "state", "client %u reports state %u, expected %u", c->id, unsigned(st), unsigned(c->st));
                CK(c->u->hasResponses() == !c->rx.q.empty(), "has-data", "client %u reports hasResponses=%d with %zu queued", c->id, int(c->u->hasResponses()), c->rx.q.size());
            }
        count("state_checks");
    }
    void checkRegistry()
    {
        if (!reg) return;
        while (true)
        {
            auto t = reg->take();
            if (t.has_error()) break;
            auto* r0 = static_cast<const roudi::ServiceRegistry*>(t.value());
            lastSeen.clear();
            r0->forEach([&](const roudi::ServiceRegistry::ServiceDescriptionEntry& e) {
                auto& d = e.serviceDescription;
                lastSeen[fmt("%s/%s/%s", d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str())] = {e.publisherCount, e.serverCount};
            });
            reg->release(t.value());
        }
        for (unsigned i = 0; i < services.size(); ++i)
        {
            auto& sd = services[i];
            uint64_t n = 0, p = (otherKind && otherOffered && i == 0) ? 1 : 0;
            for (auto& s : servers)
                if (s->offered && s->service == i) ++n;
            std::string k = fmt("%s/%s/%s", sd.getServiceIDString().c_str(), sd.getInstanceIDString().c_str(), sd.getEventIDString().c_str());
            auto seen = lastSeen.count(k) ? lastSeen[k] : std::make_pair(uint64_t(0), uint64_t(0));
            CK((seen.second > 0) == (n > 0), "registry", "service %s is %s as server in the published registry while %llu servers offer it", k.c_str(), seen.second ? "listed" : "not listed", (unsigned long long)n);
            CK((seen.first > 0) == (p > 0), "registry", "service %s is %s as publisher in the published registry while %llu publishers offer it", k.c_str(), seen.first ? "listed" : "not listed", (unsigned long long)p);
        }
        count("registry_checks");
    }
    // ---- operations ----------------------------------------------------------------------------------------------
    void createClient(int service = -1)
    {
        std::unique_ptr<Client> c(new Client());
        c->id = nextClient++;
        c->app = unsigned(r.below(napps));
        c->service = service >= 0 ? unsigned(service) : unsigned(r.below(services.size()));
        uint64_t qc[] = {1, 2, 3, 16};
        c->o.responseQueueCapacity = qc[r.below(4)];
        c->o.connectOnCreate = r.chance(calm ? 970 : 700);
        c->o.responseQueueFullPolicy = r.chance(250) ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
        c->o.serverTooSlowPolicy = r.chance(500) ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        note(fmt("cli%u(app%u,s%u,q%llu%s%s%s)", c->id, c->app, c->service, (unsigned long long)c->o.responseQueueCapacity, c->o.connectOnCreate ? ",conn" : "", c->o.responseQueueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER ? ",block" : "", c->o.serverTooSlowPolicy == popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER ? ",wait" : ""));
        auto d = w.pm->acquireClientPortData(services[c->service], c->o, appName(c->app), pools->mm.get(), roudi::PortManager::PortConfigInfo());
        CK(!d.has_error(), "create", "creating a client failed");
        c->u.make(d.value());
        c->uid = c->u->getUid();
        c->req = c->o.connectOnCreate;
        clients.push_back(std::move(c));
        discClient(*clients.back());
    }
    void createServer()
    {
        std::unique_ptr<Server> s(new Server());
        s->id = nextServer++;
        s->app = unsigned(r.below(napps));
        s->service = unsigned(r.below(services.size()));
        uint64_t qc[] = {1, 2, 3, 8, 1024};
        s->o.requestQueueCapacity = qc[r.below(5)];
        s->o.offerOnCreate = r.chance(calm ? 970 : 700);
        s->o.requestQueueFullPolicy = r.chance(250) ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
        s->o.clientTooSlowPolicy = r.chance(500) ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        bool exists = false;
        size_t doomedAt = size_t(-1);
        for (size_t i = 0; i < servers.size(); ++i)
            if (servers[i]->service == s->service)
            {
                if (servers[i]->doomed) doomedAt = i;
                else exists = true;
            }
        auto d = w.pm->acquireServerPortData(services[s->service], s->o, appName(s->app), pools->mm.get(), roudi::PortManager::PortConfigInfo());
        note(fmt("srv%u(app%u,s%u,q%llu%s%s%s)=%s", s->id, s->app, s->service, (unsigned long long)s->o.requestQueueCapacity, s->o.offerOnCreate ? ",offer" : "", s->o.requestQueueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER ? ",block" : "", s->o.clientTooSlowPolicy == popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER ? ",wait" : "", d.has_error() ? "refused" : "ok"));
        if (exists)
        {
            CK(d.has_error() && d.error() == roudi::PortPoolError::UNIQUE_SERVER_PORT_ALREADY_EXISTS, "two-servers", "a second server for one service was accepted or refused with the wrong error");
            count("refused_servers");
            return;
        }
        CK(!d.has_error(), "create", "creating a server failed");
        if (doomedAt != size_t(-1)) killServer(doomedAt);
        s->u.make(d.value());
        s->uid = s->u->getUid();
        s->req = s->o.offerOnCreate;
        servers.push_back(std::move(s));
        discServer(*servers.back());
    }
    bool sharedElsewhere(Sender& me, const mepoo::ChunkHeader* a)
    {
        bool y = false;
        eachSender([&](Sender& q) {
            for (auto& l : q.loans) y = y || l.addr == a;
            if (&q != &me && q.hasLast && q.last.addr == a) y = true;
        });
        eachReceiver([&](Receiver& x) {
            for (auto& h : x.q) y = y || h.addr == a;
            for (auto& h : x.held) y = y || h.addr == a;
        });
        return y;
    }
    // f: does the real call
    template <typename F>
    Msg* loan(Sender& tx, const popo::UniquePortId& uid, uint32_t limit, uint32_t uh, uint32_t uhal, const char* who, uint32_t id, F f)
    {
        uint64_t sizes[] = {1, 8, 16, 24, 64, 128, 200, 400, 600};
        uint64_t size = sizes[r.below(9)];
        uint64_t largest = pools->info(pools->n() - 1).m_chunkSize;
        if (size + 140 > largest && r.chance(900)) size = r.range(1, 16);
        uint32_t al = 1u << r.below(5);
        auto cs = mepoo::ChunkSettings::create(size, al, uh, uhal);
        uint64_t need = cs.value().requiredChunkSize();
        uint32_t pool = pools->smallestFitting(need);
        bool reusable = tx.hasLast && !sharedElsewhere(tx, tx.last.addr) && tx.last.addr->chunkSize() >= need;
        bool tooMany = tx.loans.size() >= limit;
        bool noFit = pool >= pools->n();
        bool empty = !noFit && pools->info(pool).m_usedChunks == pools->info(pool).m_numChunks;
        expected<void*, popo::AllocationError> l = f(size, al);
        note(fmt("%s%u.loan(%llu)=%s", who, id, (unsigned long long)size, l.has_error() ? popo::asStringLiteral(l.error()) : "ok"));
        if (l.has_error())
        {
            auto e = l.error();
            bool explained = (tooMany && e == popo::AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL)
                             || (!reusable && empty && e == popo::AllocationError::RUNNING_OUT_OF_CHUNKS)
                             || (!reusable && noFit && e == popo::AllocationError::NO_MEMPOOLS_AVAILABLE);
            CK(explained, "loan-refused", "%s%u: loan of %llu bytes refused with %s (loans %zu, pool full %d, fits %d, reusable %d)", who, id, (unsigned long long)size, popo::asStringLiteral(e), tx.loans.size(), empty, !noFit, reusable);
            count(tooMany ? "refused_limit" : (noFit ? "refused_size" : "refused_empty"));
            return nullptr;
        }
        CK(!tooMany, "limit", "%s%u got loan number %zu", who, id, tx.loans.size() + 1);
        CK(reusable || (!noFit && !empty), "loan-granted", "%s%u got memory although no fitting chunk is free", who, id);
        auto* h = mepoo::ChunkHeader::fromUserPayload(l.value());
        bool reused = tx.hasLast && h == tx.last.addr;
        CK(!sharedElsewhere(tx, h), "ownership", "loan hands out a chunk that somebody still owns");
        if (reused) CK(reusable, "ownership", "%s%u reuses its last chunk although others own it or it is too small", who, id);
        else CK(pools->poolOf(h) == pool, "wrong-pool", "chunk for %llu bytes comes from pool %u instead of %u", (unsigned long long)size, pools->poolOf(h), pool);
        CK(reinterpret_cast<uintptr_t>(l.value()) % al == 0, "alignment", "payload not aligned");
        CK(h->userPayloadSize() == size, "size", "header of the loaned chunk has wrong size");
        CK(h->originId() == uid, "origin", "loaned chunk carries a wrong origin id");
        Msg m;
        m.id = nextId++;
        m.addr = h;
        m.payload = l.value();
        m.size = size;
        m.origin = uid;
        fill(l.value(), size, m.id);
        tx.loans.push_back(m);
        count("loans");
        return &tx.loans.back();
    }
    void loanRequest(Client& c)
    {
        auto* m = loan(c.tx, c.uid, MAX_REQUESTS_ALLOCATED_SIMULTANEOUSLY, sizeof(popo::RequestHeader), alignof(popo::RequestHeader), "cli", c.id,
                       [&](uint64_t s, uint32_t a) { return c.u->loan(s, a); });
        if (!m) return;
        auto* rh = popo::RequestHeader::fromPayload(const_cast<void*>(m->payload));
        m->client = c.id;
        m->seqId = r.chance(100) ? 0 : nextSeq++;
        if (m->seqId) rh->setSequenceId(m->seqId);
        CK(rh->getSequenceId() == m->seqId, "sequence-id", "fresh request has sequence id %lld instead of %lld", (long long)rh->getSequenceId(), (long long)m->seqId);
    }
    void send(Client& c, size_t k)
    {
        Server* s = server(c.server);
        bool block = s && blocks(c.o.serverTooSlowPolicy, s->o.requestQueueFullPolicy);
        if (c.req && s && block && s->rx.q.size() >= s->o.requestQueueCapacity) { count("would_block"); return; }
        Msg m = c.tx.loans[k];
        c.tx.loans.erase(c.tx.loans.begin() + long(k));
        auto res = c.u->send(const_cast<void*>(m.payload));
        note(fmt("cli%u.send(#%llu)=%s", c.id, (unsigned long long)m.id, res.has_error() ? popo::asStringLiteral(res.error()) : "ok"));
        if (!c.req)
        {
            CK(res.has_error() && res.error() == popo::ClientSendError::NO_CONNECT_REQUESTED, "send-result", "client %u not wanting a connection sent a request", c.id);
            count("send_not_connected");
            return;
        }
        c.tx.sent++;
        c.tx.hasLast = true;
        c.tx.last = m;
        if (!s)
        {
            CK(res.has_error() && res.error() == popo::ClientSendError::SERVER_NOT_AVAILABLE, "send-result", "client %u without connection: wrong send result", c.id);
            count("send_no_server");
            return;
        }
        CK(!res.has_error(), "send-result", "connected client %u cannot send: %s", c.id, res.has_error() ? popo::asStringLiteral(res.error()) : "");
        push(s->rx, s->o.requestQueueCapacity, m, block);
        count("requests");
    }
    void takeResponse(Client& c)
    {
        auto t = c.u->take();
        note(fmt("cli%u.take=%s", c.id, t.has_error() ? popo::asStringLiteral(t.error()) : "ok"));
        if (c.rx.q.empty())
        {
            CK(t.has_error() && t.error() == popo::ChunkReceiveResult::NO_CHUNK_AVAILABLE, "take-empty", "client %u with empty queue got something", c.id);
            return;
        }
        Msg m = c.rx.q.front();
        c.rx.q.pop_front();
        if (t.has_error())
        {
                CK(t.error() == popo::ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL && c.rx.held.size() > MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY, "take-refused", "client %u holding %zu responses cannot take: %s", c.id, c.rx.held.size(), popo::asStringLiteral(t.error()));
            count("refused_hold_client");
            return;
        }
        CK(c.rx.held.size() <= MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY, "limit", "client %u holds %zu responses", c.id, c.rx.held.size() + 1);
        judge("client", c.id, m, t.value(), false);
        CK(m.client == c.id, "misrouted", "client %u received a response to a request of client %u", c.id, m.client);
        c.rx.held.push_back(m);
        maxOf("max_responses_held", c.rx.held.size());
        count("responses_taken");
    }
    void takeRequest(Server& s)
    {
        auto t = s.u->take();
        note(fmt("srv%u.take=%s", s.id, t.has_error() ? popo::asStringLiteral(t.error()) : "ok"));
        if (s.rx.q.empty())
        {
            auto want = s.req ? popo::ServerRequestResult::NO_PENDING_REQUESTS : popo::ServerRequestResult::NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER;
            CK(t.has_error() && t.error() == want, "take-empty", "server %u with empty queue: wrong result", s.id);
            return;
        }
        Msg m = s.rx.q.front();
        s.rx.q.pop_front();
        if (t.has_error())
        {
            bool ok = t.error() == popo::ServerRequestResult::TOO_MANY_REQUESTS_HELD_IN_PARALLEL || (!s.req && t.error() == popo::ServerRequestResult::NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER);
            CK(ok && s.rx.held.size() > MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY, "take-refused", "server %u holding %zu requests cannot take: %s", s.id, s.rx.held.size(), popo::asStringLiteral(t.error()));
            count("refused_hold");
            return;
        }
        CK(s.rx.held.size() <= MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY, "limit", "server %u holds %zu requests", s.id, s.rx.held.size() + 1);
        judge("server", s.id, m, t.value(), true);
        s.rx.held.push_back(m);
        count("requests_taken");
    }
    void loanResponse(Server& s)
    {
        if (s.rx.held.empty()) return;
        Msg q = r.pick(s.rx.held);
        auto* rq = popo::RequestHeader::fromPayload(q.payload);
        auto* m = loan(s.tx, s.uid, MAX_RESPONSES_ALLOCATED_SIMULTANEOUSLY, sizeof(popo::ResponseHeader), alignof(popo::ResponseHeader), "srv", s.id,
                       [&](uint64_t sz, uint32_t a) { return s.u->loan(rq, sz, a); });
        if (!m) return;
        m->client = q.client;
        m->seqId = q.seqId;
        m->error = r.chance(200);
        auto* rh = popo::ResponseHeader::fromPayload(const_cast<void*>(m->payload));
        CK(rh->getSequenceId() == q.seqId && !rh->hasServerError(), "sequence-id", "fresh response has sequence id %lld instead of %lld", (long long)rh->getSequenceId(), (long long)q.seqId);
        if (m->error) rh->setServerError();
    }
    void respond(Server& s, size_t k)
    {
        Msg m = s.tx.loans[k];
        Client* c = client(m.client);
        bool connected = c && std::find(s.conns.begin(), s.conns.end(), c->id) != s.conns.end();
        bool block = connected && blocks(s.o.clientTooSlowPolicy, c->o.responseQueueFullPolicy);
        if (s.req && block && c->rx.q.size() >= c->o.responseQueueCapacity) { count("would_block"); return; }
        s.tx.loans.erase(s.tx.loans.begin() + long(k));
        auto res = s.u->send(const_cast<void*>(m.payload));
        note(fmt("srv%u.respond(#%llu->cli%u)=%s", s.id, (unsigned long long)m.id, m.client, res.has_error() ? popo::asStringLiteral(res.error()) : "ok"));
        if (!s.req)
        {
            CK(res.has_error() && res.error() == popo::ServerSendError::NOT_OFFERED, "send-result", "server %u not offering sent a response", s.id);
            count("respond_not_offered");
            return;
        }
        if (!connected)
        {
            CK(res.has_error() && res.error() == popo::ServerSendError::CLIENT_NOT_AVAILABLE, "send-result", "server %u: response to client %u which is gone or disconnected: wrong result", s.id, m.client);
            count(c ? "respond_disconnected" : "respond_gone");
            return;
        }
        CK(!res.has_error(), "send-result", "server %u cannot respond to connected client %u: %s", s.id, m.client, res.has_error() ? popo::asStringLiteral(res.error()) : "");
        s.tx.sent++;
        s.tx.hasLast = true;
        s.tx.last = m;
        push(c->rx, c->o.responseQueueCapacity, m, block);
        count("responses");
    }
    void step()
    {
        std::vector<Client*> uc;
        std::vector<Server*> us;
        for (auto& c : clients)
            if (c->user) uc.push_back(c.get());
        for (auto& s : servers)
            if (s->user) us.push_back(s.get());
        uint64_t x = r.below(100);
        while (calm && x >= 13 && x < 30 && !r.chance(100)) x = r.below(100);
        if (calm && x < 6 && !us.empty() && !r.chance(100)) x = 60;
        if (hog && x >= 89 && x < 96 && !r.chance(60)) x = r.chance(500) ? 72 : 85;
        if (x < 6 || us.empty()) createServer();
        else if (x < 13 || uc.empty())
        {
            if (clients.size() < 6) createClient();
        }
        else if (x < 15)
        {
            auto* s = r.pick(us);
            note(fmt("~srv%u", s->id));
            s->u.destroy();
            s->user = false;
            s->doomed = true;
        }
        else if (x < 18)
        {
            auto* c = r.pick(uc);
            note(fmt("~cli%u", c->id));
            c->u.destroy();
            c->user = false;
            c->doomed = true;
        }
        else if (x < 19)
        {
            unsigned a = unsigned(r.below(napps));
            note(fmt("crash(app%u)", a));
            count("crashes");
            for (auto& s : servers)
                if (s->app == a) s->u.abandon();
            for (auto& c : clients)
                if (c->app == a) c->u.abandon();
            w.pm->deletePortsOfProcess(appName(a));
            for (size_t i = 0; i < servers.size();)
                if (servers[i]->app == a) killServer(i);
                else ++i;
            for (size_t i = 0; i < clients.size();)
                if (clients[i]->app == a) killClient(i);
                else ++i;
        }
        else if (x < 22)
        {
            auto* s = r.pick(us);
            note(fmt("srv%u.offer", s->id));
            s->u->offer();
            s->req = true;
        }
        else if (x < 24)
        {
            auto* s = r.pick(us);
            note(fmt("srv%u.stopOffer", s->id));
            s->u->stopOffer();
            s->req = false;
        }
        else if (x < 28)
        {
            auto* c = r.pick(uc);
            note(fmt("cli%u.connect", c->id));
            c->u->connect();
            c->req = true;
        }
        else if (x < 30)
        {
            auto* c = r.pick(uc);
            note(fmt("cli%u.disconnect", c->id));
            c->u->disconnect();
            c->req = false;
        }
        else if (x < 38) discover();
        else if (x < 42)
        {
            auto* c = r.pick(uc);
            for (uint64_t i = r.chance(150) ? 6 : 1; i > 0; --i) loanRequest(*c);
        }
        else if (x < 58)
        {
            auto* c = r.pick(uc);
            if (c->tx.loans.empty()) loanRequest(*c);
            if (!c->tx.loans.empty()) send(*c, r.below(c->tx.loans.size()));
        }
        else if (x < 68) takeRequest(*r.pick(us));
        else if (x < 70)
        {
            auto* s = r.pick(us);
            for (uint64_t i = r.chance(300) ? 6 : 1; i > 0; --i) loanResponse(*s);
        }
        else if (x < 82)
        {
            auto* s = r.pick(us);
            if (s->tx.loans.empty()) loanResponse(*s);
            if (!s->tx.loans.empty()) respond(*s, r.below(s->tx.loans.size()));
        }
        else if (x < 89)
        {
            std::vector<Client*> d;
            for (auto* c : uc)
                if (!c->rx.q.empty()) d.push_back(c);
            takeResponse(d.empty() || r.chance(100) ? *r.pick(uc) : *r.pick(d));
        }
        else if (x < 92)
        {
            auto* c = r.pick(uc);
            if (!c->rx.held.empty() && r.chance(800))
            {
                size_t k = r.below(c->rx.held.size());
                judge("client", c->id, c->rx.held[k], c->rx.held[k].payload, false);
                c->u->releaseResponse(c->rx.held[k].payload);
                c->rx.held.erase(c->rx.held.begin() + long(k));
                count("releases");
            }
            else if (!c->tx.loans.empty())
            {
                size_t k = r.below(c->tx.loans.size());
                c->u->releaseRequest(const_cast<void*>(c->tx.loans[k].payload));
                c->tx.loans.erase(c->tx.loans.begin() + long(k));
                count("loan_releases");
            }
        }
        else if (x < 96)
        {
            auto* s = r.pick(us);
            if (!s->rx.held.empty() && r.chance(850))
            {
                size_t k = r.below(s->rx.held.size());
                judge("server", s->id, s->rx.held[k], s->rx.held[k].payload, true);
                s->u->releaseRequest(s->rx.held[k].payload);
                s->rx.held.erase(s->rx.held.begin() + long(k));
                count("releases");
            }
            else if (!s->tx.loans.empty())
            {
                size_t k = r.below(s->tx.loans.size());
                s->u->releaseResponse(const_cast<void*>(s->tx.loans[k].payload));
                s->tx.loans.erase(s->tx.loans.begin() + long(k));
                count("loan_releases");
            }
        }
        else if (x < 97)
        {
            if (r.chance(500))
            {
                auto* c = r.pick(uc);
                note(fmt("cli%u.releaseQueued", c->id));
                c->u->releaseQueuedResponses();
                c->rx.q.clear();
            }
            else
            {
                auto* s = r.pick(us);
                note(fmt("srv%u.releaseQueued", s->id));
                s->u->releaseQueuedRequests();
                s->rx.q.clear();
            }
        }
        else if (x < 99)
        {
            if (r.chance(500))
            {
                auto* c = r.pick(uc);
                bool m = c->u->hasMissedResponses();
                CK(m == c->rx.lost, "missed-flag", "client %u reports missed=%d", c->id, m);
                c->rx.lost = false;
                count(m ? "missed_true" : "missed_false");
            }
            else
            {
                auto* s = r.pick(us);
                bool m = s->u->hasMissedRequests();
                CK(m == s->rx.lost, "missed-flag", "server %u reports missed=%d", s->id, m);
                s->rx.lost = false;
                count(m ? "missed_true" : "missed_false");
            }
        }
        else
        {
            // the other kind of provider with the same service description
            if (!otherKind)
            {
                popo::PublisherOptions po;
                po.offerOnCreate = otherOffered = r.chance(500);
                auto d = w.pm->acquirePublisherPortData(services[0], po, appName(otherApp), pools->mm.get(), roudi::PortManager::PortConfigInfo());
                CK(!d.has_error(), "create", "creating a publisher failed");
                otherKind.reset(new UPub(d.value()));
                note("otherKind");
            }
            else if (r.chance(700))
            {
                if (otherOffered) otherKind->stopOffer();
                else otherKind->offer();
                otherOffered = !otherOffered;
                note(fmt("otherKind.offered=%d", otherOffered));
                discover();
            }
            else
            {
                otherKind.reset();
                otherOffered = false;
                note("~otherKind");
                discover();
            }
        }
    }
    // fills the number of clients one server can serve
    void crowdRun()
    {
        while (servers.empty() || !servers[0]->user) createServer();
        Server& s = *servers[0];
        s.u->offer();
        s.req = true;
        discover();
        for (unsigned i = 0; i < MAX_CLIENTS_PER_SERVER + 3; ++i) createClient(int(s.service));
        checkAll();
        s.u->stopOffer();
        s.req = false;
        discover();
        checkAll();
        s.u->offer();
        s.req = true;
        discover();
        checkAll();
        count("crowd_runs");
    }
    void finish()
    {
        for (auto& s : servers)
            if (s->u.live) s->u.destroy();
        for (auto& c : clients)
            if (c->u.live) c->u.destroy();
        otherKind.reset();
        otherOffered = false;
        note("end");
        w.discover();
        servers.clear();
        clients.clear();
        for (uint32_t i = 0; i < pools->n(); ++i)
            CK(pools->info(i).m_usedChunks == 0, "leak", "pool %u: %u chunks are still used after all endpoints are gone", i, pools->info(i).m_usedChunks);
        checkRegistry();
        if (reg)
        {
            reg.reset();
            w.discover();
        }
        w.checkNoPorts("end of case");
    }
    void run()
    {
        ctx().trace = &log;
        if (r.chance(600))
        {
            popo::SubscriberOptions so;
            so.historyRequest = 1;
            so.queueCapacity = 1;
            auto d = w.pm->acquireSubscriberPortData({SERVICE_DISCOVERY_SERVICE_NAME, SERVICE_DISCOVERY_INSTANCE_NAME, SERVICE_DISCOVERY_EVENT_NAME}, so, appName(99), roudi::PortManager::PortConfigInfo());
            reg.reset(new USub(d.value()));
            discover();
        }
        if (r.chance(3)) crowdRun();
        unsigned n = unsigned(r.range(30, 220));
        for (unsigned i = 0; i < n; ++i)
        {
            step();
            checkAll();
            count("operations");
        }
        distinct(mix(std::hash<std::string>()(log), log.size()));
        sample(log);
        finish();
        ctx().trace = nullptr;
    }
};
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "random operation histories on the real client/server ports, port manager and pools compared with an exact sequential model after every operation");
    World::get();
    return runCases([](uint64_t seed, uint64_t) { Case c(seed); c.run(); });
}
