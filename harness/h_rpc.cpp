// Request/response under the controlled scheduler: client, server and daemon threads on the real ports and pools.
// modes: static (connected all the time, order and completeness, overflow), block (blocking policies on both sides, peers
// leaving), chaos (life cycle, slot reuse, crashes). Serves C07 C05 C01 C02 C10.
#include "sched.hpp"
#include "world.hpp"
#include <algorithm>
#include <mutex>

using namespace vh;
using namespace vw;
using namespace iox;

namespace
{
constexpr uint64_t NEVER = ~0ull;
struct Body
{
    uint64_t id;     // unique message id
    uint32_t client; // who asked (incarnation)
    uint32_t req;    // number of the request of that client
    uint32_t rsp;    // number of the response to that request
    uint32_t isRsp;
    uint8_t body[24];
};
struct Rec { uint64_t s{0}, e{NEVER}; bool ok{false}; };
struct Cli
{
    uint32_t id{0};
    unsigned app{0};
    popo::ClientOptions o;
    Abandonable<UClient> u;
    std::vector<Rec> reqs;
    std::vector<std::pair<uint32_t, uint32_t>> got; // responses (req, rsp) in order of arrival
    unsigned todo{0}, leave{0};
    bool done{false}, left{false}, connectedEver{false};
};
struct Srv
{
    uint32_t id{0};
    unsigned app{0};
    popo::ServerOptions o;
    Abandonable<UServer> u;
    std::vector<std::pair<uint32_t, uint32_t>> seen;              // (client, req) in order of arrival
    std::map<uint32_t, std::vector<std::pair<uint32_t, uint32_t>>> sent; // per client (req, rsp) in order, accepted ones
    bool done{false}, left{false};
};
struct Case
{
    Rng r;
    World& w{World::get()};
    std::string mode;
    std::unique_ptr<Pools> pools;
    std::vector<std::unique_ptr<Cli>> clis;
    std::unique_ptr<Srv> srv;
    capro::ServiceDescription sd{svc("Rpc", "One", "Call")};
    std::mutex daemon;
    uint64_t nextId{1};
    uint32_t nextCli{1}, nextSrv{1};
    unsigned nextApp{20};
    bool dirty{false};
    std::vector<unsigned> deadApps;
    std::string cfg;
    std::map<const void*, int> owned;
    std::set<uint64_t> known;            // message ids that were really sent
    std::map<uint32_t, unsigned> sentTo; // requests accepted per client incarnation
    unsigned srvRounds{1};

    Case(uint64_t seed, const std::string& m)
        : r(seed)
        , mode(m)
    {
        if (mode.empty())
        {
            const char* ms[] = {"static", "block", "chaos"};
            mode = ms[r.below(3)];
        }
    }
#define CK(cond, key, ...) VH_CHECK(cond, key, "[%s] %s; %s", mode.c_str(), vh::fmt(__VA_ARGS__).c_str(), cfg.c_str())
    void own(const void* p, const char* who)
    {
        CK(owned[p] == 0, "ownership", "%s returned memory that is still owned by somebody else", who);
        owned[p] = 1;
    }
    void disown(const void* p) { owned.erase(p); }
    void fillSlow(Body& b, uint64_t id)
    {
        b.id = id;
        fill(b.body, 12, id);
        vs::point();
        for (int i = 12; i < 24; ++i) b.body[i] = uint8_t(id * 5 + uint64_t(i));
    }
    void check(const Body& b, uint64_t id, const char* when)
    {
        bool ok = b.id == id && mismatch(b.body, 12, id) < 0;
        for (int i = 12; i < 24; ++i) ok = ok && b.body[i] == uint8_t(id * 5 + uint64_t(i));
        CK(ok, "content", "message #%llu was overwritten %s", (unsigned long long)id, when);
        count("content_checks");
    }
    void makeCli(Cli& c)
    {
        c.id = nextCli++;
        std::lock_guard<std::mutex> g(daemon);
        auto d = w.pm->acquireClientPortData(sd, c.o, appName(c.app), pools->mm.get(), roudi::PortManager::PortConfigInfo());
        CK(!d.has_error(), "create", "creating a client failed");
        c.u.make(d.value());
        c.reqs.clear();
        c.got.clear();
    }
    bool makeSrv(Srv& s)
    {
        std::lock_guard<std::mutex> g(daemon);
        auto d = w.pm->acquireServerPortData(sd, s.o, appName(s.app), pools->mm.get(), roudi::PortManager::PortConfigInfo());
        if (d.has_error()) return false;
        s.id = nextSrv++;
        s.u.make(d.value());
        s.seen.clear();
        s.sent.clear();
        return true;
    }
    // ---- client --------------------------------------------------------------------------------------------------
    void sendOne(Cli& c)
    {
        auto l = c.u->loan(sizeof(Body), alignof(Body));
        if (l.has_error())
        {
            CK(l.error() == popo::AllocationError::RUNNING_OUT_OF_CHUNKS, "loan-error", "loan failed with %s", popo::asStringLiteral(l.error()));
            count("loan_refused");
            vs::yieldPoint();
            return;
        }
        own(l.value(), "loan");
        auto& b = *static_cast<Body*>(l.value());
        uint64_t id = nextId++;
        b.client = c.id;
        b.req = uint32_t(c.reqs.size());
        b.rsp = 0;
        b.isRsp = 0;
        popo::RequestHeader::fromPayload(l.value())->setSequenceId(int64_t(c.id) * 100000 + b.req);
        fillSlow(b, id);
        check(b, id, "while on loan");
        disown(l.value());
        c.reqs.push_back({vs::now(), NEVER, false});
        known.insert(id);
        size_t k = c.reqs.size() - 1;
        auto res = c.u->send(l.value());
        c.reqs[k].e = vs::now();
        c.reqs[k].ok = !res.has_error();
        if (res.has_error()) count("send_refused");
        else count("requests");
        if (mode == "static") CK(!res.has_error(), "send-result", "connected client could not send: %s", popo::asStringLiteral(res.error()));
    }
    bool takeRsp(Cli& c)
    {
        auto t = c.u->take();
        if (t.has_error())
        {
            CK(t.error() == popo::ChunkReceiveResult::NO_CHUNK_AVAILABLE, "take-error", "take failed with %s", popo::asStringLiteral(t.error()));
            return false;
        }
        auto& b = *static_cast<const Body*>(t.value());
        own(t.value(), "take");
        CK(known.count(b.id), "invented", "client %u received something that was never sent", c.id);
        uint64_t id = b.id;
        check(b, id, "when taken by the client");
        CK(b.isRsp == 1, "misrouted", "client %u received a request", c.id);
        CK(b.client == c.id, "misrouted", "client %u received the response to request %u of client %u", c.id, b.req, b.client);
        int64_t sq = popo::ResponseHeader::fromPayload(t.value())->getSequenceId();
        CK(sq == int64_t(c.id) * 100000 + b.req, "sequence-id", "response carries sequence id %lld instead of %lld", (long long)sq, (long long)(int64_t(c.id) * 100000 + b.req));
        for (auto& g : c.got) CK(!(g.first == b.req && g.second == b.rsp), "duplicate", "client %u received response %u/%u twice", c.id, b.req, b.rsp);
        if (!c.got.empty() && (mode != "chaos")) CK(c.got.back().first < b.req || (c.got.back().first == b.req && c.got.back().second < b.rsp), "order", "responses arrive out of order");
        c.got.push_back({b.req, b.rsp});
        if (r.chance(400)) vs::point();
        check(b, id, "while held by the client");
        disown(t.value());
        c.u->releaseResponse(t.value());
        count("responses_taken");
        return true;
    }
    bool allCliDone() { return std::all_of(clis.begin(), clis.end(), [](auto& c) { return c->done || c->left; }); }
    void cliBody(Cli& c)
    {
        vs::label("client");
        for (unsigned i = 0; i < c.todo; ++i)
        {
            if (mode == "chaos")
            {
                uint64_t x = r.below(25);
                if (x == 0) { c.u->disconnect(); dirty = true; continue; }
                if (x == 1) { c.u->connect(); dirty = true; continue; }
                if (x == 2)
                {
                    c.u.destroy();
                    dirty = true;
                    c.app = nextApp++;
                    makeCli(c);
                    count("clients_replaced");
                    continue;
                }
                if (x == 3 && r.chance(300))
                {
                    c.u.abandon();
                    deadApps.push_back(c.app);
                    dirty = true;
                    c.left = c.done = true;
                    count("crashes");
                    return;
                }
            }
            sendOne(c);
            if (r.chance(500)) takeRsp(c);
        }
        if (mode == "block" && c.leave)
        {
            // leaves with responses outstanding; a server blocked on us must go on
            c.left = true;
            if (c.leave == 1) { c.u->disconnect(); count("left_disconnect"); }
            else if (c.leave == 2) { c.u.destroy(); count("left_destroy"); }
            else { c.u.abandon(); deadApps.push_back(c.app); count("left_crash"); }
            dirty = true;
            c.done = true;
            return;
        }
        c.done = true;
        dirty = true;
        // keep taking so that a waiting server proceeds
        while (!(srv->done || srv->left))
        {
            if (!takeRsp(c)) vs::waitUntil([&] { return srv->done || srv->left || (c.u.live && c.u.get().hasResponses()); }, "waiting for responses");
        }
    }
    // ---- server --------------------------------------------------------------------------------------------------
    bool serveOne(Srv& s)
    {
        auto t = s.u->take();
        if (t.has_error())
        {
            CK(t.error() == popo::ServerRequestResult::NO_PENDING_REQUESTS || t.error() == popo::ServerRequestResult::NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER, "take-error", "server take failed with %s", popo::asStringLiteral(t.error()));
            return false;
        }
        auto& b = *static_cast<const Body*>(t.value());
        own(t.value(), "server take");
        uint64_t id = b.id;
        CK(known.count(id) && b.isRsp == 0, "invented", "server received something that was never requested");
        check(b, id, "when taken by the server");
        for (auto& x : s.seen)
            CK(!(x.first == b.client && x.second >= b.req), "order", "request %u of client %u arrived after request %u", b.req, b.client, x.second);
        s.seen.push_back({b.client, b.req});
        count("requests_taken");
        if (r.chance(300)) vs::yieldPoint(); // the client may vanish or be replaced meanwhile
        unsigned n = r.chance(150) ? 2 : (r.chance(100) ? 0 : 1);
        for (unsigned i = 0; i < n; ++i)
        {
            auto l = s.u->loan(popo::RequestHeader::fromPayload(t.value()), sizeof(Body), alignof(Body));
            if (l.has_error())
            {
                CK(l.error() == popo::AllocationError::RUNNING_OUT_OF_CHUNKS, "loan-error", "response loan failed with %s", popo::asStringLiteral(l.error()));
                count("loan_refused");
                continue;
            }
            own(l.value(), "response loan");
            auto& o = *static_cast<Body*>(l.value());
            uint64_t rid = nextId++;
            o.client = b.client;
            o.req = b.req;
            o.rsp = i;
            o.isRsp = 1;
            fillSlow(o, rid);
            check(o, rid, "while on loan");
            disown(l.value());
            known.insert(rid);
            auto& log = s.sent[b.client];
            auto res = s.u->send(l.value());
            if (res.has_error())
            {
                CK(res.error() == popo::ServerSendError::CLIENT_NOT_AVAILABLE || res.error() == popo::ServerSendError::NOT_OFFERED, "send-result", "respond failed with %s", popo::asStringLiteral(res.error()));
                count("respond_refused");
                if (mode == "static") CK(false, "send-result", "response to a connected client was refused");
            }
            else
            {
                log.push_back({b.req, i});
                count("responses");
            }
        }
        check(b, id, "while held by the server");
        disown(t.value());
        s.u->releaseRequest(t.value());
        return true;
    }
    void srvBody(Srv& s)
    {
        vs::label("server");
        unsigned ops = mode == "chaos" ? unsigned(r.range(5, 40)) : 100000;
        unsigned leaveAfter = mode == "block" && r.chance(300) ? unsigned(r.below(6)) : 100000;
        for (unsigned i = 0; i < ops; ++i)
        {
            if (s.seen.size() >= leaveAfter)
            {
                // a client blocked on our full queue must go on
                s.left = true;
                unsigned how = unsigned(r.below(3));
                if (how == 0) { s.u->stopOffer(); count("server_stopped"); }
                else if (how == 1) { s.u.destroy(); count("server_destroyed"); }
                else { s.u.abandon(); deadApps.push_back(s.app); count("server_crashed"); }
                dirty = true;
                s.done = true;
                return;
            }
            if (mode == "chaos")
            {
                uint64_t x = r.below(25);
                if (x == 0) { s.u->stopOffer(); dirty = true; continue; }
                if (x < 3) { s.u->offer(); dirty = true; continue; }
                if (x == 3)
                {
                    s.u.destroy();
                    dirty = true;
                    s.app = nextApp++;
                    if (!makeSrv(s)) CK(false, "create", "creating the replacement of a destroyed server failed");
                    count("servers_replaced");
                    continue;
                }
                if (x == 4 && r.chance(200))
                {
                    s.u.abandon();
                    deadApps.push_back(s.app);
                    dirty = true;
                    s.left = s.done = true;
                    count("crashes");
                    return;
                }
            }
            if (!serveOne(s))
            {
                if (mode == "chaos") vs::yieldPoint();
                else if (allCliDone() && !s.u->hasRequests()) break;
                else vs::waitUntil([&] { return s.u.get().hasRequests() || allCliDone(); }, "waiting for requests");
            }
        }
        s.done = true;
        dirty = true;
    }
    void daemonBody()
    {
        vs::label("daemon");
        unsigned spontaneous = unsigned(r.below(6));
        auto allDone = [&] { return allCliDone() && (srv->done || srv->left); };
        for (;;)
        {
            if (spontaneous > 0)
            {
                --spontaneous;
                for (uint64_t i = r.below(20); i > 0; --i) vs::yieldPoint();
            }
            else
                vs::waitUntil([&] { return dirty || allDone(); }, "idle");
            if (allDone() && !dirty) break;
            dirty = false;
            std::lock_guard<std::mutex> g(daemon);
            while (!deadApps.empty())
            {
                unsigned a = deadApps.back();
                deadApps.pop_back();
                w.pm->deletePortsOfProcess(appName(a));
                count("crash_cleanups");
            }
            w.discover();
        }
    }
    // ---- oracle --------------------------------------------------------------------------------------------------
    void judge()
    {
        for (auto& c : clis)
        {
            if (c->left || !c->u.live) continue;
            bool reqMayLose = !(srv->o.requestQueueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER) && srv->o.requestQueueCapacity < 60;
            bool rspMayLose = !(c->o.responseQueueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER) && c->o.responseQueueCapacity < 16;
            if (!srv->left)
            {
                if (!reqMayLose)
                {
                    std::vector<uint32_t> v;
                    for (auto& x : srv->seen)
                        if (x.first == c->id) v.push_back(x.second);
                    uint32_t k = 0;
                    for (uint32_t i = 0; i < c->reqs.size(); ++i)
                        if (c->reqs[i].ok)
                        {
                            CK(k < v.size() && v[k] == i, "lost", "request %u of client %u was accepted but never reached the server", i, c->id);
                            ++k;
                        }
                    CK(k == v.size(), "invented", "server saw more requests of client %u than it sent", c->id);
                    count("judged_requests");
                }
            }
            if (!rspMayLose && srv->u.live)
            {
                auto& v = srv->sent[c->id];
                CK(v == c->got || (srv->left && c->got.size() <= v.size()), "lost", "client %u received %zu of %zu responses accepted for it", c->id, c->got.size(), v.size());
                count("judged_responses");
            }
        }
    }
    void run(uint64_t seed)
    {
        bool big = mode == "static" && r.chance(600);
        pools.reset(new Pools({{sizeof(Body) + 64, uint32_t(mode == "chaos" ? r.range(6, 40) : 120)}}));
        unsigned nc = 1 + unsigned(r.below(3));
        srv.reset(new Srv());
        srv->app = 9;
        srv->o.requestQueueCapacity = big || mode == "chaos" ? 64 : r.range(1, 3);
        // waiting in both directions at once is a circular wait of the application, not of the middleware: one side per case
        bool block = mode == "block" && r.chance(500), blockRsp = mode == "block" && !block;
        if (blockRsp) srv->o.requestQueueCapacity = 64;
        srv->o.requestQueueFullPolicy = block ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
        srv->o.clientTooSlowPolicy = blockRsp ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        cfg = fmt("pool %u srv(q%llu)", pools->info(0).m_numChunks, (unsigned long long)srv->o.requestQueueCapacity);
        makeSrv(*srv);
        for (unsigned i = 0; i < nc; ++i)
        {
            clis.emplace_back(new Cli());
            auto& c = *clis.back();
            c.app = i;
            c.todo = unsigned(r.range(1, mode == "chaos" ? 14 : 6));
            c.o.responseQueueCapacity = big ? 16 : r.range(1, 3);
            c.o.responseQueueFullPolicy = blockRsp && r.chance(800) ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
            c.o.serverTooSlowPolicy = block ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            c.leave = mode == "block" && r.chance(400) ? unsigned(r.range(1, 3)) : 0;
            makeCli(c);
            cfg += fmt(" cli%u(q%llu%s,n%u,leave%u)", c.id, (unsigned long long)c.o.responseQueueCapacity, c.o.responseQueueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER ? ",block" : "", c.todo, c.leave);
        }
        w.discover();
        for (auto& c : clis) CK(c->u->getConnectionState() == ConnectionState::CONNECTED, "connection", "client %u did not connect", c->id);
        std::vector<std::function<void()>> bodies;
        for (auto& c : clis) bodies.push_back([this, q = c.get()] { cliBody(*q); });
        bodies.push_back([this] { srvBody(*srv); });
        bodies.push_back([this] { daemonBody(); });
        vs::Options o;
        o.seed = seed;
        o.stepLimit = 120000;
        o.graceSteps = 200000;
        auto res = vs::run(bodies, o);
        distinct(mix(res.hash, std::hash<std::string>()(cfg)));
        count("switches", res.switches);
        count("schedule_points", res.steps);
        if (res.fairMode) count("fair_mode");
        count(("runs_" + mode).c_str());
        sample(fmt("[%s] %s; %llu schedule points, %llu switches", mode.c_str(), cfg.c_str(), (unsigned long long)res.steps, (unsigned long long)res.switches));
        if (srv->u.live && !srv->left)
            while (serveOne(*srv)) {
                for (auto& c : clis) if (c->u.live) while (takeRsp(*c)) {}
            }
        for (auto& c : clis)
            if (c->u.live) while (takeRsp(*c)) {}
        if (mode != "chaos") judge();
        for (auto& c : clis)
            if (c->u.live) c->u.destroy();
        if (srv->u.live) srv->u.destroy();
        for (auto a : deadApps) w.pm->deletePortsOfProcess(appName(a));
        w.discover();
        CK(pools->info(0).m_usedChunks == 0, "leak", "%u chunks are in use after all endpoints are gone", pools->info(0).m_usedChunks);
        w.checkNoPorts("end of case");
        count("leak_checks");
    }
};
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "schedules of client, server and daemon threads chosen by a seeded scheduler (random walk and PCT) at every atomic, lock, semaphore and sleep");
    World::get();
    return runCases([&](uint64_t seed, uint64_t) {
        Case c(seed, ctx().mode);
        ctx().trace = &c.cfg;
        vs::setStuckHandler([&](const std::string& what) { vh::fail("blocked-forever", "[" + c.mode + "] " + what + " " + c.cfg); });
        c.run(seed);
        ctx().trace = nullptr;
    });
}
