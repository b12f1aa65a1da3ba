// C17: ports, queues, pools and condition variables in shared memory that every actor (daemon, providers, consumers) sees at a
// different address. Only the mapping of the acting side is accessible, so that a raw address stored in shared memory crashes or
// resolves to a wrong object.
#include "common.hpp"
#include "iceoryx_posh/capro/service_description.hpp"
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/condition_listener.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/condition_notifier.hpp"
#include "iceoryx_posh/internal/popo/ports/client_port_roudi.hpp"
#include "iceoryx_posh/internal/popo/ports/client_port_user.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_roudi.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_user.hpp"
#include "iceoryx_posh/internal/popo/ports/server_port_roudi.hpp"
#include "iceoryx_posh/internal/popo/ports/server_port_user.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_multi_producer.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iox/bump_allocator.hpp"
#include "iox/logging.hpp"
#include "iox/relative_pointer.hpp"
#include <deque>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
using namespace vh;
using namespace iox;

namespace
{
Rng* R;
std::string g_trace;
void tr(const std::string& s) { g_trace += s; }
#define CK(cond, key, ...) VH_CHECK(cond, key, "%s; history: ..%s", vh::fmt(__VA_ARGS__).c_str(), g_trace.substr(g_trace.size() > 1500 ? g_trace.size() - 1500 : 0).c_str())

constexpr uint64_t MGMT_SIZE = 4u << 20, DATA_SIZE = 256u << 10;
constexpr int NVIEW = 4;
uint8_t* g_mgmt[NVIEW];
uint8_t* g_data[NVIEW];
int g_view{-1};
constexpr uint64_t ID_MGMT = 1, ID_DATA = 2;

void mapAll()
{
    int fm = memfd_create("iox_verif_m", 0), fd = memfd_create("iox_verif_d", 0);
    if (fm < 0 || fd < 0 || ftruncate(fm, MGMT_SIZE) != 0 || ftruncate(fd, DATA_SIZE) != 0) { perror("memfd"); exit(3); }
    for (int v = 0; v < NVIEW; ++v)
    {
        // different distances and orders of the two segments in every view
        uint64_t gap = 4096 * uint64_t(3 + v * 7);
        auto* base = static_cast<uint8_t*>(mmap(nullptr, MGMT_SIZE + DATA_SIZE + gap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        uint8_t* m = v % 2 ? base + DATA_SIZE + gap : base;
        uint8_t* d = v % 2 ? base : base + MGMT_SIZE + gap;
        if (mmap(m, MGMT_SIZE, PROT_NONE, MAP_SHARED | MAP_FIXED, fm, 0) == MAP_FAILED || mmap(d, DATA_SIZE, PROT_NONE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
        g_mgmt[v] = m;
        g_data[v] = d;
    }
}
void enter(int v)
{
    if (v == g_view) return;
    if (g_view >= 0)
    {
        mprotect(g_mgmt[g_view], MGMT_SIZE, PROT_NONE);
        mprotect(g_data[g_view], DATA_SIZE, PROT_NONE);
    }
    mprotect(g_mgmt[v], MGMT_SIZE, PROT_READ | PROT_WRITE);
    mprotect(g_data[v], DATA_SIZE, PROT_READ | PROT_WRITE);
    g_view = v;
    UntypedRelativePointer::unregisterAll();
    CK(UntypedRelativePointer::registerPtrWithId(segment_id_t{ID_MGMT}, g_mgmt[v], MGMT_SIZE) && UntypedRelativePointer::registerPtrWithId(segment_id_t{ID_DATA}, g_data[v], DATA_SIZE), "register", "could not register the segments");
    count("view_changes");
}
void enterAny() { enter(int(R->below(NVIEW))); }

constexpr int NP = 2, NS = 2, NC = 2;
struct Shared
{
    mepoo::MemoryManager mm;
    std::aligned_storage_t<sizeof(popo::PublisherPortData), alignof(popo::PublisherPortData)> pub[NP];
    std::aligned_storage_t<sizeof(popo::SubscriberPortData), alignof(popo::SubscriberPortData)> sub[NS];
    std::aligned_storage_t<sizeof(popo::ClientPortData), alignof(popo::ClientPortData)> cli[NC];
    std::aligned_storage_t<sizeof(popo::ServerPortData), alignof(popo::ServerPortData)> srv;
    std::aligned_storage_t<sizeof(popo::ConditionVariableData), alignof(popo::ConditionVariableData)> cond;
};
Shared& sh() { return *reinterpret_cast<Shared*>(g_mgmt[g_view]); }
popo::PublisherPortData* pub(int i) { return reinterpret_cast<popo::PublisherPortData*>(&sh().pub[i]); }
popo::SubscriberPortData* sub(int i) { return reinterpret_cast<popo::SubscriberPortData*>(&sh().sub[i]); }
popo::ClientPortData& cli(int i) { return *reinterpret_cast<popo::ClientPortData*>(&sh().cli[i]); }
popo::ServerPortData& srv() { return *reinterpret_cast<popo::ServerPortData*>(&sh().srv); }
popo::ConditionVariableData& cond() { return *reinterpret_cast<popo::ConditionVariableData*>(&sh().cond); }

struct Msg { uint64_t seq; uint32_t src; uint32_t words; uint64_t body[1]; };
void fill(void* p, uint64_t seq, uint32_t src, uint32_t words)
{
    auto* m = static_cast<Msg*>(p);
    m->seq = seq;
    m->src = src;
    m->words = words;
    for (uint32_t i = 0; i < words; ++i) m->body[i] = mix(seq, src * 131 + i);
}
uint64_t bytes(uint32_t words) { return sizeof(Msg) + words * 8; }
uint64_t dataOff(const void* p)
{
    auto* q = static_cast<const uint8_t*>(p);
    CK(q >= g_data[g_view] && q < g_data[g_view] + DATA_SIZE, "address", "an address %p outside the mapping of the acting side was handed out", p);
    return uint64_t(q - g_data[g_view]);
}
uint64_t check(const void* p, uint32_t src, const char* what)
{
    dataOff(p);
    auto* m = static_cast<const Msg*>(p);
    CK(m->src == src && m->words < 64, "content", "%s: message of %u instead of %u", what, m->src, src);
    for (uint32_t i = 0; i < m->words; ++i) CK(m->body[i] == mix(m->seq, src * 131 + i), "content", "%s: content of message %llu differs", what, (unsigned long long)m->seq);
    count("content_checks");
    return m->seq;
}

capro::ServiceDescription PS("a", "b", "c"), RPC("a", "b", "d");

struct World
{
    struct P { bool offered{false}; uint64_t hist{0}; uint64_t next{0}; std::deque<std::pair<uint64_t, uint64_t>> kept; std::vector<std::pair<uint64_t, uint64_t>> loans; } p[NP];
    struct S { bool wants{false}; uint64_t cap{0}, req{0}; std::deque<std::pair<int, uint64_t>> q; std::vector<std::tuple<uint64_t, int, uint64_t>> held; bool conn[NP]{}; bool cv{false}; } s[NS];
    struct C { bool wants{false}; uint64_t next{0}; uint64_t open{0}; std::deque<uint64_t> answers; bool cv{false}; } c[NC];
    bool serverOffered{false}, serverCv{false};
    std::deque<std::pair<int, uint64_t>> reqs;
    std::vector<std::tuple<uint64_t, int, uint64_t>> served; // payload offset, client, seq
    std::set<uint64_t> notified;
    uint64_t pools{0};

    World()
    {
        enter(0);
        memset(g_mgmt[0], 0, sizeof(Shared));
        mepoo::MePooConfig cfg;
        cfg.addMemPool({128, 60});
        cfg.addMemPool({640, 60});
        auto* shm = new (g_mgmt[0]) Shared();
        BumpAllocator ma(g_mgmt[0] + (sizeof(Shared) + 63) / 64 * 64, MGMT_SIZE - sizeof(Shared) - 64), da(g_data[0], DATA_SIZE);
        shm->mm.configureMemoryManager(cfg, ma, da);
        new (&shm->cond) popo::ConditionVariableData("cv");
        for (int i = 0; i < NP; ++i) makePub(i);
        for (int i = 0; i < NS; ++i) makeSub(i);
        for (int i = 0; i < NC; ++i) makeClient(i);
        popo::ServerOptions so;
        so.requestQueueCapacity = 64;
        so.offerOnCreate = false;
        enterAny();
        new (&srv()) popo::ServerPortData(RPC, "s", roudi::DEFAULT_UNIQUE_ROUDI_ID, so, &sh().mm);
    }
    void makePub(int i)
    {
        enterAny();
        popo::PublisherOptions o;
        o.historyCapacity = p[i].hist = R->below(5);
        o.offerOnCreate = false;
        new (pub(i)) popo::PublisherPortData(PS, "p", roudi::DEFAULT_UNIQUE_ROUDI_ID, &sh().mm, o);
        p[i].offered = false;
        p[i].kept.clear();
        p[i].loans.clear();
        tr(fmt("P%d(h%llu) ", i, (unsigned long long)o.historyCapacity));
    }
    void makeSub(int i)
    {
        enterAny();
        popo::SubscriberOptions o;
        o.queueCapacity = s[i].cap = R->range(1, 8);
        o.historyRequest = s[i].req = R->below(5);
        o.subscribeOnCreate = false;
        new (sub(i)) popo::SubscriberPortData(PS, "s", roudi::DEFAULT_UNIQUE_ROUDI_ID, popo::VariantQueueTypes::SoFi_MultiProducerSingleConsumer, o);
        s[i] = S{};
        s[i].cap = o.queueCapacity;
        s[i].req = o.historyRequest;
        tr(fmt("S%d(c%llu,r%llu) ", i, (unsigned long long)o.queueCapacity, (unsigned long long)o.historyRequest));
    }
    void makeClient(int i)
    {
        enterAny();
        popo::ClientOptions o;
        o.connectOnCreate = false;
        new (&cli(i)) popo::ClientPortData(RPC, "c", roudi::DEFAULT_UNIQUE_ROUDI_ID, o, &sh().mm);
        uint64_t n = c[i].next;
        c[i] = C{};
        c[i].next = n;
    }
    // ---- daemon
    void push(int si, int pi, uint64_t seq)
    {
        auto& S1 = s[si];
        tr(fmt("%d.%llu>%d ", pi, (unsigned long long)seq, si));
        if (S1.q.size() == S1.cap) S1.q.pop_front();
        S1.q.push_back({pi, seq});
        if (S1.cv) notified.insert(uint64_t(si));
    }
    void connected(int pi, int si)
    {
        if (s[si].conn[pi]) return;
        s[si].conn[pi] = true;
        uint64_t n = std::min<uint64_t>(s[si].req, p[pi].kept.size());
        for (uint64_t k = p[pi].kept.size() - n; k < p[pi].kept.size(); ++k) push(si, pi, p[pi].kept[k].first);
    }
    void discover()
    {
        enterAny();
        for (int i = 0; i < NP; ++i)
        {
            popo::PublisherPortRouDi pr(pub(i));
            auto m = pr.tryGetCaProMessage();
            if (!m) continue;
            bool stop = m->m_type == capro::CaproMessageType::STOP_OFFER;
            for (int k = 0; k < NS; ++k)
            {
                popo::SubscriberPortMultiProducer sr(sub(k));
                auto a = sr.dispatchCaProMessageAndGetPossibleResponse(*m);
                if (a)
                {
                    auto b = pr.dispatchCaProMessageAndGetPossibleResponse(*a);
                    if (b)
                    {
                        if (b->m_type == capro::CaproMessageType::ACK && a->m_type == capro::CaproMessageType::SUB) connected(i, k);
                        auto d = sr.dispatchCaProMessageAndGetPossibleResponse(*b);
                    }
                }
            }
            if (stop) for (int k = 0; k < NS; ++k) s[k].conn[i] = false;
        }
        for (int k = 0; k < NS; ++k)
        {
            popo::SubscriberPortMultiProducer sr(sub(k));
            auto m = sr.tryGetCaProMessage();
            if (!m) continue;
            for (int i = 0; i < NP; ++i)
            {
                popo::PublisherPortRouDi pr(pub(i));
                auto a = pr.dispatchCaProMessageAndGetPossibleResponse(*m);
                if (a)
                {
                    if (m->m_type == capro::CaproMessageType::SUB && a->m_type == capro::CaproMessageType::ACK) connected(i, k);
                    sr.dispatchCaProMessageAndGetPossibleResponse(*a);
                }
                if (m->m_type == capro::CaproMessageType::UNSUB) s[k].conn[i] = false;
            }
        }
        popo::ServerPortRouDi sr(srv());
        if (auto m = sr.tryGetCaProMessage())
        {
            for (int i = 0; i < NC; ++i)
            {
                popo::ClientPortRouDi cr(cli(i));
                if (m->m_type == capro::CaproMessageType::STOP_OFFER && popo::ClientPortUser(cli(i)).getConnectionState() != ConnectionState::CONNECTED) continue;
                auto a = cr.dispatchCaProMessageAndGetPossibleResponse(*m);
                if (a) if (auto b = sr.dispatchCaProMessageAndGetPossibleResponse(*a)) cr.dispatchCaProMessageAndGetPossibleResponse(*b);
            }
        }
        for (int i = 0; i < NC; ++i)
        {
            popo::ClientPortRouDi cr(cli(i));
            if (auto m = cr.tryGetCaProMessage())
            {
                auto a = sr.dispatchCaProMessageAndGetPossibleResponse(*m);
                if (a) cr.dispatchCaProMessageAndGetPossibleResponse(*a);
                else if (m->m_type == capro::CaproMessageType::CONNECT) { capro::CaproMessage nack(capro::CaproMessageType::NACK, RPC); cr.dispatchCaProMessageAndGetPossibleResponse(nack); }
            }
        }
        count("discoveries");
    }
    bool live(int i) { return c[i].wants && serverOffered; }

    void step()
    {
        uint64_t op = R->below(26);
        enterAny();
        tr(fmt("%llu@%d ", (unsigned long long)op, g_view));
        int pi = int(R->below(NP)), si = int(R->below(NS)), ci = int(R->below(NC));
        auto& P1 = p[pi];
        auto& S1 = s[si];
        auto& C1 = c[ci];
        switch (op)
        {
        case 0:
            if (P1.offered && R->chance(150)) { popo::PublisherPortUser(pub(pi)).stopOffer(); P1.offered = false; }
            else { popo::PublisherPortUser(pub(pi)).offer(); P1.offered = true; }
            discover();
            break;
        case 1:
            if (S1.wants && R->chance(150)) { popo::SubscriberPortUser(sub(si)).unsubscribe(); S1.wants = false; }
            else { popo::SubscriberPortUser(sub(si)).subscribe(); if (!S1.wants) S1.q.clear(); S1.wants = true; }
            discover();
            break;
        case 2: case 3: case 4: // loan
        {
            if (P1.loans.size() >= 3) break;
            auto words = uint32_t(R->chance(500) ? R->below(4) : R->below(40));
            popo::PublisherPortUser u(pub(pi));
            auto r = u.tryAllocateChunk(bytes(words), 8);
            CK(r.has_value(), "loan", "a loan was refused although the pools are not exhausted");
            uint64_t seq = P1.next++;
            fill(r.value()->userPayload(), seq, uint32_t(pi), words);
            P1.loans.push_back({dataOff(r.value()), seq});
            break;
        }
        case 5: case 6: case 7: case 8: // send (possibly seen at another address than the loan)
        {
            if (P1.loans.empty()) break;
            size_t k = R->below(P1.loans.size());
            auto [off, seq] = P1.loans[k];
            auto* h = reinterpret_cast<mepoo::ChunkHeader*>(g_data[g_view] + off);
            check(h->userPayload(), uint32_t(pi), "before sending");
            popo::PublisherPortUser u(pub(pi));
            P1.loans.erase(P1.loans.begin() + long(k));
            if (R->chance(150)) { u.releaseChunk(h); break; }
            tr(fmt("send%d ", pi));
            u.sendChunk(h);
            count("publishes");
            if (P1.hist > 0) { P1.kept.push_back({seq, off}); if (P1.kept.size() > P1.hist) P1.kept.pop_front(); }
            if (P1.offered) for (int k2 = 0; k2 < NS; ++k2) if (s[k2].conn[pi]) push(k2, pi, seq);
            break;
        }
        case 9: case 10: case 11: case 12: // take
        {
            popo::SubscriberPortUser u(sub(si));
            CK(u.hasNewChunks() == !S1.q.empty(), "queue", "hasNewChunks is %d with %zu samples queued", u.hasNewChunks(), S1.q.size());
            if (S1.held.size() >= 4) break;
            auto r = u.tryGetChunk();
            CK(r.has_value() == !S1.q.empty(), "queue", "take %s with %zu samples queued", r.has_value() ? "succeeded" : "failed", S1.q.size());
            if (!r.has_value()) break;
            auto [src, seq] = S1.q.front();
            tr(fmt("<%d:%d.%llu ", si, src, (unsigned long long)seq));
            S1.q.pop_front();
            uint64_t got = check((*r)->userPayload(), uint32_t(src), "taken sample");
            CK(got == seq, "queue", "took sample %llu of publisher %d instead of %llu", (unsigned long long)got, src, (unsigned long long)seq);
            S1.held.push_back({dataOff(*r), src, seq});
            count("takes");
            break;
        }
        case 13: case 14:
        {
            if (S1.held.empty()) break;
            size_t k = R->below(S1.held.size());
            auto [off, src, seq] = S1.held[k];
            auto* h = reinterpret_cast<mepoo::ChunkHeader*>(g_data[g_view] + off);
            CK(check(h->userPayload(), uint32_t(src), "held sample") == seq, "content", "held sample changed");
            popo::SubscriberPortUser(sub(si)).releaseChunk(h);
            S1.held.erase(S1.held.begin() + long(k));
            break;
        }
        case 15: if (serverOffered && R->chance(120)) stopServer(); else { popo::ServerPortUser(srv()).offer(); serverOffered = true; discover(); } break;
        case 16:
            if (C1.wants && R->chance(120)) { popo::ClientPortUser(cli(ci)).disconnect(); C1.wants = false; discover(); dropAnswers(ci); }
            else { popo::ClientPortUser(cli(ci)).connect(); C1.wants = true; discover(); }
            break;
        case 17: case 18: // request
        {
            if (C1.open >= 6) break;
            popo::ClientPortUser u(cli(ci));
            auto words = uint32_t(R->below(20));
            auto r = u.allocateRequest(bytes(words), 8);
            CK(r.has_value(), "loan", "a request loan was refused");
            uint64_t seq = C1.next++;
            (*r)->setSequenceId(int64_t(seq));
            fill((*r)->getUserPayload(), seq, uint32_t(100 + ci), words);
            uint64_t off = dataOff(*r);
            enterAny();
            auto* h = reinterpret_cast<popo::RequestHeader*>(g_data[g_view] + off);
            check(h->getUserPayload(), uint32_t(100 + ci), "request before sending");
            popo::ClientPortUser u2(cli(ci));
            auto sent = u2.sendRequest(h);
            CK(sent.has_value() == live(ci), "rpc", "sending a request %s although connected is %d", sent.has_value() ? "succeeded" : "failed", live(ci));
            if (live(ci)) { reqs.push_back({ci, seq}); ++C1.open; if (serverCv) notified.insert(20); }
            count("requests");
            break;
        }
        case 19: case 20: // serve
        {
            if (!serverOffered) break;
            popo::ServerPortUser u(srv());
            CK(u.hasNewRequests() == !reqs.empty(), "rpc", "hasNewRequests is wrong");
            if (served.size() >= 3) break;
            auto r = u.getRequest();
            CK(r.has_value() == !reqs.empty(), "rpc", "taking a request %s with %zu queued", r.has_value() ? "succeeded" : "failed", reqs.size());
            if (!r.has_value()) break;
            auto [cl, seq] = reqs.front();
            reqs.pop_front();
            CK(check((*r)->getUserPayload(), uint32_t(100 + cl), "request") == seq && (*r)->getSequenceId() == int64_t(seq), "rpc", "wrong request");
            served.push_back({dataOff(*r), cl, seq});
            break;
        }
        case 21: case 22: // respond
        {
            if (served.empty() || !serverOffered) break;
            size_t k = R->below(served.size());
            auto [off, cl, seq] = served[k];
            auto* rq = reinterpret_cast<popo::RequestHeader*>(g_data[g_view] + off);
            check(rq->getUserPayload(), uint32_t(100 + cl), "held request");
            popo::ServerPortUser u(srv());
            auto words = uint32_t(R->below(20));
            auto r = u.allocateResponse(rq, bytes(words), 8);
            CK(r.has_value(), "loan", "a response loan was refused");
            fill((*r)->getUserPayload(), seq, uint32_t(200 + cl), words);
            uint64_t ro = dataOff(*r);
            enterAny();
            auto* rs = reinterpret_cast<popo::ResponseHeader*>(g_data[g_view] + ro);
            popo::ServerPortUser u2(srv());
            bool isLive = c[cl].wants && c[cl].open > 0;
            auto sent = u2.sendResponse(rs);
            if (isLive)
            {
                CK(sent.has_value(), "rpc", "sending a response to a connected client failed");
                c[cl].answers.push_back(seq);
                if (c[cl].cv) notified.insert(uint64_t(10 + cl));
            }
            else if (sent.has_value()) { c[cl].answers.push_back(seq); if (c[cl].cv) notified.insert(uint64_t(10 + cl)); } // reconnected client
            u2.releaseRequest(reinterpret_cast<popo::RequestHeader*>(g_data[g_view] + off));
            served.erase(served.begin() + long(k));
            count("responses");
            break;
        }
        case 23: // take response
        {
            if (!C1.wants) break;
            popo::ClientPortUser u(cli(ci));
            CK(u.hasNewResponses() == !C1.answers.empty(), "rpc", "hasNewResponses is wrong");
            auto r = u.getResponse();
            CK(r.has_value() == !C1.answers.empty(), "rpc", "taking a response %s with %zu queued", r.has_value() ? "succeeded" : "failed", C1.answers.size());
            if (!r.has_value()) break;
            uint64_t seq = C1.answers.front();
            C1.answers.pop_front();
            CK(check((*r)->getUserPayload(), uint32_t(200 + ci), "response") == seq && (*r)->getSequenceId() == int64_t(seq), "rpc", "wrong response");
            uint64_t off = dataOff(*r);
            enterAny();
            popo::ClientPortUser(cli(ci)).releaseResponse(reinterpret_cast<popo::ResponseHeader*>(g_data[g_view] + off));
            if (C1.open > 0) --C1.open;
            break;
        }
        case 24: // attach/detach condition variable
        {
            uint64_t k = R->below(4);
            if (k < 2)
            {
                popo::SubscriberPortUser u(sub(si));
                if (!S1.cv) { u.setConditionVariable(cond(), uint64_t(si)); S1.cv = true; }
                else { u.unsetConditionVariable(); S1.cv = false; }
                CK(u.isConditionVariableSet() == S1.cv, "condition", "isConditionVariableSet is wrong");
            }
            else if (k == 2)
            {
                popo::ClientPortUser u(cli(ci));
                if (!C1.cv) { u.setConditionVariable(cond(), uint64_t(10 + ci)); C1.cv = true; }
                else { u.unsetConditionVariable(); C1.cv = false; }
            }
            else
            {
                popo::ServerPortUser u(srv());
                if (!serverCv) { u.setConditionVariable(cond(), 20); serverCv = true; }
                else { u.unsetConditionVariable(); serverCv = false; }
            }
            break;
        }
        default:
        {
            popo::ConditionListener l(cond());
            CK(l.wasNotified() == !notified.empty(), "condition", "wasNotified is %d with %zu notifications", l.wasNotified(), notified.size());
            auto v = l.timedWait(units::Duration::fromNanoseconds(1));
            std::set<uint64_t> got(v.begin(), v.end());
            CK(got == notified, "condition", "%zu notifications instead of %zu", got.size(), notified.size());
            if (!got.empty()) count("notifications");
            notified.clear();
            break;
        }
        }
        if (R->chance(12)) dieSub(si);
        if (R->chance(8)) diePub(pi);
        auto inf = sh().mm.getMemPoolInfo(uint32_t(R->below(2)));
        CK(inf.m_usedChunks <= 60, "pool", "%llu chunks used", (unsigned long long)inf.m_usedChunks);
    }
    void dropAnswers(int i)
    {
        // what was queued is released by the user; responses to old requests are refused later
        enterAny();
        popo::ClientPortUser(cli(i)).releaseQueuedResponses();
        c[i].answers.clear();
        c[i].open = 0;
    }
    void stopServer()
    {
        popo::ServerPortUser(srv()).stopOffer();
        discover();
        enterAny();
        popo::ServerPortUser u(srv());
        for (auto& e : served) u.releaseRequest(reinterpret_cast<popo::RequestHeader*>(g_data[g_view] + std::get<0>(e)));
        served.clear();
        u.releaseQueuedRequests();
        reqs.clear();
        serverOffered = false;
        for (auto& x : c) x.open = x.answers.size();
    }
    void dieSub(int i) // the process is gone, the daemon cleans up in its own mapping
    {
        tr(fmt("dieS%d ", i));
        enterAny();
        popo::SubscriberPortUser(sub(i)).unsubscribe();
        discover();
        enterAny();
        popo::SubscriberPortMultiProducer(sub(i)).releaseAllChunks();
        enterAny();
        sub(i)->~SubscriberPortData();
        makeSub(i);
        count("crashes");
    }
    void diePub(int i)
    {
        tr(fmt("dieP%d ", i));
        enterAny();
        popo::PublisherPortUser(pub(i)).stopOffer();
        discover();
        for (auto& x : s) x.conn[i] = false;
        enterAny();
        popo::PublisherPortRouDi(pub(i)).releaseAllChunks();
        enterAny();
        pub(i)->~PublisherPortData();
        makePub(i);
        count("crashes");
    }
    void finish()
    {
        tr("end ");
        for (int i = 0; i < NP; ++i) diePub(i);
        for (int i = 0; i < NS; ++i) dieSub(i);
        enterAny();
        popo::ServerPortUser(srv()).stopOffer();
        for (int i = 0; i < NC; ++i) popo::ClientPortUser(cli(i)).disconnect();
        discover();
        for (int i = 0; i < NC; ++i) { enterAny(); popo::ClientPortRouDi(cli(i)).releaseAllChunks(); }
        enterAny();
        popo::ServerPortRouDi(srv()).releaseAllChunks();
        for (int v = 0; v < NVIEW; ++v)
        {
            enter(v);
            for (uint32_t k = 0; k < sh().mm.getNumberOfMemPools(); ++k)
            {
                auto inf = sh().mm.getMemPoolInfo(k);
                CK(inf.m_usedChunks == 0 && inf.m_numChunks == 60, "leak", "%u of %u chunks in use after everything is gone", inf.m_usedChunks, inf.m_numChunks);
            }
        }
        count("leak_checks");
        enterAny();
        for (int i = 0; i < NP; ++i) pub(i)->~PublisherPortData();
        for (int i = 0; i < NS; ++i) sub(i)->~SubscriberPortData();
        for (int i = 0; i < NC; ++i) cli(i).~ClientPortData();
        srv().~ServerPortData();
        cond().~ConditionVariableData();
        sh().~Shared();
    }
};
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "random histories of publish/subscribe and request/response ports in shared memory where every operation is executed in a randomly chosen one of four mappings while the others are inaccessible; distinct = different histories");
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    mapAll();
    ctx().trace = &g_trace;
    return runCases([&](uint64_t seed, uint64_t) {
        Rng r(seed);
        R = &r;
        g_trace.clear();
        World w;
        size_t n = r.range(20, 400);
        for (size_t i = 0; i < n; ++i) { w.step(); count("operations"); }
        w.finish();
        uint64_t h = 1;
        for (char ch : g_trace) h = h * 31 + uint8_t(ch);
        distinct(h);
        if (r.chance(20)) sample(g_trace);
    });
}
