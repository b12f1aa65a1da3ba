// Differential monitor: one random history of endpoints, wait sets, listeners, triggers and searches at a real daemon is
// executed twice, first with the C++ API alone, then with C API endpoints (mixed with C++ ones); every result, state, payload,
// option and notification must be the same. The daemon's periodic work runs only when the history says so. Serves C25.
#include "env.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
#include "sched.hpp"
#include <algorithm>
#include <cstring>
using namespace iox;
using namespace iox::popo;
using namespace iox::runtime;
extern "C" {
#include "iceoryx_binding_c/api.h"
}

using namespace vh;
using namespace ve;

namespace
{
// ---------------------------------------------------------------- names of results
const char* nm(AllocationError e)
{
    switch (e)
    {
    case AllocationError::NO_MEMPOOLS_AVAILABLE: return "NO_MEMPOOLS";
    case AllocationError::RUNNING_OUT_OF_CHUNKS: return "OUT_OF_CHUNKS";
    case AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL: return "TOO_MANY_LOANS";
    case AllocationError::INVALID_PARAMETER_FOR_USER_PAYLOAD_OR_USER_HEADER: return "INVALID_PARAMETER";
    case AllocationError::INVALID_PARAMETER_FOR_REQUEST_HEADER: return "INVALID_REQUEST_HEADER";
    default: return "UNDEFINED";
    }
}
const char* nm(iox_AllocationResult e)
{
    switch (e)
    {
    case AllocationResult_NO_MEMPOOLS_AVAILABLE: return "NO_MEMPOOLS";
    case AllocationResult_RUNNING_OUT_OF_CHUNKS: return "OUT_OF_CHUNKS";
    case AllocationResult_TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL: return "TOO_MANY_LOANS";
    case AllocationResult_INVALID_PARAMETER_FOR_USER_PAYLOAD_OR_USER_HEADER: return "INVALID_PARAMETER";
    case AllocationResult_INVALID_PARAMETER_FOR_REQUEST_HEADER: return "INVALID_REQUEST_HEADER";
    case AllocationResult_SUCCESS: return "ok";
    case AllocationResult_UNDEFINED_ERROR: return "UNDEFINED";
    default: return "?";
    }
}
const char* nm(popo::ChunkReceiveResult e)
{
    switch (e)
    {
    case popo::ChunkReceiveResult::NO_CHUNK_AVAILABLE: return "NOTHING";
    case popo::ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL: return "TOO_MANY_HELD";
    }
    return "?";
}
const char* nm(iox_ChunkReceiveResult e)
{
    switch (e)
    {
    case ChunkReceiveResult_NO_CHUNK_AVAILABLE: return "NOTHING";
    case ChunkReceiveResult_TOO_MANY_CHUNKS_HELD_IN_PARALLEL: return "TOO_MANY_HELD";
    case ChunkReceiveResult_SUCCESS: return "ok";
    default: return "?";
    }
}
const char* nm(popo::ServerRequestResult e)
{
    switch (e)
    {
    case popo::ServerRequestResult::NO_PENDING_REQUESTS: return "NOTHING";
    case popo::ServerRequestResult::TOO_MANY_REQUESTS_HELD_IN_PARALLEL: return "TOO_MANY_HELD";
    case popo::ServerRequestResult::NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER: return "NOTHING_NOT_OFFERED";
    default: return "UNDEFINED";
    }
}
const char* nm(iox_ServerRequestResult e)
{
    switch (e)
    {
    case ServerRequestResult_NO_PENDING_REQUESTS: return "NOTHING";
    case ServerRequestResult_TOO_MANY_REQUESTS_HELD_IN_PARALLEL: return "TOO_MANY_HELD";
    case ServerRequestResult_NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER: return "NOTHING_NOT_OFFERED";
    case ServerRequestResult_SUCCESS: return "ok";
    default: return "UNDEFINED";
    }
}
const char* nm(ClientSendError e)
{
    switch (e)
    {
    case ClientSendError::NO_CONNECT_REQUESTED: return "NO_CONNECT";
    case ClientSendError::SERVER_NOT_AVAILABLE: return "NO_SERVER";
    case ClientSendError::INVALID_REQUEST: return "INVALID";
    }
    return "?";
}
const char* nm(iox_ClientSendResult e)
{
    switch (e)
    {
    case ClientSendResult_NO_CONNECT_REQUESTED: return "NO_CONNECT";
    case ClientSendResult_SERVER_NOT_AVAILABLE: return "NO_SERVER";
    case ClientSendResult_INVALID_REQUEST: return "INVALID";
    case ClientSendResult_SUCCESS: return "ok";
    default: return "?";
    }
}
const char* nm(ServerSendError e)
{
    switch (e)
    {
    case ServerSendError::NOT_OFFERED: return "NOT_OFFERED";
    case ServerSendError::CLIENT_NOT_AVAILABLE: return "NO_CLIENT";
    case ServerSendError::INVALID_RESPONSE: return "INVALID";
    }
    return "?";
}
const char* nm(iox_ServerSendResult e)
{
    switch (e)
    {
    case ServerSendResult_NOT_OFFERED: return "NOT_OFFERED";
    case ServerSendResult_CLIENT_NOT_AVAILABLE: return "NO_CLIENT";
    case ServerSendResult_INVALID_RESPONSE: return "INVALID";
    case ServerSendResult_SUCCESS: return "ok";
    default: return "?";
    }
}
const char* nm(SubscribeState s)
{
    switch (s)
    {
    case SubscribeState::NOT_SUBSCRIBED: return "no";
    case SubscribeState::SUBSCRIBE_REQUESTED: return "requested";
    case SubscribeState::SUBSCRIBED: return "yes";
    case SubscribeState::UNSUBSCRIBE_REQUESTED: return "leaving";
    case SubscribeState::WAIT_FOR_OFFER: return "waiting";
    }
    return "?";
}
const char* nm(iox_SubscribeState s)
{
    switch (s)
    {
    case SubscribeState_NOT_SUBSCRIBED: return "no";
    case SubscribeState_SUBSCRIBE_REQUESTED: return "requested";
    case SubscribeState_SUBSCRIBED: return "yes";
    case SubscribeState_UNSUBSCRIBE_REQUESTED: return "leaving";
    case SubscribeState_WAIT_FOR_OFFER: return "waiting";
    default: return "?";
    }
}
const char* nm(ConnectionState s)
{
    switch (s)
    {
    case ConnectionState::NOT_CONNECTED: return "no";
    case ConnectionState::CONNECT_REQUESTED: return "requested";
    case ConnectionState::CONNECTED: return "yes";
    case ConnectionState::DISCONNECT_REQUESTED: return "leaving";
    case ConnectionState::WAIT_FOR_OFFER: return "waiting";
    }
    return "?";
}
const char* nm(iox_ConnectionState s)
{
    switch (s)
    {
    case ConnectionState_NOT_CONNECTED: return "no";
    case ConnectionState_CONNECT_REQUESTED: return "requested";
    case ConnectionState_CONNECTED: return "yes";
    case ConnectionState_DISCONNECT_REQUESTED: return "leaving";
    case ConnectionState_WAIT_FOR_OFFER: return "waiting";
    }
    return "?";
}
const char* nm(WaitSetError e) { return e == WaitSetError::WAIT_SET_FULL ? "FULL" : e == WaitSetError::ALREADY_ATTACHED ? "ALREADY" : "?"; }
const char* nm(iox_WaitSetResult e) { return e == WaitSetResult_SUCCESS ? "ok" : e == WaitSetResult_WAIT_SET_FULL ? "FULL" : e == WaitSetResult_ALREADY_ATTACHED ? "ALREADY" : "?"; }
const char* nm(ListenerError e) { return e == ListenerError::LISTENER_FULL ? "FULL" : e == ListenerError::EVENT_ALREADY_ATTACHED ? "ALREADY" : e == ListenerError::EMPTY_EVENT_CALLBACK ? "EMPTY" : "?"; }
const char* nm(iox_ListenerResult e) { return e == ListenerResult_SUCCESS ? "ok" : e == ListenerResult_LISTENER_FULL ? "FULL" : e == ListenerResult_EVENT_ALREADY_ATTACHED ? "ALREADY" : e == ListenerResult_EMPTY_EVENT_CALLBACK ? "EMPTY" : "?"; }
template <typename E>
const char* rs(const E& e) { return e.has_error() ? nm(e.error()) : "ok"; }

std::string sdStr(const capro::ServiceDescription& s)
{
    return std::string(s.getServiceIDString().c_str()) + "/" + s.getInstanceIDString().c_str() + "/" + s.getEventIDString().c_str();
}
std::string fld(const char* f) // must be terminated within the field
{
    size_t n = strnlen(f, IOX_CONFIG_SERVICE_STRING_SIZE);
    return n == IOX_CONFIG_SERVICE_STRING_SIZE ? "<not terminated>" : std::string(f, n);
}
std::string sdStr(const iox_service_description_t& s) { return fld(s.serviceString) + "/" + fld(s.instanceString) + "/" + fld(s.eventString); }

iox_QueueFullPolicy cq(int b) { return b ? QueueFullPolicy_BLOCK_PRODUCER : QueueFullPolicy_DISCARD_OLDEST_DATA; }
QueueFullPolicy pq(int b) { return b ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA; }
iox_ConsumerTooSlowPolicy cs(int b) { return b ? ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy_DISCARD_OLDEST_DATA; }
ConsumerTooSlowPolicy ps_(int b) { return b ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA; }

std::string contents(const void* p)
{
    auto* h = mepoo::ChunkHeader::fromUserPayload(p);
    uint64_t x = 7;
    for (uint64_t i = 0; i < h->userPayloadSize(); ++i) x = mix(x, static_cast<const uint8_t*>(p)[i]);
    return fmt("%lu bytes %lx", (unsigned long)h->userPayloadSize(), (unsigned long)x);
}
void writePayload(void* p, uint64_t seed)
{
    auto* h = mepoo::ChunkHeader::fromUserPayload(p);
    Rng r(seed);
    for (uint64_t i = 0; i < h->userPayloadSize(); ++i) static_cast<uint8_t*>(p)[i] = uint8_t(r.next());
}

struct Obj
{
    bool c{false};
    unsigned no{0}, s{0};
    int ws{0};  // 1 event, 2 state attached to the wait set
    int ls{0};  // attached to the listener
    virtual ~Obj() = default;
    virtual const void* addr() const = 0;
    virtual char kind() const = 0;
};
std::string g_cb; // callbacks executed by the main thread
std::mutex g_lm;
std::map<std::string, uint64_t> g_lcb; // callbacks executed by the listener thread
struct Ctx
{
    unsigned id;
};
// the number of an object, by address: callbacks report it
std::mutex g_om;
std::map<const void*, std::string> g_names;
std::string nameOf(const void* p)
{
    std::lock_guard<std::mutex> l(g_om);
    auto it = g_names.find(p);
    return it == g_names.end() ? "unknown" : it->second;
}
void wcb(const void* o, const char* how, void* ctx) { g_cb += nameOf(o) + how + (ctx ? fmt("%u", static_cast<Ctx*>(ctx)->id) : "") + " "; }
void lcb(const void* o, const char* how, void* ctx)
{
    auto n = nameOf(o) + how + (ctx ? fmt("%u", static_cast<Ctx*>(ctx)->id) : "");
    std::lock_guard<std::mutex> l(g_lm);
    ++g_lcb[n];
}
#define CALLBACKS(NAME, CT, PT)                                                                                        \
    void w##NAME##C(CT o) { wcb(o, "!", nullptr); }                                                                    \
    void w##NAME##Cx(CT o, void* x) { wcb(o, "!", x); }                                                                \
    void w##NAME##P(PT* o) { wcb(o, "!", nullptr); }                                                                   \
    void w##NAME##Px(PT* o, Ctx* x) { wcb(o, "!", x); }                                                                \
    void l##NAME##C(CT o) { lcb(o, "!", nullptr); }                                                                    \
    void l##NAME##Cx(CT o, void* x) { lcb(o, "!", x); }                                                                \
    void l##NAME##P(PT* o) { lcb(o, "!", nullptr); }                                                                   \
    void l##NAME##Px(PT* o, Ctx* x) { lcb(o, "!", x); }
CALLBACKS(Sub, iox_sub_t, UntypedSubscriber)
CALLBACKS(Cli, iox_client_t, UntypedClient)
CALLBACKS(Srv, iox_server_t, UntypedServer)
CALLBACKS(Trg, iox_user_trigger_t, UserTrigger)
CALLBACKS(Dis, iox_service_discovery_t, ServiceDiscovery)

struct Pub : Obj
{
    UntypedPublisher* p{nullptr};
    iox_pub_storage_t st;
    iox_pub_t h{nullptr};
    int slow{0};
    std::vector<void*> loans;
    const void* addr() const override { return c ? static_cast<const void*>(h) : p; }
    char kind() const override { return 'P'; }
};
struct Sub : Obj
{
    UntypedSubscriber* p{nullptr};
    iox_sub_storage_t st;
    iox_sub_t h{nullptr};
    int block{0};
    std::vector<const void*> held;
    const void* addr() const override { return c ? static_cast<const void*>(h) : p; }
    char kind() const override { return 'S'; }
};
struct Cli : Obj
{
    UntypedClient* p{nullptr};
    iox_client_storage_t st;
    iox_client_t h{nullptr};
    int block{0}, slow{0};
    std::vector<void*> loans;
    std::vector<const void*> held;
    const void* addr() const override { return c ? h : p; }
    char kind() const override { return 'C'; }
};
struct Srv : Obj
{
    UntypedServer* p{nullptr};
    iox_server_storage_t st;
    iox_server_t h{nullptr};
    int block{0}, slow{0};
    std::vector<void*> loans;
    std::vector<const void*> held;
    const void* addr() const override { return c ? h : p; }
    char kind() const override { return 'V'; }
};
struct Trg : Obj
{
    UserTrigger* p{nullptr};
    iox_user_trigger_storage_t st;
    iox_user_trigger_t h{nullptr};
    const void* addr() const override { return c ? h : p; }
    char kind() const override { return 'T'; }
};
struct Dis : Obj
{
    ServiceDiscovery* p{nullptr};
    iox_service_discovery_storage_t st;
    iox_service_discovery_t h{nullptr};
    const void* addr() const override { return c ? h : p; }
    char kind() const override { return 'D'; }
};
using Found = std::vector<std::string>;
Found* g_found = nullptr;
void foundC(const iox_service_description_t s) { g_found->push_back(sdStr(s)); }
void foundCx(const iox_service_description_t s, void* x) { static_cast<Found*>(x)->push_back(sdStr(s)); }

struct Run
{
    Env& env;
    Rng r;        // the history: the same in both runs
    Rng a;        // who uses which API
    bool second;
    bool consumersC{false};
    std::vector<std::string>& log;
    size_t at{0};
    std::string hist;
    std::vector<capro::ServiceDescription> sd;
    std::vector<std::unique_ptr<Pub>> pubs;
    std::vector<std::unique_ptr<Sub>> subs;
    std::vector<std::unique_ptr<Cli>> clis;
    std::vector<std::unique_ptr<Srv>> srvs;
    std::vector<std::unique_ptr<Trg>> trgs;
    std::unique_ptr<Dis> dis;
    WaitSet<>* ws{nullptr};
    iox_ws_storage_t wst;
    iox_ws_t cws{nullptr};
    Listener* ls{nullptr};
    iox_listener_storage_t lst;
    iox_listener_t cls{nullptr};
    std::unique_ptr<Trg> sentinel;
    unsigned counter{0};
    Ctx ctxs[8];
    Run(Env& e, uint64_t seed, bool s, std::vector<std::string>& l)
        : env(e)
        , r(seed)
        , a(mix(seed, 99))
        , second(s)
        , log(l)
    {
        consumersC = second && a.chance(850);
        for (unsigned i = 0; i < 8; ++i) ctxs[i].id = i;
    }
    bool pickC() { bool b = a.chance(600); return second && b; }
    void out(const std::string& what)
    {
        if (!second) log.push_back(what);
        else
        {
            VH_CHECK(at < log.size(), "extra", "the C API gives '%s' where nothing is left; %s", what.c_str(), hist.c_str());
            VH_CHECK(log[at] == what, "differs", "C++ API: '%s', with C API (%s consumers): '%s'; %s", log[at].c_str(), consumersC ? "C" : "C++", what.c_str(), hist.c_str());
            ++at;
            count("results_compared");
        }
    }
    void op(const std::string& what)
    {
        hist += what + " ";
        out("> " + what);
    }
    template <typename T>
    void named(std::vector<std::unique_ptr<T>>& v, std::unique_ptr<T> o)
    {
        reg(*o);
        v.push_back(std::move(o));
    }
    void reg(Obj& o)
    {
        std::lock_guard<std::mutex> l(g_om);
        g_names[o.addr()] = fmt("%c%u", o.kind(), o.no);
    }
    void unreg(Obj& o)
    {
        std::lock_guard<std::mutex> l(g_om);
        g_names.erase(o.addr());
    }
    // ------------------------------------------------------------ creation
    std::string node() { return r.chance(300) ? "" : std::string(1 + r.below(3), char('a' + r.below(20))) + (r.chance(100) ? std::string(80, 'n') : ""); }
    std::unique_ptr<Pub> mkPub(unsigned s, bool dflt = false)
    {
        auto o = std::make_unique<Pub>();
        o->no = counter++;
        o->s = s;
        o->c = pickC();
        bool noOpt = dflt || r.chance(150);
        PublisherOptions po;
        uint64_t hist_ = r.below(6);
        auto n = node();
        bool offer = r.chance(700);
        int slow = r.chance(400);
        bool nullNode = r.chance(200);
        if (!noOpt) o->slow = slow;
        if (o->c)
        {
            iox_pub_options_t co;
            memset(&co, int(a.below(256)), sizeof co);
            out(fmt("initialised %d", iox_pub_options_is_initialized(&co)));
            iox_pub_options_init(&co);
            out(fmt("initialised %d", iox_pub_options_is_initialized(&co)));
            out(fmt("defaults %lu %d %d", (unsigned long)co.historyCapacity, co.offerOnCreate, co.subscriberTooSlowPolicy == ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER));
            co.historyCapacity = hist_;
            co.nodeName = nullNode ? nullptr : n.c_str();
            co.offerOnCreate = offer;
            co.subscriberTooSlowPolicy = cs(slow);
            o->h = iox_pub_init(&o->st, sd[s].getServiceIDString().c_str(), sd[s].getInstanceIDString().c_str(), sd[s].getEventIDString().c_str(), noOpt ? nullptr : &co);
        }
        else
        {
            out("initialised 0");
            out("initialised 1");
            out(fmt("defaults %lu %d %d", (unsigned long)po.historyCapacity, po.offerOnCreate, po.subscriberTooSlowPolicy == ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER));
            if (!noOpt)
            {
                po.historyCapacity = hist_;
                if (!nullNode) po.nodeName = NodeName_t(TruncateToCapacity, n.c_str());
                po.offerOnCreate = offer;
                po.subscriberTooSlowPolicy = ps_(slow);
            }
            o->p = new UntypedPublisher(sd[s], po);
        }
        count(o->c ? "c_publishers" : "cpp_publishers");
        return o;
    }
    std::unique_ptr<Sub> mkSub(unsigned s, bool dflt = false)
    {
        auto o = std::make_unique<Sub>();
        o->no = counter++;
        o->s = s;
        o->c = consumersC;
        bool noOpt = dflt || r.chance(150);
        SubscriberOptions po;
        uint64_t q = r.chance(50) ? 256 : r.range(0, 5), hr = r.below(5);
        auto n = node();
        bool sub = r.chance(700), req = r.chance(200), nullNode = r.chance(200);
        int block = r.chance(300);
        if (!noOpt) o->block = block;
        if (o->c)
        {
            iox_sub_options_t co;
            memset(&co, int(a.below(256)), sizeof co);
            out(fmt("initialised %d", iox_sub_options_is_initialized(&co)));
            iox_sub_options_init(&co);
            out(fmt("initialised %d", iox_sub_options_is_initialized(&co)));
            out(fmt("defaults %lu %lu %d %d %d", (unsigned long)co.queueCapacity, (unsigned long)co.historyRequest, co.subscribeOnCreate, co.queueFullPolicy == QueueFullPolicy_BLOCK_PRODUCER, co.requirePublisherHistorySupport));
            co.queueCapacity = q;
            co.historyRequest = hr;
            co.nodeName = nullNode ? nullptr : n.c_str();
            co.subscribeOnCreate = sub;
            co.queueFullPolicy = cq(block);
            co.requirePublisherHistorySupport = req;
            o->h = iox_sub_init(&o->st, sd[s].getServiceIDString().c_str(), sd[s].getInstanceIDString().c_str(), sd[s].getEventIDString().c_str(), noOpt ? nullptr : &co);
        }
        else
        {
            out("initialised 0");
            out("initialised 1");
            out(fmt("defaults %lu %lu %d %d %d", (unsigned long)po.queueCapacity, (unsigned long)po.historyRequest, po.subscribeOnCreate, po.queueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER, po.requiresPublisherHistorySupport));
            if (!noOpt)
            {
                po.queueCapacity = q;
                po.historyRequest = hr;
                if (!nullNode) po.nodeName = NodeName_t(TruncateToCapacity, n.c_str());
                po.subscribeOnCreate = sub;
                po.queueFullPolicy = pq(block);
                po.requiresPublisherHistorySupport = req;
            }
            o->p = new UntypedSubscriber(sd[s], po);
        }
        count(o->c ? "c_subscribers" : "cpp_subscribers");
        return o;
    }
    std::unique_ptr<Cli> mkCli(unsigned s)
    {
        auto o = std::make_unique<Cli>();
        o->no = counter++;
        o->s = s;
        o->c = consumersC;
        bool noOpt = r.chance(150);
        ClientOptions po;
        uint64_t q = r.range(1, 5);
        auto n = node();
        bool con = r.chance(700);
        int block = r.chance(300), slow = r.chance(400);
        if (!noOpt) o->block = block, o->slow = slow;
        if (o->c)
        {
            iox_client_options_t co;
            memset(&co, int(a.below(256)), sizeof co);
            out(fmt("initialised %d", iox_client_options_is_initialized(&co)));
            iox_client_options_init(&co);
            out(fmt("initialised %d", iox_client_options_is_initialized(&co)));
            out(fmt("defaults %lu '%s' %d %d %d", (unsigned long)co.responseQueueCapacity, co.nodeName, co.connectOnCreate, co.responseQueueFullPolicy == QueueFullPolicy_BLOCK_PRODUCER, co.serverTooSlowPolicy == ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER));
            co.responseQueueCapacity = q;
            strncpy(co.nodeName, n.c_str(), IOX_CONFIG_NODE_NAME_SIZE - 1);
            co.nodeName[IOX_CONFIG_NODE_NAME_SIZE - 1] = 0;
            co.connectOnCreate = con;
            co.responseQueueFullPolicy = cq(block);
            co.serverTooSlowPolicy = cs(slow);
            o->h = iox_client_init(&o->st, sd[s].getServiceIDString().c_str(), sd[s].getInstanceIDString().c_str(), sd[s].getEventIDString().c_str(), noOpt ? nullptr : &co);
        }
        else
        {
            out("initialised 0");
            out("initialised 1");
            out(fmt("defaults %lu '%s' %d %d %d", (unsigned long)po.responseQueueCapacity, po.nodeName.c_str(), po.connectOnCreate, po.responseQueueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER, po.serverTooSlowPolicy == ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER));
            if (!noOpt)
            {
                po.responseQueueCapacity = q;
                po.nodeName = NodeName_t(TruncateToCapacity, n.c_str());
                po.connectOnCreate = con;
                po.responseQueueFullPolicy = pq(block);
                po.serverTooSlowPolicy = ps_(slow);
            }
            o->p = new UntypedClient(sd[s], po);
        }
        count(o->c ? "c_clients" : "cpp_clients");
        return o;
    }
    std::unique_ptr<Srv> mkSrv(unsigned s)
    {
        auto o = std::make_unique<Srv>();
        o->no = counter++;
        o->s = s;
        o->c = consumersC;
        bool noOpt = r.chance(150);
        ServerOptions po;
        uint64_t q = r.range(1, 5);
        auto n = node();
        bool offer = r.chance(700);
        int block = r.chance(300), slow = r.chance(400);
        if (!noOpt) o->block = block, o->slow = slow;
        if (o->c)
        {
            iox_server_options_t co;
            memset(&co, int(a.below(256)), sizeof co);
            out(fmt("initialised %d", iox_server_options_is_initialized(&co)));
            iox_server_options_init(&co);
            out(fmt("initialised %d", iox_server_options_is_initialized(&co)));
            out(fmt("defaults %lu '%s' %d %d %d", (unsigned long)co.requestQueueCapacity, co.nodeName, co.offerOnCreate, co.requestQueueFullPolicy == QueueFullPolicy_BLOCK_PRODUCER, co.clientTooSlowPolicy == ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER));
            co.requestQueueCapacity = q;
            strncpy(co.nodeName, n.c_str(), IOX_CONFIG_NODE_NAME_SIZE - 1);
            co.nodeName[IOX_CONFIG_NODE_NAME_SIZE - 1] = 0;
            co.offerOnCreate = offer;
            co.requestQueueFullPolicy = cq(block);
            co.clientTooSlowPolicy = cs(slow);
            o->h = iox_server_init(&o->st, sd[s].getServiceIDString().c_str(), sd[s].getInstanceIDString().c_str(), sd[s].getEventIDString().c_str(), noOpt ? nullptr : &co);
        }
        else
        {
            out("initialised 0");
            out("initialised 1");
            out(fmt("defaults %lu '%s' %d %d %d", (unsigned long)po.requestQueueCapacity, po.nodeName.c_str(), po.offerOnCreate, po.requestQueueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER, po.clientTooSlowPolicy == ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER));
            if (!noOpt)
            {
                po.requestQueueCapacity = q;
                po.nodeName = NodeName_t(TruncateToCapacity, n.c_str());
                po.offerOnCreate = offer;
                po.requestQueueFullPolicy = pq(block);
                po.clientTooSlowPolicy = ps_(slow);
            }
            o->p = new UntypedServer(sd[s], po);
        }
        count(o->c ? "c_servers" : "cpp_servers");
        return o;
    }
    std::unique_ptr<Trg> mkTrg()
    {
        auto o = std::make_unique<Trg>();
        o->no = counter++;
        o->c = consumersC;
        if (o->c) o->h = iox_user_trigger_init(&o->st);
        else o->p = new UserTrigger();
        return o;
    }
    // ------------------------------------------------------------ destruction
    void del(Pub& o)
    {
        unreg(o);
        if (o.c) iox_pub_deinit(o.h);
        else
        {
            // the C++ publisher's loans would go with it as well
            delete o.p;
        }
    }
    void del(Sub& o)
    {
        unreg(o);
        if (o.c) iox_sub_deinit(o.h);
        else delete o.p;
    }
    void del(Cli& o)
    {
        unreg(o);
        if (o.c) iox_client_deinit(o.h);
        else delete o.p;
    }
    void del(Srv& o)
    {
        unreg(o);
        if (o.c) iox_server_deinit(o.h);
        else delete o.p;
    }
    void del(Trg& o)
    {
        unreg(o);
        if (o.c) iox_user_trigger_deinit(o.h);
        else delete o.p;
    }
    // ------------------------------------------------------------ publish and subscribe
    void loan(Pub& o)
    {
        static const uint64_t SZ[] = {1, 8, 24, 60, 64, 200};
        uint64_t size = SZ[r.below(6)];
        uint32_t al = 1u << r.below(6), hs = r.chance(300) ? uint32_t(8u * r.range(1, 3)) : 0, ha = hs ? 8u : 1u;
        unsigned how = unsigned(r.below(3));
        bool bad = r.chance(30);
        if (how == 0) al = 8;
        if (how < 2) hs = 0, ha = 1;
        else if (bad) ha = 64, al = 1, hs = 3;
        if (size + al + hs > 200) size = 24;
        void* p = nullptr;
        std::string res;
        if (o.c)
        {
            iox_AllocationResult e = how == 0   ? iox_pub_loan_chunk(o.h, &p, size)
                                     : how == 1 ? iox_pub_loan_aligned_chunk(o.h, &p, size, al)
                                                : iox_pub_loan_aligned_chunk_with_user_header(o.h, &p, size, al, hs, ha);
            res = nm(e);
        }
        else
        {
            auto e = o.p->loan(size, al, hs, ha);
            res = rs(e);
            if (!e.has_error()) p = e.value();
        }
        out(fmt("loan %s", res.c_str()));
        if (res != "ok") return;
        auto* h = mepoo::ChunkHeader::fromUserPayload(p);
        out(fmt("size %lu aligned %d header %d", (unsigned long)h->userPayloadSize(), reinterpret_cast<uintptr_t>(p) % al == 0, h->userHeader() != nullptr));
        if (o.c)
        {
            auto* ch = iox_chunk_header_from_user_payload(p);
            VH_CHECK(reinterpret_cast<void*>(ch) == h && iox_chunk_header_to_user_payload(ch) == p && iox_chunk_header_to_user_header(ch) == h->userHeader(), "chunk-header", "chunk header access of the C API is wrong; %s", hist.c_str());
        }
        writePayload(p, r.next());
        if (hs) memset(h->userHeader(), int(r.below(256)), hs);
        o.loans.push_back(p);
    }
    void drainFor(Pub& o)
    {
        if (!o.slow) return;
        for (auto& s : subs)
            if (s->s == o.s && s->block) relQueued(*s);
    }
    void publish(Pub& o, size_t i)
    {
        void* p = o.loans[i];
        o.loans.erase(o.loans.begin() + long(i));
        drainFor(o);
        if (o.c) iox_pub_publish_chunk(o.h, p);
        else o.p->publish(p);
        count("published");
    }
    void relLoan(Pub& o, size_t i)
    {
        void* p = o.loans[i];
        o.loans.erase(o.loans.begin() + long(i));
        if (o.c) iox_pub_release_chunk(o.h, p);
        else o.p->release(p);
    }
    void query(Pub& o)
    {
        if (o.c) out(fmt("%d %d %s", iox_pub_is_offered(o.h), iox_pub_has_subscribers(o.h), sdStr(iox_pub_get_service_description(o.h)).c_str()));
        else out(fmt("%d %d %s", o.p->isOffered(), o.p->hasSubscribers(), sdStr(o.p->getServiceDescription()).c_str()));
    }
    void take(Sub& o)
    {
        const void* p = nullptr;
        std::string res;
        if (o.c) res = nm(iox_sub_take_chunk(o.h, &p));
        else
        {
            auto e = o.p->take();
            res = rs(e);
            if (!e.has_error()) p = e.value();
        }
        out("take " + res);
        if (res != "ok") return;
        auto* h = mepoo::ChunkHeader::fromUserPayload(p);
        out(contents(p) + fmt(" header %d", h->userHeader() ? static_cast<const uint8_t*>(h->userHeader())[0] : -1));
        if (o.c)
        {
            auto* ch = iox_chunk_header_from_user_payload_const(p);
            VH_CHECK(iox_chunk_header_to_user_payload_const(ch) == p && iox_chunk_header_to_user_header_const(ch) == h->userHeader(), "chunk-header", "chunk header access of the C API is wrong; %s", hist.c_str());
        }
        o.held.push_back(p);
        count("received");
    }
    void rel(Sub& o, size_t i)
    {
        auto* p = o.held[i];
        o.held.erase(o.held.begin() + long(i));
        if (o.c) iox_sub_release_chunk(o.h, p);
        else o.p->release(p);
    }
    void relQueued(Sub& o)
    {
        if (o.c) iox_sub_release_queued_chunks(o.h);
        else o.p->releaseQueuedData();
    }
    void query(Sub& o)
    {
        if (o.c) out(fmt("%s %d %d %s", nm(iox_sub_get_subscription_state(o.h)), iox_sub_has_chunks(o.h), iox_sub_has_lost_chunks(o.h), sdStr(iox_sub_get_service_description(o.h)).c_str()));
        else
        {
            auto st = nm(o.p->getSubscriptionState());
            bool d = o.p->hasData(), m = o.p->hasMissedData();
            out(fmt("%s %d %d %s", st, d, m, sdStr(o.p->getServiceDescription()).c_str()));
        }
    }
    // ------------------------------------------------------------ request and response
    void loanReq(Cli& o)
    {
        uint64_t size = r.range(1, 60);
        bool al8 = r.chance(400);
        uint32_t al = al8 ? 8 : 1u << r.below(6);
        int64_t seq = int64_t(r.next() >> 2);
        void* p = nullptr;
        std::string res;
        if (o.c) res = nm(al8 ? iox_client_loan_request(o.h, &p, size) : iox_client_loan_aligned_request(o.h, &p, size, al));
        else
        {
            auto e = o.p->loan(size, al);
            res = rs(e);
            if (!e.has_error()) p = e.value();
        }
        out("request " + res);
        if (res != "ok") return;
        out(fmt("size %lu aligned %d", (unsigned long)mepoo::ChunkHeader::fromUserPayload(p)->userPayloadSize(), reinterpret_cast<uintptr_t>(p) % al == 0));
        writePayload(p, r.next());
        if (o.c)
        {
            auto h = iox_request_header_from_payload(p);
            iox_request_header_set_sequence_id(h, seq);
            out(fmt("%d %ld", iox_request_header_get_rpc_header_version(h), long(iox_request_header_get_sequence_id(h))));
            VH_CHECK(iox_request_header_get_user_payload(h) == p && iox_chunk_header_to_user_payload(iox_request_header_get_chunk_header(h)) == p, "request-header", "request header access of the C API is wrong; %s", hist.c_str());
        }
        else
        {
            auto h = RequestHeader::fromPayload(p);
            h->setSequenceId(seq);
            out(fmt("%d %ld", h->getRpcHeaderVersion(), long(h->getSequenceId())));
        }
        o.loans.push_back(p);
    }
    void send(Cli& o, size_t i)
    {
        void* p = o.loans[i];
        o.loans.erase(o.loans.begin() + long(i));
        if (o.slow)
            for (auto& s : srvs)
                if (s->s == o.s && s->block) relQueued(*s);
        std::string res = o.c ? nm(iox_client_send(o.h, p)) : rs(o.p->send(p));
        out("send " + res);
        count("requests");
    }
    void relReq(Cli& o, size_t i)
    {
        void* p = o.loans[i];
        o.loans.erase(o.loans.begin() + long(i));
        if (o.c) iox_client_release_request(o.h, p);
        else o.p->releaseRequest(p);
    }
    void take(Cli& o)
    {
        const void* p = nullptr;
        std::string res;
        if (o.c) res = nm(iox_client_take_response(o.h, &p));
        else
        {
            auto e = o.p->take();
            res = rs(e);
            if (!e.has_error()) p = e.value();
        }
        out("response " + res);
        if (res != "ok") return;
        if (o.c)
        {
            auto h = iox_response_header_from_payload_const(p);
            out(fmt("%s seq %ld error %d version %d", contents(p).c_str(), long(iox_response_header_get_sequence_id_const(h)), iox_response_header_has_server_error_const(h), iox_response_header_get_rpc_header_version_const(h)));
            VH_CHECK(iox_response_header_get_user_payload_const(h) == p && iox_chunk_header_to_user_payload_const(iox_response_header_get_chunk_header_const(h)) == p, "response-header", "response header access of the C API is wrong; %s", hist.c_str());
        }
        else
        {
            auto h = ResponseHeader::fromPayload(p);
            out(fmt("%s seq %ld error %d version %d", contents(p).c_str(), long(h->getSequenceId()), h->hasServerError(), h->getRpcHeaderVersion()));
        }
        o.held.push_back(p);
        count("responses");
    }
    void rel(Cli& o, size_t i)
    {
        auto* p = o.held[i];
        o.held.erase(o.held.begin() + long(i));
        if (o.c) iox_client_release_response(o.h, p);
        else o.p->releaseResponse(p);
    }
    void relQueued(Cli& o)
    {
        if (o.c) iox_client_release_queued_responses(o.h);
        else o.p->releaseQueuedResponses();
    }
    void query(Cli& o)
    {
        if (o.c) out(fmt("%s %d %d %s", nm(iox_client_get_connection_state(o.h)), iox_client_has_responses(o.h), iox_client_has_missed_responses(o.h), sdStr(iox_client_get_service_description(o.h)).c_str()));
        else
        {
            auto st = nm(o.p->getConnectionState());
            bool d = o.p->hasResponses(), m = o.p->hasMissedResponses();
            out(fmt("%s %d %d %s", st, d, m, sdStr(o.p->getServiceDescription()).c_str()));
        }
    }
    void take(Srv& o)
    {
        const void* p = nullptr;
        std::string res;
        if (o.c) res = nm(iox_server_take_request(o.h, &p));
        else
        {
            auto e = o.p->take();
            res = rs(e);
            if (!e.has_error()) p = e.value();
        }
        out("request " + res);
        if (res != "ok") return;
        if (o.c)
        {
            auto h = iox_request_header_from_payload_const(p);
            out(fmt("%s seq %ld version %d", contents(p).c_str(), long(iox_request_header_get_sequence_id_const(h)), iox_request_header_get_rpc_header_version_const(h)));
            VH_CHECK(iox_request_header_get_user_payload_const(h) == p && iox_chunk_header_to_user_payload_const(iox_request_header_get_chunk_header_const(h)) == p, "request-header", "request header access of the C API is wrong; %s", hist.c_str());
        }
        else
        {
            auto h = RequestHeader::fromPayload(p);
            out(fmt("%s seq %ld version %d", contents(p).c_str(), long(h->getSequenceId()), h->getRpcHeaderVersion()));
        }
        o.held.push_back(p);
    }
    void rel(Srv& o, size_t i)
    {
        auto* p = o.held[i];
        o.held.erase(o.held.begin() + long(i));
        if (o.c) iox_server_release_request(o.h, p);
        else o.p->releaseRequest(p);
    }
    void relQueued(Srv& o)
    {
        if (o.c) iox_server_release_queued_requests(o.h);
        else o.p->releaseQueuedRequests();
    }
    void loanResp(Srv& o, size_t i)
    {
        uint64_t size = r.range(1, 60);
        bool al8 = r.chance(400), err = r.chance(200);
        uint32_t al = al8 ? 8 : 1u << r.below(6);
        void* p = nullptr;
        std::string res;
        const void* req = o.held[i];
        if (o.c) res = nm(al8 ? iox_server_loan_response(o.h, req, &p, size) : iox_server_loan_aligned_response(o.h, req, &p, size, al));
        else
        {
            auto e = o.p->loan(RequestHeader::fromPayload(req), size, al);
            res = rs(e);
            if (!e.has_error()) p = e.value();
        }
        out("response " + res);
        if (res != "ok") return;
        out(fmt("size %lu aligned %d", (unsigned long)mepoo::ChunkHeader::fromUserPayload(p)->userPayloadSize(), reinterpret_cast<uintptr_t>(p) % al == 0));
        writePayload(p, r.next());
        if (o.c)
        {
            auto h = iox_response_header_from_payload(p);
            if (err) iox_response_header_set_server_error(h);
            out(fmt("seq %ld error %d version %d", long(iox_response_header_get_sequence_id(h)), iox_response_header_has_server_error(h), iox_response_header_get_rpc_header_version(h)));
            VH_CHECK(iox_response_header_get_user_payload(h) == p && iox_chunk_header_to_user_payload(iox_response_header_get_chunk_header(h)) == p, "response-header", "response header access of the C API is wrong; %s", hist.c_str());
        }
        else
        {
            auto h = ResponseHeader::fromPayload(p);
            if (err) h->setServerError();
            out(fmt("seq %ld error %d version %d", long(h->getSequenceId()), h->hasServerError(), h->getRpcHeaderVersion()));
        }
        o.loans.push_back(p);
    }
    void send(Srv& o, size_t i)
    {
        void* p = o.loans[i];
        o.loans.erase(o.loans.begin() + long(i));
        if (o.slow)
            for (auto& s : clis)
                if (s->s == o.s && s->block) relQueued(*s);
        std::string res = o.c ? nm(iox_server_send(o.h, p)) : rs(o.p->send(p));
        out("send " + res);
    }
    void relResp(Srv& o, size_t i)
    {
        void* p = o.loans[i];
        o.loans.erase(o.loans.begin() + long(i));
        if (o.c) iox_server_release_response(o.h, p);
        else o.p->releaseResponse(p);
    }
    void query(Srv& o)
    {
        if (o.c) out(fmt("%d %d %d %d %s", iox_server_is_offered(o.h), iox_server_has_clients(o.h), iox_server_has_requests(o.h), iox_server_has_missed_requests(o.h), sdStr(iox_server_get_service_description(o.h)).c_str()));
        else
        {
            bool d = o.p->hasRequests(), m = o.p->hasMissedRequests();
            out(fmt("%d %d %d %d %s", o.p->isOffered(), o.p->hasClients(), d, m, sdStr(o.p->getServiceDescription()).c_str()));
        }
    }
    // ------------------------------------------------------------ notifications
    // cb: 0 none, 1 without, 2 with context
    template <typename O, typename CE, typename CS, typename PE, typename PS, typename CaE, typename CaEx, typename CaS, typename CaSx, typename CbC, typename CbCx, typename CbP, typename CbPx>
    std::string attWs(O& o, bool state, uint64_t id, int cb, Ctx* x, CE ce, CS cs_, PE pe, PS ps, CaE cae, CaEx caex, CaS cas, CaSx casx, CbC cbc, CbCx cbcx, CbP cbp, CbPx cbpx)
    {
        if (o.c)
        {
            if (state) return cb == 2 ? nm(casx(cws, o.h, cs_, id, cbcx, x)) : nm(cas(cws, o.h, cs_, id, cb ? cbc : nullptr));
            return cb == 2 ? nm(caex(cws, o.h, ce, id, cbcx, x)) : nm(cae(cws, o.h, ce, id, cb ? cbc : nullptr));
        }
        if (state)
        {
            if (cb == 2) return rs(ws->attachState(*o.p, ps, id, createNotificationCallback(*cbpx, *x)));
            if (cb == 1) return rs(ws->attachState(*o.p, ps, id, createNotificationCallback(*cbp)));
            return rs(ws->attachState(*o.p, ps, id));
        }
        if (cb == 2) return rs(ws->attachEvent(*o.p, pe, id, createNotificationCallback(*cbpx, *x)));
        if (cb == 1) return rs(ws->attachEvent(*o.p, pe, id, createNotificationCallback(*cbp)));
        return rs(ws->attachEvent(*o.p, pe, id));
    }
    void attachWs(Obj& o)
    {
        bool state = r.chance(500);
        uint64_t id = r.below(100);
        int cb = int(r.below(3));
        Ctx* x = &ctxs[r.below(8)];
        std::string res;
        switch (o.kind())
        {
        case 'S':
            res = attWs(static_cast<Sub&>(o), state, id, cb, x, SubscriberEvent_DATA_RECEIVED, SubscriberState_HAS_DATA, SubscriberEvent::DATA_RECEIVED, SubscriberState::HAS_DATA, iox_ws_attach_subscriber_event, iox_ws_attach_subscriber_event_with_context_data, iox_ws_attach_subscriber_state, iox_ws_attach_subscriber_state_with_context_data, wSubC, wSubCx, wSubP, wSubPx);
            break;
        case 'C':
            res = attWs(static_cast<Cli&>(o), state, id, cb, x, ClientEvent_RESPONSE_RECEIVED, ClientState_HAS_RESPONSE, ClientEvent::RESPONSE_RECEIVED, ClientState::HAS_RESPONSE, iox_ws_attach_client_event, iox_ws_attach_client_event_with_context_data, iox_ws_attach_client_state, iox_ws_attach_client_state_with_context_data, wCliC, wCliCx, wCliP, wCliPx);
            break;
        case 'V':
            res = attWs(static_cast<Srv&>(o), state, id, cb, x, ServerEvent_REQUEST_RECEIVED, ServerState_HAS_REQUEST, ServerEvent::REQUEST_RECEIVED, ServerState::HAS_REQUEST, iox_ws_attach_server_event, iox_ws_attach_server_event_with_context_data, iox_ws_attach_server_state, iox_ws_attach_server_state_with_context_data, wSrvC, wSrvCx, wSrvP, wSrvPx);
            break;
        case 'T':
        {
            auto& t = static_cast<Trg&>(o);
            state = false;
            if (t.c) res = cb == 2 ? nm(iox_ws_attach_user_trigger_event_with_context_data(cws, t.h, id, wTrgCx, x)) : nm(iox_ws_attach_user_trigger_event(cws, t.h, id, cb ? wTrgC : nullptr));
            else res = cb == 2 ? rs(ws->attachEvent(*t.p, id, createNotificationCallback(wTrgPx, *x))) : cb == 1 ? rs(ws->attachEvent(*t.p, id, createNotificationCallback(wTrgP))) : rs(ws->attachEvent(*t.p, id));
            break;
        }
        case 'D':
        {
            auto& t = static_cast<Dis&>(o);
            state = false;
            if (t.c) res = cb == 2 ? nm(iox_ws_attach_service_discovery_event_with_context_data(cws, t.h, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED, id, wDisCx, x)) : nm(iox_ws_attach_service_discovery_event(cws, t.h, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED, id, cb ? wDisC : nullptr));
            else res = cb == 2 ? rs(ws->attachEvent(*t.p, ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED, id, createNotificationCallback(wDisPx, *x))) : cb == 1 ? rs(ws->attachEvent(*t.p, ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED, id, createNotificationCallback(wDisP))) : rs(ws->attachEvent(*t.p, ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED, id));
            break;
        }
        default: return;
        }
        out("attach " + res);
        if (res == "ok") o.ws = state ? 2 : 1;
    }
    void detachWs(Obj& o)
    {
        bool state = o.ws == 2;
        switch (o.kind())
        {
        case 'S':
        {
            auto& t = static_cast<Sub&>(o);
            if (t.c) state ? iox_ws_detach_subscriber_state(cws, t.h, SubscriberState_HAS_DATA) : iox_ws_detach_subscriber_event(cws, t.h, SubscriberEvent_DATA_RECEIVED);
            else state ? ws->detachState(*t.p, SubscriberState::HAS_DATA) : ws->detachEvent(*t.p, SubscriberEvent::DATA_RECEIVED);
            break;
        }
        case 'C':
        {
            auto& t = static_cast<Cli&>(o);
            if (t.c) state ? iox_ws_detach_client_state(cws, t.h, ClientState_HAS_RESPONSE) : iox_ws_detach_client_event(cws, t.h, ClientEvent_RESPONSE_RECEIVED);
            else state ? ws->detachState(*t.p, ClientState::HAS_RESPONSE) : ws->detachEvent(*t.p, ClientEvent::RESPONSE_RECEIVED);
            break;
        }
        case 'V':
        {
            auto& t = static_cast<Srv&>(o);
            if (t.c) state ? iox_ws_detach_server_state(cws, t.h, ServerState_HAS_REQUEST) : iox_ws_detach_server_event(cws, t.h, ServerEvent_REQUEST_RECEIVED);
            else state ? ws->detachState(*t.p, ServerState::HAS_REQUEST) : ws->detachEvent(*t.p, ServerEvent::REQUEST_RECEIVED);
            break;
        }
        case 'T':
        {
            auto& t = static_cast<Trg&>(o);
            if (t.c) iox_ws_detach_user_trigger_event(cws, t.h);
            else ws->detachEvent(*t.p);
            break;
        }
        case 'D':
        {
            auto& t = static_cast<Dis&>(o);
            if (t.c) iox_ws_detach_service_discovery_event(cws, t.h, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED);
            else ws->detachEvent(*t.p, ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED);
            break;
        }
        }
        o.ws = 0;
        out("detached");
    }
    void attachLs(Obj& o)
    {
        bool x = r.chance(500);
        Ctx* c = &ctxs[r.below(8)];
        std::string res;
        switch (o.kind())
        {
        case 'S':
        {
            auto& t = static_cast<Sub&>(o);
            if (t.c) res = x ? nm(iox_listener_attach_subscriber_event_with_context_data(cls, t.h, SubscriberEvent_DATA_RECEIVED, lSubCx, c)) : nm(iox_listener_attach_subscriber_event(cls, t.h, SubscriberEvent_DATA_RECEIVED, lSubC));
            else res = x ? rs(ls->attachEvent(*t.p, SubscriberEvent::DATA_RECEIVED, createNotificationCallback(lSubPx, *c))) : rs(ls->attachEvent(*t.p, SubscriberEvent::DATA_RECEIVED, createNotificationCallback(lSubP)));
            break;
        }
        case 'C':
        {
            auto& t = static_cast<Cli&>(o);
            if (t.c) res = x ? nm(iox_listener_attach_client_event_with_context_data(cls, t.h, ClientEvent_RESPONSE_RECEIVED, lCliCx, c)) : nm(iox_listener_attach_client_event(cls, t.h, ClientEvent_RESPONSE_RECEIVED, lCliC));
            else res = x ? rs(ls->attachEvent(*t.p, ClientEvent::RESPONSE_RECEIVED, createNotificationCallback(lCliPx, *c))) : rs(ls->attachEvent(*t.p, ClientEvent::RESPONSE_RECEIVED, createNotificationCallback(lCliP)));
            break;
        }
        case 'V':
        {
            auto& t = static_cast<Srv&>(o);
            if (t.c) res = x ? nm(iox_listener_attach_server_event_with_context_data(cls, t.h, ServerEvent_REQUEST_RECEIVED, lSrvCx, c)) : nm(iox_listener_attach_server_event(cls, t.h, ServerEvent_REQUEST_RECEIVED, lSrvC));
            else res = x ? rs(ls->attachEvent(*t.p, ServerEvent::REQUEST_RECEIVED, createNotificationCallback(lSrvPx, *c))) : rs(ls->attachEvent(*t.p, ServerEvent::REQUEST_RECEIVED, createNotificationCallback(lSrvP)));
            break;
        }
        case 'T':
        {
            auto& t = static_cast<Trg&>(o);
            if (t.c) res = x ? nm(iox_listener_attach_user_trigger_event_with_context_data(cls, t.h, lTrgCx, c)) : nm(iox_listener_attach_user_trigger_event(cls, t.h, lTrgC));
            else res = x ? rs(ls->attachEvent(*t.p, createNotificationCallback(lTrgPx, *c))) : rs(ls->attachEvent(*t.p, createNotificationCallback(lTrgP)));
            break;
        }
        case 'D':
        {
            auto& t = static_cast<Dis&>(o);
            if (t.c) res = x ? nm(iox_listener_attach_service_discovery_event_with_context_data(cls, t.h, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED, lDisCx, c)) : nm(iox_listener_attach_service_discovery_event(cls, t.h, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED, lDisC));
            else res = x ? rs(ls->attachEvent(*t.p, ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED, createNotificationCallback(lDisPx, *c))) : rs(ls->attachEvent(*t.p, ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED, createNotificationCallback(lDisP)));
            break;
        }
        default: return;
        }
        out("listen " + res);
        if (res == "ok") o.ls = 1;
    }
    void detachLs(Obj& o)
    {
        quiesce();
        switch (o.kind())
        {
        case 'S':
        {
            auto& t = static_cast<Sub&>(o);
            if (t.c) iox_listener_detach_subscriber_event(cls, t.h, SubscriberEvent_DATA_RECEIVED);
            else ls->detachEvent(*t.p, SubscriberEvent::DATA_RECEIVED);
            break;
        }
        case 'C':
        {
            auto& t = static_cast<Cli&>(o);
            if (t.c) iox_listener_detach_client_event(cls, t.h, ClientEvent_RESPONSE_RECEIVED);
            else ls->detachEvent(*t.p, ClientEvent::RESPONSE_RECEIVED);
            break;
        }
        case 'V':
        {
            auto& t = static_cast<Srv&>(o);
            if (t.c) iox_listener_detach_server_event(cls, t.h, ServerEvent_REQUEST_RECEIVED);
            else ls->detachEvent(*t.p, ServerEvent::REQUEST_RECEIVED);
            break;
        }
        case 'T':
        {
            auto& t = static_cast<Trg&>(o);
            if (t.c) iox_listener_detach_user_trigger_event(cls, t.h);
            else ls->detachEvent(*t.p);
            break;
        }
        case 'D':
        {
            auto& t = static_cast<Dis&>(o);
            if (t.c) iox_listener_detach_service_discovery_event(cls, t.h, ServiceDiscoveryEvent_SERVICE_REGISTRY_CHANGED);
            else ls->detachEvent(*t.p, ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED);
            break;
        }
        }
        o.ls = 0;
        out("unlistened");
    }
    void trigger(Trg& t)
    {
        if (t.c) iox_user_trigger_trigger(t.h);
        else t.p->trigger();
    }
    // every notification given before has led to its callback when the sentinel was called twice
    void quiesce()
    {
        auto n = fmt("T%u!", sentinel->no);
        for (int i = 0; i < 2; ++i)
        {
            uint64_t before;
            {
                std::lock_guard<std::mutex> l(g_lm);
                before = g_lcb[n];
            }
            trigger(*sentinel);
            for (uint64_t k = 0;; ++k)
            {
                {
                    std::lock_guard<std::mutex> l(g_lm);
                    if (g_lcb[n] != before) break;
                }
                usleep(k < 100 ? 20 : 1000);
                VH_CHECK(k < 60000, "listener-callback", "the %s listener does not call back; %s", consumersC ? "C" : "C++", hist.c_str());
            }
        }
        std::string s;
        std::lock_guard<std::mutex> l(g_lm);
        for (auto& e : g_lcb)
            if (e.first != n) s += e.first + " "; // how many is a matter of timing
        g_lcb.clear();
        out("callbacks " + s);
        if (!s.empty()) count("listener_callbacks");
    }
    std::vector<Obj*> attachable()
    {
        std::vector<Obj*> v;
        for (auto& x : subs) v.push_back(x.get());
        for (auto& x : clis) v.push_back(x.get());
        for (auto& x : srvs) v.push_back(x.get());
        for (auto& x : trgs) v.push_back(x.get());
        v.push_back(dis.get());
        return v;
    }
    // who a notification comes from, and what the accessors say
    std::string originP(const NotificationInfo* n)
    {
        std::string s = fmt("#%lu:", (unsigned long)n->getNotificationId());
        for (auto* o : attachable())
        {
            bool is = false;
            switch (o->kind())
            {
            case 'S': is = n->doesOriginateFrom(static_cast<Sub*>(o)->p); break;
            case 'C': is = n->doesOriginateFrom(static_cast<Cli*>(o)->p); break;
            case 'V': is = n->doesOriginateFrom(static_cast<Srv*>(o)->p); break;
            case 'T': is = n->doesOriginateFrom(static_cast<Trg*>(o)->p); break;
            case 'D': is = n->doesOriginateFrom(static_cast<Dis*>(o)->p); break;
            }
            if (is) s += fmt("%c%u", o->kind(), o->no);
        }
        return s;
    }
    std::string originC(iox_notification_info_t n)
    {
        std::string s = fmt("#%lu:", (unsigned long)iox_notification_info_get_notification_id(n));
        for (auto* o : attachable())
        {
            bool is = false;
            const void* g = nullptr;
            switch (o->kind())
            {
            case 'S':
                is = iox_notification_info_does_originate_from_subscriber(n, static_cast<Sub*>(o)->h);
                if (is) g = iox_notification_info_get_subscriber_origin(n);
                break;
            case 'C':
                is = iox_notification_info_does_originate_from_client(n, static_cast<Cli*>(o)->h);
                if (is) g = iox_notification_info_get_client_origin(n);
                break;
            case 'V':
                is = iox_notification_info_does_originate_from_server(n, static_cast<Srv*>(o)->h);
                if (is) g = iox_notification_info_get_server_origin(n);
                break;
            case 'T':
                is = iox_notification_info_does_originate_from_user_trigger(n, static_cast<Trg*>(o)->h);
                if (is) g = iox_notification_info_get_user_trigger_origin(n);
                break;
            case 'D':
                is = iox_notification_info_does_originate_from_service_discovery(n, static_cast<Dis*>(o)->h);
                if (is) g = iox_notification_info_get_service_discovery_origin(n);
                break;
            }
            if (is)
            {
                s += fmt("%c%u", o->kind(), o->no);
                VH_CHECK(g == o->addr(), "origin", "the origin of a notification is not the object it comes from; %s", hist.c_str());
            }
        }
        return s;
    }
    void waitWs()
    {
        uint64_t cap = r.chance(300) ? r.below(3) : 64;
        std::vector<std::string> got;
        std::string cbs;
        uint64_t n, missed = a.next();
        if (cws)
        {
            std::vector<iox_notification_info_t> arr(cap + 1, nullptr);
            struct timespec t{0, long(a.below(2)) * 100000};
            n = iox_ws_timed_wait(cws, t, arr.data(), cap, &missed);
            VH_CHECK(n <= cap && arr[cap] == nullptr, "overflow", "more notifications written than the array holds; %s", hist.c_str());
            for (uint64_t i = 0; i < n; ++i)
            {
                got.push_back(originC(arr[i]));
                g_cb.clear();
                iox_notification_info_call(arr[i]);
                got.back() += "=" + g_cb;
            }
        }
        else
        {
            auto v = ws->timedWait(units::Duration::fromNanoseconds(0));
            n = std::min<uint64_t>(v.size(), cap);
            missed = v.size() - n;
            for (uint64_t i = 0; i < n; ++i)
            {
                got.push_back(originP(v[i]));
                g_cb.clear();
                (*v[i])();
                got.back() += "=" + g_cb;
            }
        }
        std::string s = fmt("%lu missed %lu:", (unsigned long)n, (unsigned long)missed);
        for (auto& g : got) s += " " + g;
        out("notified " + s);
        count("waits");
        if (n) count("notified");
        if (missed) count("notifications_missed");
    }
    void sizes()
    {
        if (cws) out(fmt("sizes %lu %lu %lu %lu", (unsigned long)iox_ws_size(cws), (unsigned long)iox_ws_capacity(cws), (unsigned long)iox_listener_size(cls), (unsigned long)iox_listener_capacity(cls)));
        else out(fmt("sizes %lu %lu %lu %lu", (unsigned long)ws->size(), (unsigned long)ws->capacity(), (unsigned long)ls->size(), (unsigned long)ls->capacity()));
    }
    void find()
    {
        auto& q = sd[r.below(sd.size())];
        bool w0 = r.chance(400), w1 = r.chance(500), w2 = r.chance(500), rpc = r.chance(500);
        uint64_t cap = r.chance(400) ? r.below(4) : 128;
        unsigned how = unsigned(a.below(3));
        Found f;
        uint64_t missed = a.chance(500) ? 0 : a.next();
        if (dis->c)
        {
            const char *s = w0 ? nullptr : q.getServiceIDString().c_str(), *i = w1 ? nullptr : q.getInstanceIDString().c_str(), *e = w2 ? nullptr : q.getEventIDString().c_str();
            auto pat = rpc ? MessagingPattern_REQ_RES : MessagingPattern_PUB_SUB;
            if (how == 0)
            {
                std::vector<iox_service_description_t> v(cap + 1);
                memset(static_cast<void*>(v.data()), 0x5a, v.size() * sizeof(v[0]));
                uint64_t n = iox_service_discovery_find_service(dis->h, s, i, e, v.data(), cap, &missed, pat);
                VH_CHECK(n <= cap && v[cap].serviceString[0] == 0x5a, "overflow", "more services written than the array holds; %s", hist.c_str());
                for (uint64_t k = 0; k < n; ++k) f.push_back(sdStr(v[k]));
            }
            else
            {
                if (how == 1)
                {
                    g_found = &f;
                    iox_service_discovery_find_service_apply_callable(dis->h, s, i, e, foundC, pat);
                }
                else
                    iox_service_discovery_find_service_apply_callable_with_context_data(dis->h, s, i, e, foundCx, &f, pat);
                missed = f.size() > cap ? f.size() - cap : 0;
                f.resize(std::min<size_t>(f.size(), cap));
            }
        }
        else
        {
            optional<capro::IdString_t> s, i, e;
            if (!w0) s.emplace(q.getServiceIDString());
            if (!w1) i.emplace(q.getInstanceIDString());
            if (!w2) e.emplace(q.getEventIDString());
            dis->p->findService(s, i, e, [&](const capro::ServiceDescription& x) { f.push_back(sdStr(x)); }, rpc ? MessagingPattern::REQ_RES : MessagingPattern::PUB_SUB);
            missed = f.size() > cap ? f.size() - cap : 0;
            f.resize(std::min<size_t>(f.size(), cap));
        }
        count("searches");
        std::string o = fmt("found %lu missed %lu ", (unsigned long)f.size(), (unsigned long)missed);
        std::sort(f.begin(), f.end());
        if (missed == 0)
            for (auto& x : f) o += x + " ";
        out(o);
    }
    // an endpoint is destroyed; in between, at an arbitrary atomic operation of the destruction, the daemon removes the port
    // if it may and another endpoint takes its place. That one must work.
    void destroyAndReplace()
    {
        bool pub = r.chance(500);
        if (pub ? pubs.empty() : subs.empty()) return;
        size_t i = r.below(pub ? pubs.size() : subs.size());
        if (!pub && r.chance(800)) // one with a trigger
            for (size_t k = 0; k < subs.size() && !subs[i]->ws && !subs[i]->ls; ++k) i = (i + 1) % subs.size();
        unsigned x = unsigned(sd.size() - 1); // a service nobody else uses
        quiesce();
        op(fmt("replace%c%u", pub ? 'P' : 'S', pub ? pubs[i]->no : subs[i]->no));
        std::unique_ptr<Pub> np;
        std::unique_ptr<Sub> ns;
        iox_ws_storage_t st2;
        iox_ws_t cws2 = nullptr;
        WaitSet<>* ws2 = nullptr;
        bool inj = false;
        auto mkWs2 = [&] {
            if (consumersC) cws2 = iox_ws_init(&st2);
            else ws2 = new WaitSet<>();
        };
        auto att2 = [&] {
            if (consumersC) out(nm(iox_ws_attach_subscriber_state(cws2, ns->h, SubscriberState_HAS_DATA, 5, nullptr)));
            else out(rs(ws2->attachState(*ns->p, SubscriberState::HAS_DATA, 5)));
        };
        mkWs2();
        auto body = [&] {
            inj = true;
            env.discover();
            env.discover();
            if (pub) np = mkPub(x, true);
            else
            {
                ns = mkSub(x, true);
                att2();
            }
        };
        if (pub)
        {
            if (pubs[i]->ws || pubs[i]->ls) return;
            auto o = std::move(pubs[i]);
            pubs.erase(pubs.begin() + long(i));
            if (second && o->c) vs::inject(1 + uint32_t(a.below(8)), body);
            del(*o);
        }
        else
        {
            auto o = std::move(subs[i]);
            subs.erase(subs.begin() + long(i));
            if (second && o->c) vs::inject(1 + uint32_t(a.below(60)), body);
            del(*o);
        }
        vs::inject(0, {});
        if (inj) count("replaced_during_destruction");
        else body();
        env.discover();
        env.discover();
        if (pub) ns = mkSub(x, true), att2();
        else np = mkPub(x, true);
        env.discover();
        env.discover();
        query(*np);
        query(*ns);
        void* p = nullptr;
        if (np->c) out(nm(iox_pub_loan_chunk(np->h, &p, 8)));
        else
        {
            auto e = np->p->loan(8, 8, 0, 1);
            out(rs(e));
            if (!e.has_error()) p = e.value();
        }
        if (p)
        {
            writePayload(p, 1);
            if (np->c) iox_pub_publish_chunk(np->h, p);
            else np->p->publish(p);
        }
        if (consumersC)
        {
            iox_notification_info_t arr[4];
            uint64_t missed, n = iox_ws_timed_wait(cws2, {0, 0}, arr, 4, &missed);
            out(fmt("notified %lu", (unsigned long)n));
        }
        else
        {
            auto v = ws2->timedWait(units::Duration::fromNanoseconds(0));
            out(fmt("notified %lu", (unsigned long)v.size()));
        }
        take(*ns);
        while (!ns->held.empty()) rel(*ns, 0);
        del(*np);
        del(*ns);
        if (cws2) iox_ws_deinit(cws2);
        delete ws2;
        env.discover();
        env.discover();
    }
    // ------------------------------------------------------------ the history
    template <typename V>
    bool any(V& v) { return !v.empty(); }
    void step()
    {
        unsigned d = unsigned(r.below(1000));
        size_t ns = sd.size() - 1;
        if (d < 60)
        {
            if (pubs.size() > 4) return;
            unsigned s = unsigned(r.below(ns));
            op(fmt("newP%u(%u)", counter, s));
            named(pubs, mkPub(s));
        }
        else if (d < 120)
        {
            if (subs.size() > 5) return;
            unsigned s = unsigned(r.below(ns));
            op(fmt("newS%u(%u)", counter, s));
            named(subs, mkSub(s));
        }
        else if (d < 160)
        {
            if (clis.size() > 3) return;
            unsigned s = unsigned(r.below(ns));
            op(fmt("newC%u(%u)", counter, s));
            named(clis, mkCli(s));
        }
        else if (d < 200)
        {
            unsigned s = unsigned(r.below(ns));
            for (auto& v : srvs)
                if (v->s == s) return;
            op(fmt("newV%u(%u)", counter, s));
            named(srvs, mkSrv(s));
        }
        else if (d < 215)
        {
            if (trgs.size() > 2) return;
            op(fmt("newT%u", counter));
            named(trgs, mkTrg());
        }
        else if (d < 245)
        {
            // destroy one
            quiesce();
            unsigned k = unsigned(r.below(5));
            auto kill = [&](auto& v) {
                if (v.empty()) return;
                size_t i = r.below(v.size());
                op(fmt("~%c%u", v[i]->kind(), v[i]->no));
                del(*v[i]);
                bool now = v[i]->kind() == 'V' || v[i]->kind() == 'S' || v[i]->kind() == 'C';
                v.erase(v.begin() + long(i));
                // a server's service can be used again only after that, and the queue of a consumer blocks its producers until then
                if (now) env.discover();
            };
            if (k == 0) kill(pubs);
            else if (k == 1) kill(subs);
            else if (k == 2) kill(clis);
            else if (k == 3) kill(srvs);
            else kill(trgs);
        }
        else if (d < 320)
        {
            op("discover");
            env.discover();
        }
        else if (d < 520 && any(pubs))
        {
            auto& o = *pubs[r.below(pubs.size())];
            unsigned k = unsigned(r.below(14));
            if (k < 5)
            {
                op(fmt("P%u.loan", o.no));
                loan(o);
            }
            else if (k < 10)
            {
                if (o.loans.empty()) return;
                size_t i = r.below(o.loans.size());
                op(fmt("P%u.publish", o.no));
                publish(o, i);
            }
            else if (k == 10)
            {
                if (o.loans.empty()) return;
                op(fmt("P%u.release", o.no));
                relLoan(o, r.below(o.loans.size()));
            }
            else if (k == 11)
            {
                op(fmt("P%u.offer", o.no));
                o.c ? iox_pub_offer(o.h) : o.p->offer();
            }
            else if (k == 12)
            {
                op(fmt("P%u.stop", o.no));
                o.c ? iox_pub_stop_offer(o.h) : o.p->stopOffer();
            }
            else query(o);
        }
        else if (d < 660 && any(subs))
        {
            auto& o = *subs[r.below(subs.size())];
            unsigned k = unsigned(r.below(14));
            if (k < 6)
            {
                op(fmt("S%u.take", o.no));
                take(o);
            }
            else if (k < 9)
            {
                if (o.held.empty()) return;
                op(fmt("S%u.release", o.no));
                rel(o, r.below(o.held.size()));
            }
            else if (k == 9)
            {
                op(fmt("S%u.releaseQueued", o.no));
                relQueued(o);
            }
            else if (k == 10)
            {
                op(fmt("S%u.subscribe", o.no));
                o.c ? iox_sub_subscribe(o.h) : o.p->subscribe();
            }
            else if (k == 11)
            {
                op(fmt("S%u.unsubscribe", o.no));
                o.c ? iox_sub_unsubscribe(o.h) : o.p->unsubscribe();
            }
            else query(o);
        }
        else if (d < 760 && any(clis))
        {
            auto& o = *clis[r.below(clis.size())];
            unsigned k = unsigned(r.below(16));
            if (k < 4)
            {
                op(fmt("C%u.loan", o.no));
                loanReq(o);
            }
            else if (k < 8)
            {
                if (o.loans.empty()) return;
                op(fmt("C%u.send", o.no));
                send(o, r.below(o.loans.size()));
            }
            else if (k == 8)
            {
                if (o.loans.empty()) return;
                op(fmt("C%u.releaseReq", o.no));
                relReq(o, r.below(o.loans.size()));
            }
            else if (k < 11)
            {
                op(fmt("C%u.take", o.no));
                take(o);
            }
            else if (k == 11)
            {
                if (o.held.empty()) return;
                op(fmt("C%u.release", o.no));
                rel(o, r.below(o.held.size()));
            }
            else if (k == 12)
            {
                op(fmt("C%u.releaseQueued", o.no));
                relQueued(o);
            }
            else if (k == 13)
            {
                op(fmt("C%u.connect", o.no));
                o.c ? iox_client_connect(o.h) : o.p->connect();
            }
            else if (k == 14)
            {
                op(fmt("C%u.disconnect", o.no));
                o.c ? iox_client_disconnect(o.h) : o.p->disconnect();
            }
            else query(o);
        }
        else if (d < 850 && any(srvs))
        {
            auto& o = *srvs[r.below(srvs.size())];
            unsigned k = unsigned(r.below(18));
            if (k < 5)
            {
                op(fmt("V%u.take", o.no));
                take(o);
            }
            else if (k < 9)
            {
                if (o.held.empty()) return;
                op(fmt("V%u.loan", o.no));
                loanResp(o, r.below(o.held.size()));
            }
            else if (k < 13)
            {
                if (o.loans.empty()) return;
                op(fmt("V%u.send", o.no));
                send(o, r.below(o.loans.size()));
            }
            else if (k == 13)
            {
                if (o.loans.empty()) return;
                op(fmt("V%u.releaseResp", o.no));
                relResp(o, r.below(o.loans.size()));
            }
            else if (k == 14)
            {
                if (o.held.empty()) return;
                op(fmt("V%u.release", o.no));
                rel(o, r.below(o.held.size()));
            }
            else if (k == 15)
            {
                op(fmt("V%u.offer", o.no));
                o.c ? iox_server_offer(o.h) : o.p->offer();
            }
            else if (k == 16)
            {
                op(fmt("V%u.stop", o.no));
                o.c ? iox_server_stop_offer(o.h) : o.p->stopOffer();
                if (r.chance(300)) relQueued(o);
            }
            else query(o);
        }
        else if (d < 930)
        {
            auto v = attachable();
            auto& o = *v[r.below(v.size())];
            unsigned k = unsigned(r.below(10));
            if (k < 4)
            {
                if (o.ls) return; // one of the two only
                op(fmt("attach(%c%u)", o.kind(), o.no));
                attachWs(o);
            }
            else if (k == 4)
            {
                if (!o.ws) return;
                op(fmt("detach(%c%u)", o.kind(), o.no));
                detachWs(o);
            }
            else if (k < 8)
            {
                if (o.ws) return;
                op(fmt("listen(%c%u)", o.kind(), o.no));
                attachLs(o);
            }
            else
            {
                if (!o.ls) return;
                op(fmt("unlisten(%c%u)", o.kind(), o.no));
                detachLs(o);
            }
        }
        else if (d < 960)
        {
            op("wait");
            waitWs();
        }
        else if (d < 970)
        {
            if (trgs.empty()) return;
            auto& t = *trgs[r.below(trgs.size())];
            op(fmt("T%u.trigger", t.no));
            trigger(t);
            if (!t.ls) // whoever listens resets it at any time
            {
                bool h = t.c ? iox_user_trigger_has_triggered(t.h) : t.p->hasTriggered();
                out(fmt("triggered %d", h));
            }
        }
        else if (d < 975)
        {
            op("find");
            find();
        }
        else if (d < 992)
            destroyAndReplace();
        else
            sizes();
        if (r.chance(30)) quiesce();
    }
    void run()
    {
        auto& rt = env.app("app");
        rt.onCreate = [&](const std::string& s) { out(s); };
        g_lcb.clear();
        g_names.clear();
        std::vector<std::string> parts;
        bool longNames = r.chance(200);
        for (int i = 0; i < 4; ++i)
        {
            auto mk = [&](char c) { return longNames && r.chance(500) ? std::string(r.chance(700) ? 100 : 99, c) : std::string(1, c); };
            sd.push_back(svc(mk('s') + (longNames ? "" : ""), mk('i'), fmt("%d", i) + mk('e').substr(0, 99)));
        }
        if (consumersC)
        {
            cws = iox_ws_init(&wst);
            cls = iox_listener_init(&lst);
        }
        else
        {
            ws = new WaitSet<>();
            ls = new Listener();
        }
        dis = std::make_unique<Dis>();
        dis->no = counter++;
        dis->c = consumersC;
        if (dis->c) dis->h = iox_service_discovery_init(&dis->st);
        else dis->p = new ServiceDiscovery();
        reg(*dis);
        sentinel = mkTrg();
        reg(*sentinel);
        if (consumersC) out(nm(iox_listener_attach_user_trigger_event(cls, sentinel->h, lTrgC)));
        else out(rs(ls->attachEvent(*sentinel->p, createNotificationCallback(lTrgP))));
        env.discover();
        bool many = r.chance(40);
        size_t steps = 20 + r.below(120);
        for (size_t i = 0; i < steps; ++i) step();
        if (many) manyHeld();
        quiesce();
        waitWs();
        for (auto& o : pubs) query(*o);
        for (auto& o : subs) query(*o);
        for (auto& o : clis) query(*o);
        for (auto& o : srvs) query(*o);
        sizes();
        // destroy everything, attachments included, in some order
        for (auto& o : pubs) del(*o);
        for (auto& o : subs) del(*o);
        for (auto& o : clis) del(*o);
        for (auto& o : srvs) del(*o);
        for (auto& o : trgs) del(*o);
        del(*sentinel);
        unreg(*dis);
        if (dis->c) iox_service_discovery_deinit(dis->h);
        else delete dis->p;
        sizes();
        if (cws)
        {
            iox_ws_deinit(cws);
            iox_listener_deinit(cls);
        }
        delete ws;
        delete ls;
        env.discover();
        env.discover();
        env.app("app").onCreate = nullptr;
        out("end");
        VH_CHECK(!second || at == log.size(), "missing", "the C++ API gave more results than the C API; %s", hist.c_str());
    }
    // limits: chunks held and loaned in parallel
    void manyHeld()
    {
        op("many");
        unsigned x = unsigned(sd.size() - 1);
        auto p = mkPub(x, true);
        auto s = mkSub(x, true);
        env.discover();
        env.discover();
        for (int i = 0; i < 270; ++i)
        {
            void* c = nullptr;
            if (p->c)
            {
                auto e = iox_pub_loan_chunk(p->h, &c, 8);
                if (e != AllocationResult_SUCCESS) { out(nm(e)); break; }
                memset(c, i, 8);
                iox_pub_publish_chunk(p->h, c);
            }
            else
            {
                auto e = p->p->loan(8, 8, 0, 1);
                if (e.has_error()) { out(rs(e)); break; }
                memset(e.value(), i, 8);
                p->p->publish(e.value());
            }
            take(*s);
        }
        count("limits_reached");
        del(*p);
        del(*s);
        env.discover();
        env.discover();
    }
};

void constants()
{
#define K(f, v) VH_CHECK(f() == (v), "constant", #f "() is %lu instead of %lu", (unsigned long)f(), (unsigned long)(v))
    K(iox_cfg_max_publishers, MAX_PUBLISHERS);
    K(iox_cfg_max_subscribers_per_publisher, MAX_SUBSCRIBERS_PER_PUBLISHER);
    K(iox_cfg_max_chunks_allocated_per_publisher_simultaneously, MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY);
    K(iox_cfg_max_publisher_history, MAX_PUBLISHER_HISTORY);
    K(iox_cfg_max_subscribers, MAX_SUBSCRIBERS);
    K(iox_cfg_max_chunks_held_per_subscriber_simultaneously, MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY);
    K(iox_cfg_max_subscriber_queue_capacity, MAX_SUBSCRIBER_QUEUE_CAPACITY);
    K(iox_cfg_max_number_of_condition_variables, MAX_NUMBER_OF_CONDITION_VARIABLES);
    K(iox_cfg_max_number_of_notifiers_per_condition_variable, MAX_NUMBER_OF_NOTIFIERS);
    K(iox_cfg_max_number_of_attachments_per_waitset, MAX_NUMBER_OF_ATTACHMENTS_PER_WAITSET);
    K(iox_cfg_max_number_of_events_per_listener, MAX_NUMBER_OF_EVENTS_PER_LISTENER);
    K(iox_cfg_max_number_of_mempools, MAX_NUMBER_OF_MEMPOOLS);
    K(iox_cfg_max_shm_segments, MAX_SHM_SEGMENTS);
    K(iox_cfg_max_number_of_memory_provider, MAX_NUMBER_OF_MEMORY_PROVIDER);
    K(iox_cfg_max_number_of_memory_blocks_per_memory_provider, MAX_NUMBER_OF_MEMORY_BLOCKS_PER_MEMORY_PROVIDER);
    K(iox_cfg_chunk_default_user_payload_alignment, CHUNK_DEFAULT_USER_PAYLOAD_ALIGNMENT);
    K(iox_cfg_no_user_header_size, CHUNK_NO_USER_HEADER_SIZE);
    K(iox_cfg_no_user_header_alignment, CHUNK_NO_USER_HEADER_ALIGNMENT);
    K(iox_cfg_max_process_number, MAX_PROCESS_NUMBER);
    K(iox_cfg_service_registry_capacity, SERVICE_REGISTRY_CAPACITY);
    K(iox_cfg_max_findservice_result_size, MAX_FINDSERVICE_RESULT_SIZE);
    K(iox_cfg_max_runtime_name_length, MAX_RUNTIME_NAME_LENGTH);
    static const struct
    {
        iox_LogLevel c;
        iox::log::LogLevel p;
    } L[] = {{Iceoryx_LogLevel_Fatal, iox::log::LogLevel::Fatal}, {Iceoryx_LogLevel_Error, iox::log::LogLevel::Error}, {Iceoryx_LogLevel_Warn, iox::log::LogLevel::Warn}, {Iceoryx_LogLevel_Info, iox::log::LogLevel::Info}, {Iceoryx_LogLevel_Debug, iox::log::LogLevel::Debug}, {Iceoryx_LogLevel_Trace, iox::log::LogLevel::Trace}, {Iceoryx_LogLevel_Off, iox::log::LogLevel::Off}};
    for (auto& l : L)
    {
        iox_set_loglevel(l.c);
        VH_CHECK(iox::log::Logger::getLogLevel() == l.p, "loglevel", "log level %d becomes %d", int(l.c), int(iox::log::Logger::getLogLevel()));
    }
}
void misuse(Env& env, Rng& r)
{
    env.app("app");
    // options which were never initialised are recognised instead of used
    int b = int(r.below(256));
    iox_pub_options_t po;
    iox_sub_options_t so;
    iox_client_options_t co;
    iox_server_options_t vo;
    memset(&po, b, sizeof po);
    memset(&so, b, sizeof so);
    memset(&co, b, sizeof co);
    memset(&vo, b, sizeof vo);
    po.offerOnCreate = so.subscribeOnCreate = so.requirePublisherHistorySupport = co.connectOnCreate = vo.offerOnCreate = true;
    iox_pub_storage_t ps;
    iox_sub_storage_t ss;
    iox_client_storage_t cst;
    iox_server_storage_t vs_;
    switch (r.below(4))
    {
    case 0: VH_TERMINATES(iox_pub_init(&ps, "a", "b", "c", &po), "uninitialised", "publisher options filled with %d", b); break;
    case 1: VH_TERMINATES(iox_sub_init(&ss, "a", "b", "c", &so), "uninitialised", "subscriber options filled with %d", b); break;
    case 2: VH_TERMINATES(iox_client_init(&cst, "a", "b", "c", &co), "uninitialised", "client options filled with %d", b); break;
    default: VH_TERMINATES(iox_server_init(&vs_, "a", "b", "c", &vo), "uninitialised", "server options filled with %d", b); break;
    }
    count("misuse");
}
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "random histories executed with the C++ API and again with the C API, all results compared; distinct = different histories");
    constants();
    IceoryxConfig cfg = roudi_env::MinimalIceoryxConfigBuilder().payloadChunkCount(450).payloadChunkSize(256).discoveryChunkCount(20).introspectionChunkCount(20).create();
    Env env(cfg);
    vs::realTime(true);
    vs::setTimeScale(0);
    env.discover();
    int rc = runCases([&](uint64_t seed, uint64_t) {
        Rng r(seed);
        if (r.chance(20)) misuse(env, r);
        std::vector<std::string> log;
        {
            Run run(env, seed, false, log);
            ctx().trace = &run.hist;
            run.run();
        }
        Run run(env, seed, true, log);
        ctx().trace = &run.hist;
        run.run();
        ctx().trace = nullptr;
        distinct(std::hash<std::string>()(run.hist));
        if (r.chance(2)) sample(run.hist.substr(0, 300));
    });
    vs::setTimeScale(1);
    return rc;
}
