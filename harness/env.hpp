// A real daemon (RouDi with its threads, IPC channel and shared memory) in this process, in a domain of its own, and any
// number of applications (runtimes) registered at it. The endpoints are the public classes.
#pragma once
#include "common.hpp"
#include "iceoryx_posh/internal/runtime/posh_runtime_impl.hpp"
#include "iceoryx_posh/popo/listener.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
#include "iceoryx_posh/roudi_env/minimal_iceoryx_config.hpp"
#include "iceoryx_posh/roudi_env/roudi_env.hpp"
#include "iceoryx_posh/runtime/posh_runtime.hpp"
#include "iceoryx_posh/runtime/service_discovery.hpp"
#include "iox/logging.hpp"
#include <dirent.h>
#include <functional>
#include <map>
#include <memory>
#include <unistd.h>

namespace ve
{
using namespace iox;
using vh::fmt;

inline uint16_t& domainNo()
{
    static uint16_t d = uint16_t(2000 + getpid() % 60000);
    return d;
}

struct Runtime : runtime::PoshRuntimeImpl
{
    Runtime(const RuntimeName_t& name)
        : PoshRuntimeImpl(optional<const RuntimeName_t*>(&name), DomainId{domainNo()}, runtime::RuntimeLocation::SAME_PROCESS_LIKE_ROUDI)
    {
    }
    // what the endpoints ask the runtime for
    std::function<void(const std::string&)> onCreate;
    void tell(const std::string& s) { if (onCreate) onCreate(s); }
    PublisherPortUserType::MemberType_t* getMiddlewarePublisher(const capro::ServiceDescription& s, const popo::PublisherOptions& o, const runtime::PortConfigInfo& c) noexcept override
    {
        tell(fmt("publisher[history %lu node '%s' offer %d slow %d]", (unsigned long)o.historyCapacity, o.nodeName.c_str(), o.offerOnCreate, int(o.subscriberTooSlowPolicy)));
        return PoshRuntimeImpl::getMiddlewarePublisher(s, o, c);
    }
    SubscriberPortUserType::MemberType_t* getMiddlewareSubscriber(const capro::ServiceDescription& s, const popo::SubscriberOptions& o, const runtime::PortConfigInfo& c) noexcept override
    {
        tell(fmt("subscriber[queue %lu history %lu node '%s' subscribe %d full %d require %d]", (unsigned long)o.queueCapacity, (unsigned long)o.historyRequest, o.nodeName.c_str(), o.subscribeOnCreate, int(o.queueFullPolicy), o.requiresPublisherHistorySupport));
        return PoshRuntimeImpl::getMiddlewareSubscriber(s, o, c);
    }
    popo::ClientPortData* getMiddlewareClient(const capro::ServiceDescription& s, const popo::ClientOptions& o, const runtime::PortConfigInfo& c) noexcept override
    {
        tell(fmt("client[queue %lu node '%s' connect %d full %d slow %d]", (unsigned long)o.responseQueueCapacity, o.nodeName.c_str(), o.connectOnCreate, int(o.responseQueueFullPolicy), int(o.serverTooSlowPolicy)));
        return PoshRuntimeImpl::getMiddlewareClient(s, o, c);
    }
    popo::ServerPortData* getMiddlewareServer(const capro::ServiceDescription& s, const popo::ServerOptions& o, const runtime::PortConfigInfo& c) noexcept override
    {
        tell(fmt("server[queue %lu node '%s' offer %d full %d slow %d]", (unsigned long)o.requestQueueCapacity, o.nodeName.c_str(), o.offerOnCreate, int(o.requestQueueFullPolicy), int(o.clientTooSlowPolicy)));
        return PoshRuntimeImpl::getMiddlewareServer(s, o, c);
    }
    static runtime::PoshRuntime*& active()
    {
        static thread_local runtime::PoshRuntime* r = nullptr;
        return r;
    }
    static runtime::PoshRuntime& factory(optional<const RuntimeName_t*>)
    {
        VH_CHECK(active() != nullptr, "harness", "no active runtime");
        return *active();
    }
    static void install() { setRuntimeFactory(factory); }
};

struct Env
{
    std::unique_ptr<roudi_env::RouDiEnv> env;
    std::map<std::string, std::unique_ptr<Runtime>> rts;
    explicit Env(const IceoryxConfig& cfg)
    {
        iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
        iox::experimental::hasExperimentalPoshFeaturesEnabled(true); // without it there is one domain only
        env.reset(new roudi_env::RouDiEnv(DomainId{domainNo()}, cfg));
        // a trigger given before the discovery thread is ready is lost
        env->setDiscoveryLoopWaitToFinishTimeout(units::Duration::fromMilliseconds(300));
        for (int i = 0; i < 3; ++i) env->triggerDiscoveryLoopAndWaitToFinish();
        env->setDiscoveryLoopWaitToFinishTimeout(units::Duration::fromSeconds(6000));
        Runtime::install();
    }
    ~Env()
    {
        rts.clear();
        env.reset();
    }
    void discover() { env->triggerDiscoveryLoopAndWaitToFinish(); }
    Runtime& app(const std::string& n)
    {
        auto& r = rts[n];
        if (!r) r.reset(new Runtime(RuntimeName_t(TruncateToCapacity, n.c_str())));
        Runtime::active() = r.get();
        return *r;
    }
    void kill(const std::string& n)
    {
        Runtime::active() = nullptr;
        rts.erase(n);
    }
};
inline capro::IdString_t id(const std::string& s) { return capro::IdString_t(TruncateToCapacity, s.c_str()); }
inline capro::ServiceDescription svc(const std::string& a, const std::string& b, const std::string& c) { return {id(a), id(b), id(c)}; }
} // namespace ve
