// A complete daemon-side world in one process without OS resources: port pool, port manager and payload pools on heap
// memory of exact size (ASan guards the borders). User endpoints are the real publisher/subscriber/client/server classes.
#pragma once
#include "common.hpp"
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/internal/popo/client_impl.hpp"
#include "iceoryx_posh/internal/popo/publisher_impl.hpp"
#include "iceoryx_posh/internal/popo/server_impl.hpp"
#include "iceoryx_posh/internal/popo/subscriber_impl.hpp"
#include "iceoryx_posh/internal/popo/untyped_client_impl.hpp"
#include "iceoryx_posh/internal/popo/untyped_publisher_impl.hpp"
#include "iceoryx_posh/internal/popo/untyped_server_impl.hpp"
#include "iceoryx_posh/internal/popo/untyped_subscriber_impl.hpp"
#include "iceoryx_posh/internal/roudi/port_manager.hpp"
#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iceoryx_posh/popo/client.hpp"
#include "iceoryx_posh/popo/listener.hpp"
#include "iceoryx_posh/popo/publisher.hpp"
#include "iceoryx_posh/popo/server.hpp"
#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
#include "iceoryx_posh/roudi/introspection_types.hpp"
#include "iceoryx_posh/roudi/memory/roudi_memory_interface.hpp"
#include "iceoryx_posh/roudi/port_pool.hpp"
#include "iox/bump_allocator.hpp"
#include "iox/logging.hpp"
#include <memory>

namespace vw
{
using namespace iox;
using vh::fmt;

// memory pools on two heap blocks of exactly the required size
struct Pools
{
    std::unique_ptr<uint8_t[]> mgmtRaw, memRaw;
    uint8_t *mgmt{nullptr}, *mem{nullptr};
    uint64_t memSize{0};
    std::unique_ptr<mepoo::MemoryManager> mm;
    mepoo::MePooConfig cfg;
    static uint8_t* aligned(std::unique_ptr<uint8_t[]>& raw, uint64_t size)
    {
        // new[] aligns to 16; the block is given with exactly this size so that ASan sees any overrun
        raw.reset(new uint8_t[size]);
        memset(raw.get(), 0, size);
        return raw.get();
    }
    explicit Pools(const std::vector<std::pair<uint64_t, uint32_t>>& pools)
    {
        for (auto& p : pools) cfg.addMemPool({p.first, p.second});
        cfg.optimize();
        uint64_t ms = mepoo::MemoryManager::requiredManagementMemorySize(cfg);
        memSize = mepoo::MemoryManager::requiredChunkMemorySize(cfg);
        mgmt = aligned(mgmtRaw, ms);
        mem = aligned(memRaw, memSize);
        mm.reset(new mepoo::MemoryManager());
        BumpAllocator ma(mgmt, ms);
        BumpAllocator ca(mem, memSize);
        mm->configureMemoryManager(cfg, ma, ca);
    }
    uint32_t n() const { return mm->getNumberOfMemPools(); }
    mepoo::MemPoolInfo info(uint32_t i) const { return mm->getMemPoolInfo(i); }
    // index of the pool whose memory contains this address
    uint32_t poolOf(const void* p) const
    {
        uint64_t off = uint64_t(static_cast<const uint8_t*>(p) - mem);
        for (uint32_t i = 0; i < n(); ++i)
        {
            auto inf = info(i);
            uint64_t sz = inf.m_chunkSize * inf.m_numChunks;
            if (off < sz) return i;
            off -= sz;
        }
        vh::fail("outside-pool", fmt("address %p is not inside any pool", p));
    }
    uint32_t smallestFitting(uint64_t chunkSize) const
    {
        for (uint32_t i = 0; i < n(); ++i)
            if (info(i).m_chunkSize >= chunkSize) return i;
        return n();
    }
};

class HeapMemory : public roudi::RouDiMemoryInterface
{
  public:
    std::unique_ptr<roudi::PortPoolData> ppd{new roudi::PortPoolData(roudi::DEFAULT_UNIQUE_ROUDI_ID)};
    std::unique_ptr<roudi::PortPool> pp{new roudi::PortPool(*ppd)};
    Pools intro;
    Pools disco;
    HeapMemory()
        : intro({{(sizeof(roudi::SubscriberPortChangingIntrospectionFieldTopic) + 7) / 8 * 8, 2},
                 {(sizeof(roudi::PortThroughputIntrospectionFieldTopic) + 7) / 8 * 8, 2},
                 {(sizeof(roudi::PortIntrospectionFieldTopic) + 7) / 8 * 8, 2}})
        , disco({{(sizeof(roudi::ServiceRegistry) + 7) / 8 * 8, 10}})
    {
    }
    expected<void, roudi::RouDiMemoryManagerError> createAndAnnounceMemory() noexcept override { return ok(); }
    expected<void, roudi::RouDiMemoryManagerError> destroyMemory() noexcept override { return ok(); }
    const roudi::PosixShmMemoryProvider* mgmtMemoryProvider() const noexcept override { return nullptr; }
    optional<roudi::PortPool*> portPool() noexcept override { return pp.get(); }
    optional<mepoo::MemoryManager*> introspectionMemoryManager() const noexcept override { return intro.mm.get(); }
    optional<mepoo::MemoryManager*> discoveryMemoryManager() const noexcept override { return disco.mm.get(); }
    optional<roudi::HeartbeatPool*> heartbeatPool() const noexcept override { return nullopt; }
    optional<mepoo::SegmentManager<>*> segmentManager() const noexcept override { return nullopt; }
};

struct World
{
    HeapMemory mem;
    std::unique_ptr<roudi::PortManager> pm;
    uint64_t basePubs{0};
    World()
    {
        iox::log::Logger::setLogLevel(iox::log::LogLevel::Fatal);
        pm.reset(new roudi::PortManager(&mem));
        pm->stopPortIntrospection();
        basePubs = mem.pp->getPublisherPortDataList().size();
    }
    static World& get()
    {
        static World* w = new World();
        return *w;
    }
    void discover() { pm->doDiscovery(); }
    // everything user made is gone?
    void checkNoPorts(const char* when)
    {
        auto& p = *mem.pp;
        VH_CHECK(p.getPublisherPortDataList().size() == basePubs && p.getSubscriberPortDataList().size() == 0
                     && p.getClientPortDataList().size() == 0 && p.getServerPortDataList().size() == 0
                     && p.getConditionVariableDataList().size() == 0,
                 "port-leak", "%s: ports remain after all owners are gone: %llu publishers %llu subscribers %llu clients %llu servers %llu condition variables", when,
                 (unsigned long long)(p.getPublisherPortDataList().size() - basePubs), (unsigned long long)p.getSubscriberPortDataList().size(),
                 (unsigned long long)p.getClientPortDataList().size(), (unsigned long long)p.getServerPortDataList().size(),
                 (unsigned long long)p.getConditionVariableDataList().size());
    }
};

inline RuntimeName_t appName(unsigned i) { return RuntimeName_t(TruncateToCapacity, fmt("app%u", i).c_str()); }
inline capro::ServiceDescription svc(const char* s, const char* i, const char* e)
{
    return capro::ServiceDescription(capro::IdString_t(TruncateToCapacity, s), capro::IdString_t(TruncateToCapacity, i),
                                     capro::IdString_t(TruncateToCapacity, e));
}

// the real user classes, constructed on a port instead of through a runtime
struct UPub : popo::UntypedPublisherImpl<>
{
    explicit UPub(PublisherPortUserType::MemberType_t* d)
        : popo::UntypedPublisherImpl<>(PublisherPortUserType(d)) {}
    auto& thePort() { return this->port(); }
};
struct USub : popo::UntypedSubscriberImpl<>
{
    explicit USub(SubscriberPortUserType::MemberType_t* d)
        : popo::UntypedSubscriberImpl<>(SubscriberPortUserType(d)) {}
    auto& thePort() { return this->port(); }
};
struct UClient : popo::UntypedClientImpl<>
{
    explicit UClient(popo::ClientPortData* d)
        : popo::UntypedClientImpl<>(popo::ClientPortUser(*d)) {}
};
struct UServer : popo::UntypedServerImpl<>
{
    explicit UServer(popo::ServerPortData* d)
        : popo::UntypedServerImpl<>(popo::ServerPortUser(*d)) {}
};
template <typename T, typename H = mepoo::NoUserHeader>
struct TPub : popo::PublisherImpl<T, H>
{
    explicit TPub(PublisherPortUserType::MemberType_t* d)
        : popo::PublisherImpl<T, H>(PublisherPortUserType(d)) {}
};
template <typename T, typename H = mepoo::NoUserHeader>
struct TSub : popo::SubscriberImpl<T, H>
{
    explicit TSub(SubscriberPortUserType::MemberType_t* d)
        : popo::SubscriberImpl<T, H>(SubscriberPortUserType(d)) {}
};
template <typename Q, typename S>
struct TClient : popo::ClientImpl<Q, S>
{
    explicit TClient(popo::ClientPortData* d)
        : popo::ClientImpl<Q, S>(popo::ClientPortUser(*d)) {}
};
template <typename Q, typename S>
struct TServer : popo::ServerImpl<Q, S>
{
    explicit TServer(popo::ServerPortData* d)
        : popo::ServerImpl<Q, S>(popo::ServerPortUser(*d)) {}
};
template <uint64_t N>
struct WSet : popo::WaitSet<N>
{
    explicit WSet(popo::ConditionVariableData& d)
        : popo::WaitSet<N>(d) {}
};

// objects which may "crash": destroyed without their destructor being run
template <typename T>
struct Abandonable
{
    alignas(T) unsigned char buf[sizeof(T)];
    bool live{false};
    template <typename... A>
    T& make(A&&... a)
    {
        new (buf) T(std::forward<A>(a)...);
        live = true;
        return get();
    }
    T& get() { return *reinterpret_cast<T*>(buf); }
    T* operator->() { return &get(); }
    void destroy()
    {
        if (live)
        {
            live = false;
            get().~T();
        }
    }
    void abandon() { live = false; }
    Abandonable() = default;
    Abandonable(const Abandonable&) = delete;
    ~Abandonable() { VH_CHECK(!live, "harness", "object neither destroyed nor abandoned"); }
};

// payload pattern
inline void fill(void* p, uint64_t n, uint64_t id)
{
    auto* b = static_cast<uint8_t*>(p);
    for (uint64_t i = 0; i < n; ++i) b[i] = uint8_t((id * 0x9E3779B97F4A7C15ull) >> ((i % 8) * 8)) ^ uint8_t(i * 31);
}
inline int64_t mismatch(const void* p, uint64_t n, uint64_t id)
{
    auto* b = static_cast<const uint8_t*>(p);
    for (uint64_t i = 0; i < n; ++i)
        if (b[i] != (uint8_t((id * 0x9E3779B97F4A7C15ull) >> ((i % 8) * 8)) ^ uint8_t(i * 31))) return int64_t(i);
    return -1;
}
inline bool compatible(const popo::PublisherOptions& p, const popo::SubscriberOptions& s)
{
    bool policy = !(p.subscriberTooSlowPolicy == popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA
                    && s.queueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER);
    bool hist = !s.requiresPublisherHistorySupport || p.historyCapacity > 0;
    return policy && hist;
}
} // namespace vw
