// Introspection topics of a real daemon against the exact list of applications, ports and loaned chunks. The daemon's
// periodic tasks run 50 times faster than configured. Serves C24.
#include "env.hpp"
#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/roudi/introspection_types.hpp"
#include "sched.hpp"
#include <algorithm>
#include <set>

using namespace vh;
using namespace ve;

namespace
{
struct Pub
{
    unsigned app{0}, s{0};
    popo::PublisherOptions o;
    popo::UntypedPublisher* p{nullptr};
    std::vector<std::pair<void*, unsigned>> loans; // chunk and pool
};
struct Sub
{
    unsigned app{0}, s{0};
    popo::SubscriberOptions o;
    popo::UntypedSubscriber* p{nullptr};
};
const std::vector<std::pair<uint32_t, uint32_t>> POOLS{{64, 12}, {256, 7}, {1024, 3}};

struct Observer
{
    popo::Subscriber<roudi::PortIntrospectionFieldTopic> port{roudi::IntrospectionPortService, popo::SubscriberOptions{1U, 1U}};
    popo::Subscriber<roudi::SubscriberPortChangingIntrospectionFieldTopic> chg{roudi::IntrospectionSubscriberPortChangingDataService, popo::SubscriberOptions{1U, 1U}};
    popo::Subscriber<roudi::ProcessIntrospectionFieldTopic> proc{roudi::IntrospectionProcessService, popo::SubscriberOptions{1U, 1U}};
    popo::Subscriber<roudi::MemPoolIntrospectionInfoContainer> mem{roudi::IntrospectionMempoolService, popo::SubscriberOptions{1U, 1U}};
    std::unique_ptr<roudi::PortIntrospectionFieldTopic> portT{new roudi::PortIntrospectionFieldTopic()};
    std::unique_ptr<roudi::SubscriberPortChangingIntrospectionFieldTopic> chgT{new roudi::SubscriberPortChangingIntrospectionFieldTopic()};
    std::unique_ptr<roudi::ProcessIntrospectionFieldTopic> procT{new roudi::ProcessIntrospectionFieldTopic()};
    std::unique_ptr<roudi::MemPoolIntrospectionInfoContainer> memT{new roudi::MemPoolIntrospectionInfoContainer()};
    uint64_t nPort{0}, nChg{0}, nProc{0}, nMem{0};
    void poll()
    {
        port.take().and_then([&](auto& s) { *portT = *s; ++nPort; });
        chg.take().and_then([&](auto& s) { *chgT = *s; ++nChg; });
        proc.take().and_then([&](auto& s) { *procT = *s; ++nProc; });
        mem.take().and_then([&](auto& s) { *memT = *s; ++nMem; });
    }
};
using Lines = std::multiset<std::string>;

struct Case
{
    Rng r;
    Env& env;
    Observer& ob;
    std::string hist;
    std::vector<capro::ServiceDescription> names;
    std::vector<std::unique_ptr<Pub>> pubs;
    std::vector<std::unique_ptr<Sub>> subs;
    std::vector<uint32_t> used, *minFree;
    unsigned nApps{1};
    const Lines *basePubs, *baseSubs;
    Case(uint64_t s, Env& e, Observer& o, const Lines* bp, const Lines* bs, std::vector<uint32_t>* mf)
        : r(s), env(e), ob(o), used(POOLS.size()), minFree(mf), basePubs(bp), baseSubs(bs) {}
#define CK(cond, key, ...) VH_CHECK(cond, key, "%s; %s", vh::fmt(__VA_ARGS__).c_str(), hist.c_str())
    std::string app(unsigned a) { return fmt("app%u", a); }
    static std::string key(const capro::IdString_t& a, const capro::IdString_t& b, const capro::IdString_t& c)
    {
        return std::string(a.c_str()) + "/" + b.c_str() + "/" + c.c_str();
    }
    static std::string key(const capro::ServiceDescription& s) { return key(s.getServiceIDString(), s.getInstanceIDString(), s.getEventIDString()); }
    static std::string line(const std::string& app, const std::string& svc, const popo::PublisherOptions& o, uint64_t uid)
    {
        return fmt("%s %s hist%llu node%s on%d slow%d id%llu", app.c_str(), svc.c_str(), (unsigned long long)o.historyCapacity, o.nodeName.c_str(), int(o.offerOnCreate), int(o.subscriberTooSlowPolicy), (unsigned long long)uid);
    }
    static std::string line(const std::string& app, const std::string& svc, const popo::SubscriberOptions& o)
    {
        return fmt("%s %s q%llu hist%llu node%s on%d full%d req%d", app.c_str(), svc.c_str(), (unsigned long long)o.queueCapacity, (unsigned long long)o.historyRequest, o.nodeName.c_str(), int(o.subscribeOnCreate), int(o.queueFullPolicy), int(o.requiresPublisherHistorySupport));
    }
    static Lines topicPubs(const roudi::PortIntrospectionFieldTopic& t)
    {
        Lines l;
        for (auto& p : t.m_publisherList) l.insert(line(p.m_name.c_str(), key(p.m_caproServiceID, p.m_caproInstanceID, p.m_caproEventMethodID), p.m_publisherOptions, p.m_publisherPortID));
        return l;
    }
    static std::vector<std::string> topicSubs(const roudi::PortIntrospectionFieldTopic& t)
    {
        std::vector<std::string> l;
        for (auto& p : t.m_subscriberList) l.push_back(line(p.m_name.c_str(), key(p.m_caproServiceID, p.m_caproInstanceID, p.m_caproEventMethodID), p.m_subscriberOptions));
        return l;
    }
    static std::string diff(const Lines& have, const Lines& want)
    {
        std::string s;
        std::vector<std::string> d;
        std::set_difference(have.begin(), have.end(), want.begin(), want.end(), std::back_inserter(d));
        for (auto& x : d) s += " +[" + x + "]";
        d.clear();
        std::set_difference(want.begin(), want.end(), have.begin(), have.end(), std::back_inserter(d));
        for (auto& x : d) s += " -[" + x + "]";
        return s.substr(0, 900);
    }
    // an empty node name stands for the application's name
    template <typename O>
    O named(const O& o, unsigned a)
    {
        O x = o;
        if (x.nodeName.empty()) x.nodeName = NodeName_t(TruncateToCapacity, app(a).c_str());
        return x;
    }
    // ---- what should be seen
    Lines wantPubs()
    {
        Lines l = *basePubs;
        for (auto& p : pubs) l.insert(line(app(p->app), key(names[p->s]), named(p->o, p->app), uint64_t(popo::UniquePortId::value_type(p->p->getUid()))));
        return l;
    }
    Lines wantSubs()
    {
        Lines l = *baseSubs;
        for (auto& p : subs) l.insert(line(app(p->app), key(names[p->s]), named(p->o, p->app)));
        return l;
    }
    Lines wantProcs()
    {
        Lines l{"roudi"};
        for (auto& a : env.rts) l.insert(a.first);
        return l;
    }
    // empty if what the topics show agrees with reality
    std::string problem(std::string& what)
    {
        Lines l;
        for (auto& p : ob.procT->m_processList)
        {
            l.insert(p.m_name.c_str());
            if (p.m_pid != getpid()) { what = "process"; return fmt("process %s has pid %d", p.m_name.c_str(), p.m_pid); }
        }
        if (l != wantProcs()) { what = "process"; return "processes" + diff(l, wantProcs()); }
        l = topicPubs(*ob.portT);
        if (l != wantPubs()) { what = "publisher"; return "publishers" + diff(l, wantPubs()); }
        auto v = topicSubs(*ob.portT);
        l = Lines(v.begin(), v.end());
        if (l != wantSubs()) { what = "subscriber"; return "subscribers" + diff(l, wantSubs()); }
        // states belong to the subscriber at the same position
        what = "state";
        if (ob.chgT->subscriberPortChangingDataList.size() != v.size()) return fmt("%llu states for %zu subscribers", (unsigned long long)ob.chgT->subscriberPortChangingDataList.size(), v.size());
        Lines st, wantSt;
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i].compare(0, 3, "app") == 0) st.insert(fmt("%s %d", v[i].c_str(), int(ob.chgT->subscriberPortChangingDataList[i].subscriptionState)));
            else if (ob.chgT->subscriberPortChangingDataList[i].subscriptionState != SubscribeState::SUBSCRIBED) return "an introspection subscriber is not shown as subscribed";
        for (auto& p : subs) wantSt.insert(fmt("%s %d", line(app(p->app), key(names[p->s]), named(p->o, p->app)).c_str(), int(p->p->getSubscriptionState())));
        if (st != wantSt) return "subscription states" + diff(st, wantSt);
        // memory pools: the first entry is the daemon's own memory
        what = "mempool";
        if (ob.memT->size() != 2) return fmt("%llu segments", (unsigned long long)ob.memT->size());
        auto& m = (*ob.memT)[1];
        if (m.m_id != 1) return fmt("segment id %u", m.m_id);
        if (m.m_mempoolInfo.size() != POOLS.size()) return fmt("%llu pools", (unsigned long long)m.m_mempoolInfo.size());
        for (size_t i = 0; i < POOLS.size(); ++i)
        {
            auto& x = m.m_mempoolInfo[i];
            if (x.m_numChunks != POOLS[i].second || x.m_chunkPayloadSize != POOLS[i].first || x.m_chunkSize != POOLS[i].first + sizeof(mepoo::ChunkHeader))
                return fmt("pool %zu: %u chunks of %llu bytes with %llu payload", i, x.m_numChunks, (unsigned long long)x.m_chunkSize, (unsigned long long)x.m_chunkPayloadSize);
            if (x.m_usedChunks != used[i] || x.m_minFreeChunks != (*minFree)[i])
                return fmt("pool %zu: used %u instead of %u, minimum free %u instead of %u", i, x.m_usedChunks, used[i], x.m_minFreeChunks, (*minFree)[i]);
        }
        for (auto& x : (*ob.memT)[0].m_mempoolInfo)
            if (x.m_usedChunks > x.m_numChunks || x.m_minFreeChunks > x.m_numChunks || x.m_numChunks == 0) return "the daemon's own pools are inconsistent";
        return "";
    }
    void sync()
    {
        env.discover();
        env.discover();
        std::string p, what;
        hist += "| ";
        uint64_t c0 = ob.nChg, m0 = ob.nMem;
        // everything published from now on is up to date; the port topic is published by the same task just before the states
        for (int i = 0; i < 20000; ++i)
        {
            ob.poll();
            p = problem(what);
            if (p.empty()) break;
            if (i > 2000 && ob.nChg > c0 + 5 && ob.nMem > m0 + 5) break;
            usleep(1000);
        }
        CK(p.empty(), what.c_str(), "after %llu publications: %s", (unsigned long long)(ob.nChg - c0), p.c_str());
        if (r.chance(200)) // and it stays like this
        {
            c0 = ob.nChg;
            m0 = ob.nMem;
            for (int i = 0; i < 20000 && (ob.nChg < c0 + 2 || ob.nMem < m0 + 2); ++i) { ob.poll(); usleep(1000); }
            CK(ob.nChg >= c0 + 2 && ob.nMem >= m0 + 2, "silent", "the introspection is not published anymore");
            p = problem(what);
            CK(p.empty(), what.c_str(), "without a change: %s", p.c_str());
            count("stability_checks");
        }
        count("synchronisations");
        count("publishers_seen", pubs.size());
        count("subscribers_seen", subs.size());
        count("processes_seen", env.rts.size());
        uint64_t u = 0;
        for (auto x : used) u += x;
        count("used_chunks_seen", u);
    }
    void loan()
    {
        if (pubs.empty()) return;
        auto& p = *pubs[r.below(pubs.size())];
        unsigned k = unsigned(r.below(POOLS.size()));
        auto l = p.p->loan(POOLS[k].first, 8);
        unsigned got = k;
        while (got < POOLS.size() && used[got] == POOLS[got].second) { got = unsigned(POOLS.size()); } // only the best fitting pool is used
        if (l.has_error()) { count("refused"); return; }
        CK(got < POOLS.size(), "harness", "a chunk of an exhausted pool");
        hist += fmt("loan%u ", POOLS[k].first);
        ++used[k];
        (*minFree)[k] = std::min((*minFree)[k], POOLS[k].second - used[k]);
        p.loans.push_back({l.value(), k});
        count("loans");
    }
    void unloan()
    {
        if (pubs.empty()) return;
        auto& p = *pubs[r.below(pubs.size())];
        if (p.loans.empty()) return;
        size_t i = r.below(p.loans.size());
        p.p->release(p.loans[i].first);
        --used[p.loans[i].second];
        p.loans.erase(p.loans.begin() + long(i));
        hist += "release ";
    }
    void dropLoans(Pub& p)
    {
        for (auto& l : p.loans) --used[l.second];
        p.loans.clear();
    }
    void step()
    {
        switch (r.below(14))
        {
        case 0: case 1:
        {
            if (pubs.size() > 12) return;
            auto p = std::make_unique<Pub>();
            p->app = unsigned(r.below(nApps));
            p->s = unsigned(r.below(names.size()));
            p->o.historyCapacity = r.below(17);
            p->o.offerOnCreate = r.chance(600);
            p->o.nodeName = NodeName_t(TruncateToCapacity, r.chance(300) ? "" : fmt("n%llu", (unsigned long long)r.below(5)).c_str());
            p->o.subscriberTooSlowPolicy = r.chance(300) ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            env.app(app(p->app));
            p->p = new popo::UntypedPublisher(names[p->s], p->o);
            hist += fmt("P%u(%s,%s) ", p->app, key(names[p->s]).c_str(), p->o.offerOnCreate ? "on" : "off");
            pubs.push_back(std::move(p));
            count("publishers");
            break;
        }
        case 2: case 3:
        {
            if (subs.size() > 12) return;
            auto p = std::make_unique<Sub>();
            p->app = unsigned(r.below(nApps));
            p->s = unsigned(r.below(names.size()));
            p->o.queueCapacity = r.range(1, 20);
            p->o.historyRequest = r.below(p->o.queueCapacity + 1);
            p->o.nodeName = NodeName_t(TruncateToCapacity, r.chance(300) ? "" : fmt("n%llu", (unsigned long long)r.below(5)).c_str());
            p->o.subscribeOnCreate = r.chance(600);
            p->o.queueFullPolicy = r.chance(200) ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
            p->o.requiresPublisherHistorySupport = r.chance(200);
            env.app(app(p->app));
            p->p = new popo::UntypedSubscriber(names[p->s], p->o);
            hist += fmt("S%u(%s,%s) ", p->app, key(names[p->s]).c_str(), p->o.subscribeOnCreate ? "on" : "off");
            subs.push_back(std::move(p));
            count("subscribers");
            break;
        }
        case 4:
            if (!pubs.empty())
            {
                size_t i = r.below(pubs.size());
                hist += fmt("~P%u(%s) ", pubs[i]->app, key(names[pubs[i]->s]).c_str());
                bool loaned = !pubs[i]->loans.empty();
                dropLoans(*pubs[i]);
                delete pubs[i]->p;
                if (loaned) env.discover(); // the daemon frees its chunks when it removes the port
                pubs.erase(pubs.begin() + long(i));
                count("destroyed");
            }
            break;
        case 5:
            if (!subs.empty())
            {
                size_t i = r.below(subs.size());
                hist += fmt("~S%u(%s) ", subs[i]->app, key(names[subs[i]->s]).c_str());
                delete subs[i]->p;
                subs.erase(subs.begin() + long(i));
                count("destroyed");
            }
            break;
        case 6:
            if (!pubs.empty())
            {
                auto& p = *pubs[r.below(pubs.size())];
                bool on = r.chance(500);
                on ? p.p->offer() : p.p->stopOffer();
                hist += fmt("%sP%u(%s) ", on ? "offer" : "stop", p.app, key(names[p.s]).c_str());
            }
            break;
        case 7:
            if (!subs.empty())
            {
                auto& p = *subs[r.below(subs.size())];
                bool on = r.chance(500);
                on ? p.p->subscribe() : p.p->unsubscribe();
                hist += fmt("%sS%u(%s) ", on ? "sub" : "unsub", p.app, key(names[p.s]).c_str());
            }
            break;
        case 8: case 9: loan(); break;
        case 10: unloan(); break;
        case 11:
            if (r.chance(250))
            {
                unsigned a = unsigned(r.below(nApps));
                if (!env.rts.count(app(a))) break;
                hist += fmt("die%u ", a);
                env.kill(app(a));
                env.discover();
                for (size_t i = 0; i < pubs.size();)
                    if (pubs[i]->app == a) { dropLoans(*pubs[i]); pubs.erase(pubs.begin() + long(i)); }
                    else ++i;
                for (size_t i = 0; i < subs.size();)
                    if (subs[i]->app == a) subs.erase(subs.begin() + long(i));
                    else ++i;
                count("deaths");
            }
            break;
        case 12:
            if (r.chance(300)) { unsigned a = unsigned(r.below(nApps)); env.app(app(a)); hist += fmt("app%u ", a); }
            break;
        default: if (r.chance(600)) sync();
        }
    }
    void run()
    {
        nApps = unsigned(r.range(1, 4));
        unsigned n = unsigned(r.range(1, 4));
        for (unsigned i = 0; i < n; ++i) names.push_back(svc(fmt("s%u", i / 2), "i", fmt("e%u", i)));
        for (uint64_t i = r.range(5, 50); i; --i) step();
        sync();
        distinct(std::hash<std::string>()(hist));
        sample(hist);
        bool orderly = r.chance(500);
        for (auto& p : pubs) { dropLoans(*p); if (orderly) delete p->p; }
        for (auto& p : subs) if (orderly) delete p->p;
        pubs.clear();
        subs.clear();
        for (unsigned a = 0; a < nApps; ++a) env.kill(app(a));
        hist += "end ";
        sync();
    }
};
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "random histories of applications, publishers, subscribers and loans, every introspection topic compared after each synchronisation; distinct = different histories");
    vs::setTimeScale(50);
    IceoryxConfig cfg = roudi_env::MinimalIceoryxConfigBuilder().introspectionChunkCount(30).discoveryChunkCount(10).create();
    mepoo::MePooConfig mp;
    for (auto& p : POOLS) mp.addMemPool({p.first, p.second});
    cfg.m_sharedMemorySegments.clear();
    auto g = PosixGroup::getGroupOfCurrentProcess().getName();
    cfg.m_sharedMemorySegments.push_back({g, g, mp});
    Env env(cfg);
    env.app("observer");
    Observer ob;
    env.discover();
    Lines bp, bs;
    // what the daemon and this observer have themselves: read once everything has been published
    for (int i = 0; i < 20000 && (ob.nPort < 1 || ob.nChg < 4 || ob.nMem < 4 || ob.portT->m_subscriberList.size() < 4); ++i) { ob.poll(); usleep(1000); }
    bp = Case::topicPubs(*ob.portT);
    for (auto& x : Case::topicSubs(*ob.portT)) bs.insert(x);
    VH_CHECK(bp.size() >= 5 && bs.size() == 4, "baseline", "the daemon lists %zu publishers and %zu subscribers", bp.size(), bs.size());
    for (auto& x : bp) VH_CHECK(x.find("Introspection/") != std::string::npos || x.find("ServiceDiscovery/") != std::string::npos, "baseline", "%s", x.c_str());
    for (auto& x : bs) VH_CHECK(x.find("observer Introspection/") == 0, "baseline", "%s", x.c_str());
    std::vector<uint32_t> minFree;
    for (auto& p : POOLS) minFree.push_back(p.second);
    return runCases([&](uint64_t seed, uint64_t) {
        Case c(seed, env, ob, &bp, &bs, &minFree);
        ctx().trace = &c.hist;
        c.run();
        ctx().trace = nullptr;
    });
}
