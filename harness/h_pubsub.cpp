// Publish/subscribe under the controlled scheduler: publisher, subscriber and daemon threads on the real ports and pools.
// Oracles work on the recorded history of publish and take calls (intervals of logical time), not on internal state.
// modes: static (overflow, order, missed flag), join (history and live stream without gap), block (blocking policy),
//        chaos (life cycle and crashes; ownership, content, conservation), "" = all of them. Serves C01-C06, C10.
#include "sched.hpp"
#include "world.hpp"
#include <algorithm>
#include <mutex>

using namespace vh;
using namespace vw;
using namespace iox;

namespace
{
constexpr uint64_t NEVER = ~0ull;
struct Rec { uint64_t s{0}, e{NEVER}; uint64_t id{0}; };
struct Payload
{
    uint64_t id;
    uint32_t pub;
    uint32_t seq;
    uint8_t body[40];
};
struct Pub
{
    uint32_t id{0};
    unsigned app{0};
    popo::PublisherOptions o;
    Abandonable<UPub> u;
    std::vector<Rec> sent; // index = sequence number
    unsigned todo{0};
    bool offerLate{false};
    bool done{false}, crashed{false};
    std::vector<void*> loans;
};
struct Take { uint32_t pub; uint32_t seq; uint64_t s, e; unsigned epoch; };
struct FlagRead { uint64_t s, e; bool v; };
struct Epoch { uint64_t subS{0}, subE{0}, unsubS{NEVER}, offS{NEVER}; };
struct Sub
{
    uint32_t id{0};
    unsigned app{0};
    popo::SubscriberOptions o;
    Abandonable<USub> u;
    std::vector<Take> takes;
    std::vector<FlagRead> flags;
    std::vector<Epoch> epochs;
    std::vector<std::pair<const void*, uint64_t>> held; // payload, id
    unsigned todo{0};
    bool blocker{false}; // in mode join: a slow subscriber that makes the publishers wait
    unsigned leave{0}; // 0 stays, 1 unsubscribes, 2 is destroyed, 3 crashes
    bool gone{false}, done{false};
};

struct Case
{
    Rng r;
    World& w{World::get()};
    std::string mode;
    std::unique_ptr<Pools> pools;
    std::vector<std::unique_ptr<Pub>> pubs;
    std::vector<std::unique_ptr<Sub>> subs;
    capro::ServiceDescription sd{svc("Stress", "One", "Data")};
    std::mutex daemon; // the daemon processes requests and discovery under one lock
    uint64_t nextId{1};
    bool dirty{false};
    unsigned passes{0};
    std::vector<unsigned> deadApps;
    unsigned nextApp{10};
    std::map<const void*, std::pair<const void*, int>> owned; // start -> (end, 1 loan / n holders)
    std::string cfg;
    uint32_t nextPub{1}, nextSub{1};
    std::map<uint64_t, std::pair<uint32_t, uint32_t>> published; // id -> pub, seq
    std::set<uint64_t> releasedIds;

    explicit Case(uint64_t seed, const std::string& m)
        : r(seed)
        , mode(m)
    {
        if (mode.empty())
        {
            const char* ms[] = {"static", "join", "block", "chaos"};
            mode = ms[r.below(4)];
        }
    }
#define CK(cond, key, ...) VH_CHECK(cond, key, "[%s] %s; %s", mode.c_str(), vh::fmt(__VA_ARGS__).c_str(), cfg.c_str())

    // ---- ownership monitor ---------------------------------------------------------------------------------------
    void own(const void* p, uint64_t n, bool loan)
    {
        auto* b = static_cast<const uint8_t*>(p);
        auto it = owned.upper_bound(p);
        if (it != owned.begin())
        {
            auto pr = std::prev(it);
            bool overlap = static_cast<const uint8_t*>(pr->second.first) > b;
            if (overlap)
            {
                CK(!loan && pr->first == p && pr->second.second >= 1 && pr->second.second < 1000000, "ownership", "%s returned memory that somebody else still %s", loan ? "loan" : "take", pr->second.second >= 1000000 ? "has on loan" : "reads");
                ++pr->second.second;
                return;
            }
        }
        if (it != owned.end()) CK(static_cast<const uint8_t*>(it->first) >= b + n, "ownership", "memory handed out twice (overlap)");
        owned[p] = {b + n, loan ? 1000000 : 1};
    }
    void disown(const void* p, bool loan)
    {
        auto it = owned.find(p);
        VH_CHECK(it != owned.end(), "harness", "disown of unknown memory");
        it->second.second -= loan ? 1000000 : 1;
        if (it->second.second == 0) owned.erase(it);
    }
    static void fillSlow(Payload& p, uint64_t id, uint32_t pub, uint32_t seq)
    {
        p.id = id;
        p.pub = pub;
        p.seq = seq;
        fill(p.body, 20, id);
        vs::point();
        for (int i = 20; i < 40; ++i) p.body[i] = uint8_t(id * 7 + uint64_t(i));
    }
    void checkContent(const Payload& p, uint64_t id, const char* when)
    {
        CK(p.id == id, "content", "sample #%llu shows id #%llu %s", (unsigned long long)id, (unsigned long long)p.id, when);
        CK(mismatch(p.body, 20, id) < 0, "content", "sample #%llu was overwritten %s", (unsigned long long)id, when);
        for (int i = 20; i < 40; ++i) CK(p.body[i] == uint8_t(id * 7 + uint64_t(i)), "content", "sample #%llu was overwritten %s", (unsigned long long)id, when);
        count("content_checks");
    }
    // ---- endpoints -----------------------------------------------------------------------------------------------
    void makePub(Pub& p)
    {
        std::lock_guard<std::mutex> g(daemon);
        auto d = w.pm->acquirePublisherPortData(sd, p.o, appName(p.app), pools->mm.get(), roudi::PortManager::PortConfigInfo());
        CK(!d.has_error(), "create", "creating a publisher failed");
        p.u.make(d.value());
    }
    void makeSub(Sub& s)
    {
        Epoch e;
        e.subS = vs::now();
        std::lock_guard<std::mutex> g(daemon);
        auto d = w.pm->acquireSubscriberPortData(sd, s.o, appName(s.app), roudi::PortManager::PortConfigInfo());
        CK(!d.has_error(), "create", "creating a subscriber failed");
        s.u.make(d.value());
        if (s.o.subscribeOnCreate)
        {
            e.subE = vs::now();
            s.epochs.push_back(e);
        }
    }
    bool publishOne(Pub& p)
    {
        auto l = p.u->loan(sizeof(Payload), alignof(Payload));
        if (l.has_error())
        {
            CK(l.error() == popo::AllocationError::RUNNING_OUT_OF_CHUNKS, "loan-error", "loan failed with %s", popo::asStringLiteral(l.error()));
            count("loan_refused");
            return false;
        }
        own(l.value(), sizeof(Payload), true);
        uint64_t id = nextId++;
        uint32_t seq = uint32_t(p.sent.size());
        fillSlow(*static_cast<Payload*>(l.value()), id, p.id, seq);
        if (mode == "chaos" && r.chance(100))
        {
            disown(l.value(), true);
            p.u->release(l.value());
            count("loan_released");
            return true;
        }
        checkContent(*static_cast<Payload*>(l.value()), id, "while on loan");
        disown(l.value(), true);
        Rec rec;
        rec.id = id;
        rec.s = vs::now();
        p.sent.push_back(rec);
        published[id] = {p.id, seq};
        p.u->publish(l.value());
        p.sent[seq].e = vs::now();
        count("publishes");
        return true;
    }
    // returns false if nothing is there
    bool takeOne(Sub& s)
    {
        uint64_t t0 = vs::now();
        auto t = s.u->take();
        uint64_t t1 = vs::now();
        if (t.has_error())
        {
            CK(t.error() == popo::ChunkReceiveResult::NO_CHUNK_AVAILABLE, "take-error", "take failed with %s", popo::asStringLiteral(t.error()));
            count("empty_takes");
            return false;
        }
        auto& p = *static_cast<const Payload*>(t.value());
        uint64_t id = p.id;
        auto it = published.find(id);
        CK(it != published.end(), "invented", "subscriber %u received a sample that was never published (id #%llu)", s.id, (unsigned long long)id);
        own(&p, sizeof(Payload), false);
        checkContent(p, id, "when taken");
        CK(it->second.first == p.pub && it->second.second == p.seq, "content", "sample #%llu carries wrong origin", (unsigned long long)id);
        s.takes.push_back({p.pub, p.seq, t0, t1, unsigned(s.epochs.size())});
        s.held.push_back({&p, id});
        count("takes");
        return true;
    }
    void releaseOne(Sub& s, size_t k)
    {
        auto h = s.held[k];
        checkContent(*static_cast<const Payload*>(h.first), h.second, "while held by a subscriber");
        disown(h.first, false);
        s.held.erase(s.held.begin() + long(k));
        s.u->release(h.first);
    }
    void releaseSome(Sub& s, size_t keep)
    {
        while (s.held.size() > keep) releaseOne(s, r.below(s.held.size()));
    }
    bool readFlag(Sub& s)
    {
        uint64_t a = vs::now();
        bool v = s.u->hasMissedData();
        s.flags.push_back({a, vs::now(), v});
        count(v ? "missed_true" : "missed_false");
        return v;
    }
    // ---- thread bodies -------------------------------------------------------------------------------------------
    void pubBody(Pub& p)
    {
        vs::label("publisher");
        if (mode == "chaos" || mode == "join")
            if (!p.u.live) makePub(p);
        unsigned lateAt = p.offerLate ? unsigned(r.below(p.todo)) : 0;
        for (unsigned i = 0; i < p.todo; ++i)
        {
            if (p.offerLate && i == lateAt)
            {
                p.u->offer();
                dirty = true;
            }
            if (mode == "chaos")
            {
                uint64_t x = r.below(40);
                if (x == 0) { p.u->stopOffer(); dirty = true; continue; }
                if (x == 1) { p.u->offer(); dirty = true; continue; }
                if (x == 2 && p.todo > 3)
                {
                    p.crashed = true;
                    p.u.abandon();
                    deadApps.push_back(p.app);
                    dirty = true;
                    count("crashes");
                    break;
                }
                if (x == 3)
                {
                    p.u.destroy();
                    dirty = true;
                    p.app = nextApp++;
                    p.id = nextPub++;
                    p.sent.clear();
                    makePub(p);
                    count("recreated");
                    continue;
                }
            }
            if (!publishOne(p)) vs::yieldPoint();
        }
        p.done = true;
        dirty = true;
    }
    void subBody(Sub& s)
    {
        vs::label("subscriber");
        if (s.blocker)
        {
            for (uint64_t i = r.below(30); i > 0; --i) vs::yieldPoint();
            leave(s);
            s.done = true;
            return;
        }
        if (mode == "join") return joinBody(s);
        if (mode == "chaos" && !s.u.live) makeSub(s);
        size_t keep = r.below(4);
        unsigned idle = 0;
        for (unsigned i = 0; i < s.todo; ++i)
        {
            uint64_t x = r.below(20);
            if (mode == "chaos")
            {
                if (x == 0) { s.u->unsubscribe(); dirty = true; continue; }
                if (x == 1) { s.u->subscribe(); dirty = true; continue; }
                if (x == 2 && r.chance(300))
                {
                    for (auto& h : s.held) disown(h.first, false);
                    s.held.clear();
                    s.u.abandon();
                    deadApps.push_back(s.app);
                    dirty = true;
                    s.gone = true;
                    count("crashes");
                    s.done = true;
                    return;
                }
                if (x == 3 && r.chance(300))
                {
                    releaseSome(s, 0);
                    s.u.destroy();
                    dirty = true;
                    s.app = nextApp++;
                    s.id = nextSub++;
                    makeSub(s);
                    count("recreated");
                    continue;
                }
            }
            if (x < 14)
            {
                if (!takeOne(s) && ++idle > 3) vs::yieldPoint();
                releaseSome(s, keep);
            }
            else if (x < 16) readFlag(s);
            else if (x == 16 && !s.held.empty()) releaseOne(s, r.below(s.held.size()));
            else vs::point();
        }
        if (mode == "block") leave(s);
        s.done = true;
        dirty = true;
    }
    // a subscriber that leaves must let blocked publishers go
    void leave(Sub& s)
    {
        if (s.leave == 0)
        {
            // stays until everybody published everything and takes it all
            for (;;)
            {
                if (takeOne(s)) { releaseSome(s, 1); continue; }
                if (std::all_of(pubs.begin(), pubs.end(), [](auto& p) { return p->done; })) break;
                vs::waitUntil([&] { return s.u.get().thePort().hasNewChunks() || std::all_of(pubs.begin(), pubs.end(), [](auto& p) { return p->done; }); }, "waiting for data");
            }
            return;
        }
        releaseSome(s, 0);
        s.gone = true;
        if (s.leave == 1)
        {
            s.epochs.back().unsubS = vs::now();
            s.u->unsubscribe();
            dirty = true;
            vs::waitUntil([&] { return s.u.get().getSubscriptionState() == SubscribeState::NOT_SUBSCRIBED; }, "unsubscribed");
            count("left_unsubscribe");
        }
        else if (s.leave == 2)
        {
            s.u.destroy();
            dirty = true;
            count("left_destroy");
        }
        else
        {
            s.u.abandon();
            deadApps.push_back(s.app);
            dirty = true;
            count("left_crash");
        }
    }
    void joinBody(Sub& s)
    {
        unsigned rounds = unsigned(r.range(1, 2));
        for (unsigned k = 0; k < rounds; ++k)
        {
            for (uint64_t i = r.below(6); i > 0; --i) vs::yieldPoint();
            if (!s.u.live)
            {
                makeSub(s);
                dirty = true;
            }
            if (k > 0 || !s.o.subscribeOnCreate)
            {
                Epoch e;
                e.subS = vs::now();
                s.u->subscribe();
                dirty = true;
                vs::waitUntil([&] { return s.u.get().getSubscriptionState() == SubscribeState::SUBSCRIBED; }, "subscribed");
                {
                    std::lock_guard<std::mutex> g(daemon); // the daemon has completed that pass
                }
                e.subE = vs::now();
                s.epochs.push_back(e);
            }
            unsigned n = unsigned(r.below(s.todo + 1));
            for (unsigned i = 0; i < n; ++i)
            {
                takeOne(s);
                releaseSome(s, 1);
                if (r.chance(150)) readFlag(s);
            }
            if (k + 1 < rounds)
            {
                s.epochs.back().unsubS = vs::now();
                s.u->unsubscribe();
                dirty = true;
                vs::waitUntil([&] { return s.u.get().getSubscriptionState() == SubscribeState::NOT_SUBSCRIBED; }, "unsubscribed");
                {
                    std::lock_guard<std::mutex> g(daemon);
                }
                s.epochs.back().offS = vs::now();
                while (takeOne(s)) releaseSome(s, 1);
                readFlag(s);
            }
        }
        s.done = true;
        dirty = true;
    }
    void daemonBody()
    {
        vs::label("daemon");
        unsigned spontaneous = unsigned(r.below(6));
        for (;;)
        {
            auto allDone = [&] {
                return std::all_of(pubs.begin(), pubs.end(), [](auto& p) { return p->done || p->crashed; })
                       && std::all_of(subs.begin(), subs.end(), [](auto& s) { return s->done; });
            };
            if (spontaneous > 0)
            {
                --spontaneous;
                for (uint64_t i = r.below(20); i > 0; --i) vs::yieldPoint();
            }
            else
                vs::waitUntil([&] { return dirty || allDone(); }, "idle");
            if (allDone() && !dirty) break;
            dirty = false;
            std::lock_guard<std::mutex> g(daemon);
            while (!deadApps.empty())
            {
                unsigned a = deadApps.back();
                deadApps.pop_back();
                w.pm->deletePortsOfProcess(appName(a));
                count("crash_cleanups");
            }
            w.discover();
            ++passes;
        }
    }
    // ---- oracles over the recorded history -----------------------------------------------------------------------
    Pub* pub(uint32_t id)
    {
        for (auto& p : pubs)
            if (p->id == id) return p.get();
        return nullptr;
    }
    std::string show(Sub& s, uint32_t pub)
    {
        std::string o = fmt("subscriber %u capacity %llu takes of publisher %u:", s.id, (unsigned long long)s.o.queueCapacity, pub);
        for (auto& t : s.takes)
            if (t.pub == pub) o += fmt(" %u@%llu-%llu", t.seq, (unsigned long long)t.s, (unsigned long long)t.e);
        for (auto& p : pubs)
        {
            o += fmt(" ; publishes of %u:", p->id);
            for (auto& x : p->sent) o += fmt(" %llu-%llu", (unsigned long long)x.s, (unsigned long long)x.e);
        }
        return o;
    }
    // number of publishes by anybody which can have entered the queue after x did and before t
    uint64_t pushesBetween(const Rec& x, uint64_t t)
    {
        uint64_t n = 0;
        for (auto& p : pubs)
            for (auto& y : p->sent)
                if (y.id != x.id && y.e > x.s && y.s < t) ++n;
        return n;
    }
    // order, gaps, overflow rule, missed flag for a subscriber that was connected all the time
    void judgeStatic(Sub& s, bool mayLose)
    {
        uint64_t lost = 0;
        for (auto& p : pubs)
        {
            int64_t last = -1;
            auto gap = [&](int64_t from, int64_t to, uint64_t t) {
                for (int64_t k = from; k < to; ++k)
                {
                    ++lost;
                    CK(mayLose, "lost", "sample %lld of publisher %u never arrived although nothing may be lost: %s", (long long)k, p->id, show(s, p->id).c_str());
                    CK(pushesBetween(p->sent[size_t(k)], t) >= s.o.queueCapacity, "lost-without-overflow", "sample %lld of publisher %u was lost although fewer than %llu newer ones can have been queued: %s", (long long)k, p->id, (unsigned long long)s.o.queueCapacity, show(s, p->id).c_str());
                }
            };
            for (auto& t : s.takes)
            {
                if (t.pub != p->id) continue;
                CK(int64_t(t.seq) > last, "order", "sample %u of publisher %u taken after %lld: %s", t.seq, p->id, (long long)last, show(s, p->id).c_str());
                gap(last + 1, t.seq, t.e);
                CK(p->sent[t.seq].s < t.e, "future", "sample taken before it was published");
                last = t.seq;
            }
            gap(last + 1, int64_t(p->sent.size()), NEVER - 1);
        }
        bool any = false;
        uint64_t trues = 0;
        for (auto& f : s.flags)
            if (f.v) { any = true; ++trues; }
        CK(any == (lost > 0), "missed-flag", "missed-data was %s although %llu samples were lost: %s", any ? "reported" : "never reported", (unsigned long long)lost, show(s, pubs[0]->id).c_str());
        CK(trues <= lost, "missed-flag", "missed-data reported %llu times for %llu lost samples", (unsigned long long)trues, (unsigned long long)lost);
        // a false answer in a quiet moment although a gap was already seen since the last answer
        uint64_t prev = 0;
        for (auto& f : s.flags)
        {
            if (!f.v)
                for (auto& p : pubs)
                {
                    int64_t last = -1;
                    for (auto& t : s.takes)
                    {
                        if (t.pub != p->id) continue;
                        if (int64_t(t.seq) > last + 1 && t.s > prev && t.e < f.s)
                        {
                            bool quiet = true, before = false;
                            for (auto& q : pubs)
                                for (auto& y : q->sent)
                                {
                                    if (y.s < f.s && y.e > f.s) quiet = false; // somebody is still inside publish
                                    (void)before;
                                }
                            // the eviction itself must be later than the previous answer
                            uint64_t newerAfterPrev = 0;
                            uint64_t pushedBeforePrev = 0;
                            for (auto& q : pubs)
                                for (auto& y : q->sent)
                                {
                                    if (y.s > prev && y.e < f.s) ++newerAfterPrev;
                                    if (y.s < prev && y.id != p->sent[t.seq - 1].id && y.e > p->sent[t.seq - 1].s) ++pushedBeforePrev;
                                }
                            if (quiet && pushedBeforePrev < s.o.queueCapacity && newerAfterPrev > 0)
                                CK(false, "missed-flag", "missed-data answered no at %llu although the gap before %u was already visible: %s", (unsigned long long)f.s, t.seq, show(s, p->id).c_str());
                        }
                        last = t.seq;
                    }
                }
            prev = f.e;
        }
        count("judged_streams");
        count("lost_samples", lost);
    }
    // final content of the queue at quiescence: newest ones
    void judgeDrain(Sub& s, size_t firstDrained)
    {
        uint64_t n = s.takes.size() - firstDrained;
        CK(n <= s.o.queueCapacity, "over-capacity", "%llu samples in a queue of capacity %llu", (unsigned long long)n, (unsigned long long)s.o.queueCapacity);
        uint64_t lastTake = firstDrained ? s.takes[firstDrained - 1].e : 0;
        for (auto& p : pubs)
        {
            int64_t first = -1, last = -1;
            for (size_t i = firstDrained; i < s.takes.size(); ++i)
                if (s.takes[i].pub == p->id)
                {
                    if (first < 0) first = s.takes[i].seq;
                    else CK(int64_t(s.takes[i].seq) == last + 1, "newest", "samples kept in the queue are not contiguous: %s", show(s, p->id).c_str());
                    last = s.takes[i].seq;
                }
            if (first >= 0) CK(last == int64_t(p->sent.size()) - 1, "newest", "the newest sample is missing in the queue: %s", show(s, p->id).c_str());
            for (size_t k = 0; k < p->sent.size(); ++k)
                if (p->sent[k].s > lastTake && (first < 0 || int64_t(k) < first))
                    CK(n == s.o.queueCapacity, "newest", "sample %zu discarded although only %llu of %llu places are used: %s", k, (unsigned long long)n, (unsigned long long)s.o.queueCapacity, show(s, p->id).c_str());
        }
        count("judged_drains");
    }
    void judgeJoin(Sub& s)
    {
        for (size_t e = 0; e < s.epochs.size(); ++e)
        {
            auto& ep = s.epochs[e];
            for (auto& p : pubs)
            {
                std::vector<Take> v;
                for (auto& t : s.takes)
                    if (t.epoch == e + 1 && t.pub == p->id) v.push_back(t);
                for (size_t i = 1; i < v.size(); ++i)
                    CK(v[i].seq == v[i - 1].seq + 1, "gap", "subscriber %u got sample %u right after %u: %s", s.id, v[i].seq, v[i - 1].seq, show(s, p->id).c_str());
                // how many were published when the connection was made
                uint64_t from = ep.subS, to = ep.subE;
                if (p->offerLate) continue;
                uint64_t pmin = 0, pmax = 0;
                for (auto& x : p->sent)
                {
                    if (x.e < from) ++pmin;
                    if (x.s < to) ++pmax;
                }
                uint64_t H = std::min<uint64_t>(s.o.historyRequest, p->o.historyCapacity);
                if (v.empty())
                {
                    // nothing at all: then nothing can have been published from the history on
                    uint64_t after = 0;
                    for (auto& x : p->sent)
                        if (x.s > to && x.e < ep.unsubS) ++after;
                    CK(after == 0, "lost", "subscriber %u missed everything of publisher %u: %s", s.id, p->id, show(s, p->id).c_str());
                    if (H > 0) CK(pmin == 0, "history", "subscriber %u requested a history of %llu and got nothing: %s", s.id, (unsigned long long)s.o.historyRequest, show(s, p->id).c_str());
                    continue;
                }
                uint64_t lo = pmin > H ? pmin - H : 0, hi = pmax > H ? pmax - H : 0;
                uint64_t f = v.front().seq;
                CK(f >= lo, "history-long", "subscriber %u got more history than requested: first sample %llu, expected at least %llu (request %llu, publisher history %llu, subscribed %llu-%llu): %s", s.id, (unsigned long long)f, (unsigned long long)lo, (unsigned long long)s.o.historyRequest, (unsigned long long)p->o.historyCapacity, (unsigned long long)from, (unsigned long long)to, show(s, p->id).c_str());
                CK(f <= hi, "history-short", "subscriber %u missed samples at the beginning: first sample %llu, expected at most %llu (request %llu, publisher history %llu, subscribed %llu-%llu): %s", s.id, (unsigned long long)f, (unsigned long long)hi, (unsigned long long)s.o.historyRequest, (unsigned long long)p->o.historyCapacity, (unsigned long long)from, (unsigned long long)to, show(s, p->id).c_str());
                uint64_t must = 0, can = 0;
                for (auto& x : p->sent)
                {
                    if (x.e < ep.unsubS) ++must;
                    if (x.s < ep.offS) ++can;
                }
                uint64_t l = v.back().seq + 1;
                CK(l >= must, "lost", "subscriber %u: only %llu of %llu samples published before unsubscribing arrived: %s", s.id, (unsigned long long)l, (unsigned long long)must, show(s, p->id).c_str());
                CK(l <= can, "after-unsubscribe", "subscriber %u received a sample published after it was disconnected", s.id);
                if (pmin > 0 && H > 0) count("history_joins");
                if (pmax > pmin) count("joins_during_publish");
            }
            count("judged_epochs");
        }
        for (auto& f : s.flags) CK(!f.v, "missed-flag", "missed-data reported although the queue never overflowed");
    }
    // ---- run -----------------------------------------------------------------------------------------------------
    void setup()
    {
        unsigned np = 1 + unsigned(r.below(mode == "join" ? 2 : 3)), ns = 1 + unsigned(r.below(3));
        pools.reset(new Pools({{sizeof(Payload) + 8, uint32_t(mode == "chaos" ? r.range(4, 30) : (mode == "static" ? r.range(40, 120) : 160))}}));
        cfg = fmt("pool %u", pools->info(0).m_numChunks);
        for (unsigned i = 0; i < np; ++i)
        {
            pubs.emplace_back(new Pub());
            auto& p = *pubs.back();
            p.id = nextPub++;
            p.app = i;
            p.todo = unsigned(r.range(1, mode == "chaos" ? 12 : 9));
            uint64_t hc[] = {0, 1, 2, 3, 16};
            p.o.historyCapacity = mode == "join" ? hc[1 + r.below(4)] : hc[r.below(5)];
            if (mode == "join" && r.chance(100)) p.o.historyCapacity = 0;
            p.o.subscriberTooSlowPolicy = (mode == "block" || r.chance(400)) ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            if (mode == "join" && r.chance(200)) { p.offerLate = true; p.o.offerOnCreate = false; }
            cfg += fmt(" pub%u(h%llu,%s,n%u%s)", p.id, (unsigned long long)p.o.historyCapacity, p.o.subscriberTooSlowPolicy == popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER ? "wait" : "discard", p.todo, p.offerLate ? ",late" : "");
        }
        for (unsigned i = 0; i < ns; ++i)
        {
            subs.emplace_back(new Sub());
            auto& s = *subs.back();
            s.id = nextSub++;
            s.app = 5 + i;
            s.todo = unsigned(r.below(mode == "join" ? 10 : 24));
            s.o.queueCapacity = mode == "join" ? 200 : r.range(1, 5);
            s.o.historyRequest = mode == "join" ? r.below(6) : (mode == "chaos" ? std::min<uint64_t>(r.below(3), s.o.queueCapacity) : 0);
            bool blocking = mode == "block" ? r.chance(750) : (mode == "chaos" && r.chance(150));
            s.o.queueFullPolicy = blocking ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
            s.leave = mode == "block" ? unsigned(r.below(4)) : 0;
            if (mode == "join") s.o.subscribeOnCreate = r.chance(400);
            if (mode == "block" && !blocking && r.chance(400)) s.todo = 0;
            if (mode == "chaos" && blocking) s.o.queueFullPolicy = popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
            if (mode == "join" && i == 0 && ns > 1 && r.chance(350))
            {
                s.blocker = true;
                s.o.queueCapacity = r.range(1, 2);
                s.o.historyRequest = 0;
                s.o.subscribeOnCreate = true;
                s.o.queueFullPolicy = popo::QueueFullPolicy::BLOCK_PRODUCER;
                for (auto& p : pubs) p->o.subscriberTooSlowPolicy = popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER;
            }
            cfg += fmt(" sub%u(q%llu,h%llu%s,leave%u,n%u%s)", s.id, (unsigned long long)s.o.queueCapacity, (unsigned long long)s.o.historyRequest, s.o.queueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER ? ",block" : "", s.leave, s.todo, s.o.subscribeOnCreate ? "" : ",manual");
        }
        bool early = mode == "static" || mode == "block";
        for (auto& p : pubs)
            if (early || subs[0]->blocker || r.chance(500)) makePub(*p);
        for (auto& s : subs)
            if (early || s->blocker || (mode == "chaos" && r.chance(500))) makeSub(*s);
        w.discover();
    }
    void run(uint64_t seed)
    {
        setup();
        std::vector<std::function<void()>> bodies;
        for (auto& p : pubs) bodies.push_back([this, q = p.get()] { pubBody(*q); });
        for (auto& s : subs) bodies.push_back([this, q = s.get()] { subBody(*q); });
        bodies.push_back([this] { daemonBody(); });
        vs::Options o;
        o.seed = seed;
        o.stepLimit = 120000;
        o.graceSteps = 120000;
        auto res = vs::run(bodies, o);
        distinct(mix(res.hash, std::hash<std::string>()(cfg)));
        count("switches", res.switches);
        count("schedule_points", res.steps);
        if (res.fairMode) count("fair_mode");
        sample(fmt("[%s] %s; %llu schedule points, %llu switches", mode.c_str(), cfg.c_str(), (unsigned long long)res.steps, (unsigned long long)res.switches));
        count(("runs_" + mode).c_str());
        // quiescence
        for (auto& s : subs)
        {
            if (!s->u.live) continue;
            releaseSome(*s, 0);
            size_t first = s->takes.size();
            while (takeOne(*s)) releaseSome(*s, 0);
            readFlag(*s);
            if (mode == "static" || (mode == "block" && !s->gone))
            {
                bool mayLose = s->o.queueFullPolicy == popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
                judgeStatic(*s, mayLose);
                if (mayLose) judgeDrain(*s, first);
            }
            if (s->blocker)
            {
                bool late = false;
                for (auto& p : pubs) late = late || p->offerLate;
                if (!late) judgeStatic(*s, false);
                count("blockers");
            }
            else if (mode == "join") judgeJoin(*s);
        }
        // conservation: exactly the histories and last chunks remain
        if (mode != "chaos")
        {
            uint64_t expect = 0;
            for (auto& p : pubs) expect += std::max<uint64_t>(std::min<uint64_t>(p->o.historyCapacity, p->sent.size()), p->sent.empty() ? 0 : 1);
            CK(pools->info(0).m_usedChunks == expect, "conservation", "%u chunks in use, but only %llu are kept by publishers", pools->info(0).m_usedChunks, (unsigned long long)expect);
            count("conservation_checks");
        }
        for (auto& p : pubs)
            if (p->u.live) p->u.destroy();
        for (auto& s : subs)
            if (s->u.live) s->u.destroy();
        for (auto a : deadApps) w.pm->deletePortsOfProcess(appName(a));
        w.discover();
        CK(pools->info(0).m_usedChunks == 0, "leak", "%u chunks are in use after all endpoints are gone", pools->info(0).m_usedChunks);
        w.checkNoPorts("end of case");
        count("leak_checks");
    }
};
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "schedules of publisher, subscriber and daemon threads chosen by a seeded scheduler (random walk and PCT) at every atomic, lock, semaphore and sleep");
    World::get();
    std::string cur;
    vs::setStuckHandler([&](const std::string& what) { vh::fail("blocked-forever", what + " " + cur); });
    return runCases([&](uint64_t seed, uint64_t) {
        Case c(seed, ctx().mode);
        ctx().trace = &c.cfg;
        cur = "";
        vs::setStuckHandler([&](const std::string& what) { vh::fail("blocked-forever", "[" + c.mode + "] " + what + " " + c.cfg); });
        c.run(seed);
        ctx().trace = nullptr;
    });
}
