// Listener under the controlled scheduler: the listener's own thread, up to three threads which attach, detach and destroy
// their origins and signal, and callbacks which signal, detach and attach. The oracle is an online monitor in the callbacks
// plus the recorded intervals of signals and detaches. Modes: "" general, selfdetach / cbattach (known deadlocks). Serves C09.
#include "sched.hpp"
#include "world.hpp"
#include <algorithm>
#include <mutex>

using namespace vh;
using namespace vw;
using namespace iox;

namespace
{
constexpr uint64_t NEVER = ~0ull;
struct Lst : popo::Listener
{
    explicit Lst(popo::ConditionVariableData& d)
        : popo::Listener(d) {}
};
struct Origin;
struct Case;
struct Att
{
    Case* c{nullptr};
    Origin* o{nullptr};
    int lst{0};
    uint64_t as{0}, ae{NEVER}, ds{NEVER}, de{NEVER}; // attach and detach calls
    bool ok{false};
    uint64_t calls{0}, lastStart{0};
    bool running{false};
};
struct Sig { uint64_t s{0}, e{NEVER}; };
enum Kind { TRIGGER, SUB, SERVER, CLIENT };
struct Origin
{
    Kind k{TRIGGER};
    unsigned n{0};
    bool selfTouch{false}; // its callback uses its own handle; then only the callback detaches it
    std::unique_ptr<popo::UserTrigger> t;
    std::unique_ptr<USub> sub;
    std::unique_ptr<UPub> pub;
    std::unique_ptr<UServer> srv;
    std::unique_ptr<UClient> cli;
    std::vector<Sig> sigs;
    unsigned remaining{0}, busy{0};
    bool dying{false};
    Att* att{nullptr};
    capro::ServiceDescription sd{"a", "b", "c"};
    void* ptr() { return k == TRIGGER ? static_cast<void*>(t.get()) : k == SUB ? static_cast<void*>(static_cast<popo::UntypedSubscriberImpl<>*>(sub.get())) : k == SERVER ? static_cast<void*>(static_cast<popo::UntypedServerImpl<>*>(srv.get())) : static_cast<void*>(static_cast<popo::UntypedClientImpl<>*>(cli.get())); }
    bool alive() { return ptr() != nullptr && !dying; }
};
template <typename T>
void onEvent(T* const o, Att* const a);

struct Case
{
    Rng r;
    World& w{World::get()};
    std::string mode, cfg, hist;
    Pools pools{{{64, 300}}};
    std::vector<std::unique_ptr<Origin>> os;
    std::vector<std::unique_ptr<Att>> atts;
    std::unique_ptr<Lst> l[2];
    Lst* lp[2]{nullptr, nullptr};
    unsigned inCallback[2]{0, 0};
    bool lstGone[2]{false, false};
    unsigned nl{1};
    unsigned running{0};
    bool ready{false}, callbacksAttach{false}, earlyDestroy{false}, noDetach{false};
    uint64_t signalsStarted{0}, invocations{0}, mutations{0};
    std::vector<std::vector<unsigned>> owned; // per thread: origins it attaches and detaches
    std::vector<std::vector<unsigned>> plan;  // per thread: signals
    explicit Case(uint64_t s, const std::string& m)
        : r(s)
        , mode(m)
    {
    }
#define CK(cond, key, ...) VH_CHECK(cond, key, "%s; %s; %s", vh::fmt(__VA_ARGS__).c_str(), cfg.c_str(), tail().c_str())
    std::string tail() { return hist.size() > 1800 ? "..." + hist.substr(hist.size() - 1800) : hist; }
    void note(const std::string& s) { hist += fmt("%llu:", (unsigned long long)vs::now()) + s + " "; }
    popo::ConditionVariableData& cv()
    {
        auto d = w.pm->acquireConditionVariableData(appName(77));
        VH_CHECK(!d.has_error(), "create", "no condition variable");
        return *d.value();
    }
    void make(Origin& o)
    {
        roudi::PortManager::PortConfigInfo pci;
        o.sd = svc(fmt("S%u", o.n).c_str(), "i", "e");
        if (o.k == TRIGGER) { o.t.reset(new popo::UserTrigger()); return; }
        if (o.k == SUB)
        {
            popo::PublisherOptions po;
            popo::SubscriberOptions so;
            so.queueCapacity = r.range(1, 6);
            auto p = w.pm->acquirePublisherPortData(o.sd, po, appName(2), pools.mm.get(), pci);
            auto s = w.pm->acquireSubscriberPortData(o.sd, so, appName(1), pci);
            CK(!p.has_error() && !s.has_error(), "create", "creating endpoints failed");
            o.pub.reset(new UPub(p.value()));
            o.sub.reset(new USub(s.value()));
            return;
        }
        popo::ServerOptions so;
        popo::ClientOptions co;
        so.requestQueueCapacity = 20;
        co.responseQueueCapacity = 20;
        auto s = w.pm->acquireServerPortData(o.sd, so, appName(3), pools.mm.get(), pci);
        auto c = w.pm->acquireClientPortData(o.sd, co, appName(4), pools.mm.get(), pci);
        CK(!s.has_error() && !c.has_error(), "create", "creating endpoints failed");
        o.srv.reset(new UServer(s.value()));
        o.cli.reset(new UClient(c.value()));
    }
    void request(Origin& o)
    {
        auto q = o.cli->loan(8, 8);
        CK(!q.has_error(), "loan", "loan of a request failed");
        CK(!o.cli->send(q.value()).has_error(), "send", "sending a request failed");
    }
    void signal(Origin& o)
    {
        size_t i = o.sigs.size();
        Sig g;
        g.s = vs::now();
        o.sigs.push_back(g);
        ++signalsStarted;
        ++o.busy;
        note(fmt("sig%u{", o.n));
        switch (o.k)
        {
        case TRIGGER: o.t->trigger(); break;
        case SUB:
        {
            auto c = o.pub->loan(8, 8);
            CK(!c.has_error(), "loan", "loan failed");
            o.pub->publish(c.value());
            break;
        }
        case SERVER: request(o); break;
        case CLIENT:
        {
            auto q = o.srv->take();
            CK(!q.has_error(), "take", "no request to answer");
            auto c = o.srv->loan(popo::RequestHeader::fromPayload(q.value()), 8, 8);
            CK(!c.has_error(), "loan", "loan of a response failed");
            CK(!o.srv->send(c.value()).has_error(), "send", "sending a response failed");
            o.srv->releaseRequest(q.value());
            break;
        }
        }
        o.sigs[i].e = vs::now();
        --o.busy;
        note(fmt("}sig%u", o.n));
        count("signals");
    }
    void drain(Origin& o)
    {
        if (o.k == SUB)
            for (;;)
            {
                auto t = o.sub->take();
                if (t.has_error()) break;
                o.sub->release(t.value());
            }
        else if (o.k == SERVER)
            for (;;)
            {
                auto t = o.srv->take();
                if (t.has_error()) break;
                o.srv->releaseRequest(t.value());
            }
        else if (o.k == CLIENT)
            for (;;)
            {
                auto t = o.cli->take();
                if (t.has_error()) break;
                o.cli->releaseResponse(t.value());
            }
    }
    void attach(Origin& o, int n, bool inCb)
    {
        if (!o.alive()) return;
        atts.emplace_back(new Att());
        Att* a = atts.back().get();
        a->c = this;
        a->o = &o;
        a->lst = n;
        bool twice = o.att && o.att->lst == n;
        Att* old = o.att;
        if (old && !twice)
        {
            return; // detached first, as the documentation recommends
        }
        note(fmt("attach%u.%d%s{", o.n, n, inCb ? "cb" : ""));
        ++mutations;
        a->as = vs::now();
        if (!twice) o.att = a;
        auto go = [&](auto& obj, auto ev) {
            using T = std::remove_reference_t<decltype(obj)>;
            return lp[n]->attachEvent(obj, ev, popo::createNotificationCallback(onEvent<T>, *a));
        };
        auto res = [&]() -> expected<void, popo::ListenerError> {
            switch (o.k)
            {
            case TRIGGER: return lp[n]->attachEvent(*o.t, popo::createNotificationCallback(onEvent<popo::UserTrigger>, *a));
            case SUB: return go(static_cast<popo::UntypedSubscriberImpl<>&>(*o.sub), popo::SubscriberEvent::DATA_RECEIVED);
            case SERVER: return go(static_cast<popo::UntypedServerImpl<>&>(*o.srv), popo::ServerEvent::REQUEST_RECEIVED);
            default: return go(static_cast<popo::UntypedClientImpl<>&>(*o.cli), popo::ClientEvent::RESPONSE_RECEIVED);
            }
        }();
        a->ae = vs::now();
        note("}");
        if (twice)
        {
            // the callback may have detached itself meanwhile
            if (o.att == old && !o.selfTouch) CK(res.has_error() && res.error() == popo::ListenerError::EVENT_ALREADY_ATTACHED, "attach-error", "attaching twice was not refused");
            if (!res.has_error()) { o.att = a; a->ok = true; }
            count("refused_twice");
            return;
        }
        CK(!res.has_error(), "attach-error", "attaching origin %u failed with %d", o.n, int(res.error()));
        a->ok = true;
        count(inCb ? "attached_in_callback" : "attachments");
    }
    // external detach or destruction; by the owning thread only
    void detach(Origin& o, bool destroy, bool inCb, Att* self)
    {
        Att* a = o.att;
        if (!a) return;
        note(fmt("%s%u%s{", destroy ? "destroy" : "detach", o.n, inCb ? "cb" : ""));
        ++mutations;
        a->ds = vs::now();
        if (destroy)
        {
            // the pointers stay readable for a callback which runs while the destructor waits for it
            o.dying = true;
            if (o.k == TRIGGER) { delete o.t.get(); (void)o.t.release(); }
            else { delete o.sub.get(); (void)o.sub.release(); }
        }
        else if (o.k == TRIGGER) lp[a->lst]->detachEvent(*o.t);
        else if (o.k == SUB) lp[a->lst]->detachEvent(static_cast<popo::UntypedSubscriberImpl<>&>(*o.sub), popo::SubscriberEvent::DATA_RECEIVED);
        else if (o.k == SERVER) lp[a->lst]->detachEvent(static_cast<popo::UntypedServerImpl<>&>(*o.srv), popo::ServerEvent::REQUEST_RECEIVED);
        else lp[a->lst]->detachEvent(static_cast<popo::UntypedClientImpl<>&>(*o.cli), popo::ClientEvent::RESPONSE_RECEIVED);
        CK(!a->running || a == self, "running-after-detach", "detach of origin %u returned while its callback is running", o.n);
        a->de = vs::now();
        note("}");
        if (o.att == a) o.att = nullptr;
        count(destroy ? "destroyed_attached" : inCb ? (a == self ? "self_detached" : "detached_in_callback") : "detachments");
    }
    // ---- the callback --------------------------------------------------------------------------------------------
    void callback(void* origin, Att* a)
    {
        vs::point();
        Origin& o = *a->o;
        ++invocations;
        ++a->calls;
        CK(origin == o.ptr(), "origin", "the callback of origin %u got another origin", o.n);
        CK(inCallback[a->lst] == 0, "concurrent", "two callbacks of one listener run at the same time");
        CK(a->de == NEVER, "after-detach", "the callback of origin %u is invoked after detach returned", o.n);
        CK(!lstGone[a->lst], "after-detach", "a callback is invoked after its listener was destroyed");
        CK(invocations <= signalsStarted, "spurious", "%llu invocations after %llu signals", (unsigned long long)invocations, (unsigned long long)signalsStarted);
        if (noDetach) CK(a->calls <= o.sigs.size(), "spurious", "origin %u was signalled %zu times and its callback invoked %llu times", o.n, o.sigs.size(), (unsigned long long)a->calls);
        ++inCallback[a->lst];
        a->running = true;
        a->lastStart = vs::now();
        note(fmt("cb%u(", o.n));
        count("invocations");
        if (r.chance(300) && !o.dying) drain(o);
        for (uint64_t k = r.below(r.chance(200) ? 600 : 6); k; --k) vs::point();
        if (mode.empty())
        {
            if (r.chance(150)) // signal somebody else, whose handle nobody but a quick detach holds
            {
                Origin& p = *os[r.below(os.size())];
                if (p.k == TRIGGER && p.t && p.selfTouch) signal(p);
            }
            if (o.selfTouch && o.k == TRIGGER && r.chance(200) && signalsStarted < 60) signal(o);
            if (o.selfTouch && r.chance(300) && o.att == a && !noDetach)
            {
                detach(o, false, true, a);
                if (callbacksAttach && r.chance(500)) attach(o, a->lst, true);
            }
            if (r.chance(100) && !noDetach) // detach somebody else of the same listener
            {
                Origin& p = *os[r.below(os.size())];
                if (p.selfTouch && p.att && p.att->ok && p.att->lst == a->lst && &p != &o) detach(p, false, true, a);
            }
            if (callbacksAttach && r.chance(200))
            {
                Origin& p = *os[r.below(os.size())];
                if (p.selfTouch && !p.att) attach(p, a->lst, true);
            }
        }
        else if (mode == "selfdetach")
        {
            if (o.att == a) detach(o, false, true, a);
        }
        else if (mode == "cbattach")
        {
            if (!os[1]->att) attach(*os[1], 0, true);
        }
        a->running = false;
        --inCallback[a->lst];
        note(fmt(")cb%u", o.n));
    }
    // ---- threads -------------------------------------------------------------------------------------------------
    void user(unsigned t)
    {
        vs::label("user");
        vs::waitUntil([&] { return ready; }, "start");
        size_t next = 0;
        unsigned idle = unsigned(r.below(10));
        while (next < plan[t].size() || idle > 0)
        {
            static const uint64_t gap[] = {3, 30, 700};
            for (uint64_t k = r.below(gap[r.below(3)]); k; --k) vs::point();
            if (next < plan[t].size() && r.chance(600))
            {
                signal(*os[plan[t][next++]]);
                continue;
            }
            if (idle) --idle;
            if (owned[t].empty() || earlyDestroy) continue;
            Origin& o = *os[owned[t][r.below(owned[t].size())]];
            if (o.selfTouch) continue;
            uint64_t x = r.below(10);
            if (x < 4 && !callbacksAttach && mode.empty()) attach(o, int(r.below(nl)), false);
            else if (x < 8 && !noDetach && o.att && o.att->ok) detach(o, false, false, nullptr);
            else if (x == 8 && !noDetach && o.att && o.att->ok && (o.k == SUB || (o.k == TRIGGER && o.remaining == 0))) detach(o, true, false, nullptr);
        }
        --running;
    }
    bool satisfied()
    {
        for (auto& o : os)
        {
            Att* a = o->att;
            if (!a || !a->ok || lstGone[a->lst]) continue;
            for (auto& g : o->sigs)
                if (g.s > a->ae && a->lastStart < g.s) return false;
        }
        return true;
    }
    void owner(unsigned threads)
    {
        vs::label("owner");
        for (unsigned i = 0; i < nl; ++i) { l[i].reset(new Lst(cv())); lp[i] = l[i].get(); }
        for (auto& o : os)
            if (r.chance(800)) attach(*o, int(r.below(nl)), false);
        running = threads;
        ready = true;
        if (earlyDestroy)
            for (uint64_t k = r.below(3000); k; --k) vs::point();
        else
        {
            vs::waitUntil([&] { return running == 0; }, "users");
            vs::waitUntil([&] { return inCallback[0] == 0 && inCallback[1] == 0 && satisfied(); }, "every signal is followed by its callback");
            count("satisfied_checks");
        }
        for (unsigned i = 0; i < nl; ++i)
        {
            if (!earlyDestroy)
            {
                uint64_t n = 0, before = mutations; // callbacks of late invocations may still attach and detach
                bool quiet = inCallback[i] == 0;
                for (auto& o : os) n += o->att && o->att->lst == int(i);
                uint64_t have = l[i]->size();
                if (quiet && before == mutations)
                {
                    count("size_checks");
                    CK(have == n, "size", "listener %u has %llu attachments instead of %llu", i, (unsigned long long)have, (unsigned long long)n);
                }
            }
            note("destroyListener{");
            l[i].reset();
            lstGone[i] = true;
            note("}");
            CK(inCallback[i] == 0, "running-after-detach", "the listener's destructor returned while a callback is running");
            for (auto& o : os)
                if (o->att && o->att->lst == int(i)) { o->att->de = vs::now(); o->att = nullptr; }
        }
        vs::waitUntil([&] { return running == 0; }, "users");
        for (auto& o : os)
            if (o->t) { o->t->trigger(); CK(!o->t->hasTriggered(), "dangling", "a trigger survived its listener"); }
    }
    void run(uint64_t seed)
    {
        unsigned n = mode.empty() ? unsigned(r.range(1, 7)) : 2;
        unsigned threads = mode.empty() ? unsigned(r.range(1, 3)) : 1;
        nl = mode.empty() && r.chance(250) ? 2 : 1;
        callbacksAttach = r.chance(400);
        noDetach = mode.empty() && r.chance(250);
        earlyDestroy = mode.empty() && r.chance(150);
        if (earlyDestroy) callbacksAttach = false;
        plan.resize(threads);
        owned.resize(threads);
        for (unsigned i = 0; i < n; ++i)
        {
            os.emplace_back(new Origin());
            auto& o = *os.back();
            o.n = i;
            o.k = mode.empty() ? Kind(r.chance(500) ? 0 : r.below(4)) : TRIGGER;
            o.selfTouch = mode.empty() && r.chance(400);
            make(o);
            unsigned s = unsigned(r.below(6));
            cfg += fmt("%s%u x%u%s ", o.k == TRIGGER ? "T" : o.k == SUB ? "P" : o.k == SERVER ? "S" : "C", i, s, o.selfTouch ? "self" : "");
            unsigned t = unsigned(r.below(threads));
            owned[t].push_back(i);
            o.remaining = s;
            for (unsigned k = 0; k < s; ++k) plan[o.k == TRIGGER ? unsigned(r.below(threads)) : t].push_back(i);
        }
        cfg += fmt("%u listeners%s%s%s", nl, callbacksAttach ? " callbacks attach" : "", noDetach ? " no detach" : "", earlyDestroy ? " early destroy" : "");
        w.discover();
        for (auto& o : os)
            if (o->k == CLIENT)
                for (unsigned k = 0; k < o->remaining; ++k) request(*o);
        for (auto& p : plan)
            for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
        std::vector<std::function<void()>> bodies;
        bodies.push_back([this, threads] { owner(threads); });
        if (mode == "selfdetach")
            bodies.push_back([this] {
                vs::waitUntil([&] { return ready; }, "start");
                for (uint64_t k = r.below(3); k; --k) if (os[0]->t) signal(*os[0]);
                for (uint64_t k = r.below(1000); k; --k) vs::point();
                detach(*os[0], false, false, nullptr);
                --running;
            });
        else if (mode == "cbattach")
            bodies.push_back([this] {
                vs::waitUntil([&] { return ready; }, "start");
                signal(*os[0]);
                for (uint64_t k = r.below(1000); k; --k) vs::point();
                popo::UserTrigger u;
                Att a;
                (void)l[0]->attachEvent(u, popo::createNotificationCallback(onEvent<popo::UserTrigger>, a));
                l[0]->detachEvent(u);
                --running;
            });
        else
            for (unsigned t = 0; t < threads; ++t) bodies.push_back([this, t] { user(t); });
        vs::Options o;
        o.seed = seed;
        o.stepLimit = 200000;
        o.graceSteps = 200000;
        auto res = vs::run(bodies, o);
        distinct(mix(res.hash, std::hash<std::string>()(cfg)));
        count("switches", res.switches);
        count("schedule_points", res.steps);
        if (earlyDestroy) count("early_destroy");
        sample(cfg + " " + tail());
        os.clear();
        w.discover();
        w.checkNoPorts("end of case");
    }
};
template <typename T>
void onEvent(T* const o, Att* const a)
{
    a->c->callback(o, a);
}
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "schedules of the listener's thread and up to three user threads chosen by a seeded scheduler at every atomic, lock and semaphore operation; distinct = different decision sequences");
    World::get();
    return runCases([&](uint64_t seed, uint64_t) {
        Case c(seed, ctx().mode);
        ctx().trace = &c.hist;
        vs::setStuckHandler([&](const std::string& what) {
            vh::fail(c.mode == "selfdetach" ? "deadlock-detach-while-callback-detaches" : c.mode == "cbattach" ? "deadlock-attach-while-callback-attaches" : "stuck",
                     what + " " + c.cfg + " " + c.tail());
        });
        c.run(seed);
        ctx().trace = nullptr;
    });
}
