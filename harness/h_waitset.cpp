// WaitSet under the controlled scheduler: one waiter thread attaches, detaches, waits and consumes, up to three threads
// signal user triggers, publish, send requests and responses. The oracle works on the recorded intervals of the signals
// and waits. Modes: "" (mixed), "seq" (no other threads: exact). Serves C08.
#include "sched.hpp"
#include "world.hpp"
#include <algorithm>
#include <mutex>

using namespace vh;
using namespace vw;
using namespace iox;
using popo::NotificationInfo;

namespace
{
constexpr uint64_t NEVER = ~0ull;
struct Sig { uint64_t s{0}, e{NEVER}; };
struct Origin;
struct Att
{
    Origin* o{nullptr};
    int ws{0};
    bool state{false};
    bool withCb{false};
    uint64_t id{0};
    uint64_t as{0}, ae{0};          // attach call
    uint64_t repS{0}, repE{0};      // last wait that reported it
    bool reported{false};
    uint64_t reports{0};
    // what the callback saw
    const void* cbOrigin{nullptr};
    uint64_t cbCalls{0};
};
enum Kind { TRIGGER, SUB, SERVER, CLIENT };
struct Origin
{
    Kind k{TRIGGER};
    unsigned n{0};
    std::unique_ptr<popo::UserTrigger> t;
    std::unique_ptr<USub> sub;
    std::unique_ptr<UPub> pub;
    std::unique_ptr<UServer> srv;
    std::unique_ptr<UClient> cli;
    std::vector<Sig> sigs;
    unsigned remaining{0}; // signals that will still be started
    unsigned busy{0};      // signals in progress
    Att* att{nullptr};
    bool small{false}; // the queue may overflow, which makes it empty for a moment
    uint64_t consumedUpTo{0}; // number of the newest item taken
    capro::ServiceDescription sd{"a", "b", "c"};
    bool alive() const { return k == TRIGGER ? bool(t) : k == SUB ? bool(sub) : k == SERVER ? bool(srv) : bool(cli); }
    void* ptr() { return k == TRIGGER ? static_cast<void*>(t.get()) : k == SUB ? static_cast<void*>(sub.get()) : k == SERVER ? static_cast<void*>(srv.get()) : static_cast<void*>(cli.get()); }
    bool holds() { return k == SUB ? sub->hasData() : k == SERVER ? srv->hasRequests() : k == CLIENT ? cli->hasResponses() : false; }
};
template <typename T>
void onEvent(T* const o, Att* const a)
{
    a->cbOrigin = o;
    ++a->cbCalls;
}
using W1 = WSet<4>;
using W2 = WSet<2>;

struct Case
{
    Rng r;
    World& w{World::get()};
    std::string mode, cfg;
    Pools pools{{{64, 200}}};
    std::vector<std::unique_ptr<Origin>> os;
    std::vector<std::unique_ptr<Att>> atts;
    std::unique_ptr<W1> w1;
    std::unique_ptr<W2> w2;
    std::vector<std::vector<unsigned>> plan;
    unsigned running{0};
    bool marked{false}, markStarted{false};
    uint64_t nextCookie{1};
    std::string hist;
    explicit Case(uint64_t s, const std::string& m)
        : r(s)
        , mode(m)
    {
        if (mode.empty()) mode = r.chance(200) ? "seq" : "threads";
    }
#define CK(cond, key, ...) VH_CHECK(cond, key, "[%s] %s; %s; %s", mode.c_str(), vh::fmt(__VA_ARGS__).c_str(), cfg.c_str(), tail().c_str())
    std::string tail() { return hist.size() > 1500 ? "..." + hist.substr(hist.size() - 1500) : hist; }
    void note(const std::string& s) { hist += fmt("%llu:", (unsigned long long)vs::now()) + s + " "; }

    popo::ConditionVariableData& cv()
    {
        auto d = w.pm->acquireConditionVariableData(appName(77));
        VH_CHECK(!d.has_error(), "create", "no condition variable");
        return *d.value();
    }
    void makeSub(Origin& o)
    {
        popo::SubscriberOptions so;
        so.queueCapacity = r.chance(500) ? r.range(1, 4) : 32;
        o.small = so.queueCapacity < 32;
        so.historyRequest = 0;
        auto d = w.pm->acquireSubscriberPortData(o.sd, so, appName(1), roudi::PortManager::PortConfigInfo());
        CK(!d.has_error(), "create", "creating a subscriber failed");
        o.sub.reset(new USub(d.value()));
    }
    void make(Origin& o)
    {
        o.sd = svc(fmt("S%u", o.n).c_str(), "i", "e");
        roudi::PortManager::PortConfigInfo pci;
        switch (o.k)
        {
        case TRIGGER: o.t.reset(new popo::UserTrigger()); break;
        case SUB:
        {
            popo::PublisherOptions po;
            auto d = w.pm->acquirePublisherPortData(o.sd, po, appName(2), pools.mm.get(), pci);
            CK(!d.has_error(), "create", "creating a publisher failed");
            o.pub.reset(new UPub(d.value()));
            makeSub(o);
            break;
        }
        default:
        {
            popo::ServerOptions so;
            popo::ClientOptions co;
            so.requestQueueCapacity = 20;
            co.responseQueueCapacity = 20;
            auto s = w.pm->acquireServerPortData(o.sd, so, appName(3), pools.mm.get(), pci);
            CK(!s.has_error(), "create", "creating a server failed");
            o.srv.reset(new UServer(s.value()));
            auto c = w.pm->acquireClientPortData(o.sd, co, appName(4), pools.mm.get(), pci);
            CK(!c.has_error(), "create", "creating a client failed");
            o.cli.reset(new UClient(c.value()));
        }
        }
    }
    void request(Origin& o)
    {
        auto l = o.cli->loan(8, 8);
        CK(!l.has_error(), "loan", "loan of a request failed");
        CK(!o.cli->send(l.value()).has_error(), "send", "sending a request failed");
    }
    // performed by the signalling threads (or by the waiter in mode seq)
    void signal(Origin& o)
    {
        size_t i = o.sigs.size();
        Sig g;
        g.s = vs::now();
        o.sigs.push_back(g);
        --o.remaining;
        ++o.busy;
        note(fmt("sig%u{", o.n));
        switch (o.k)
        {
        case TRIGGER: o.t->trigger(); break;
        case SUB:
        {
            auto l = o.pub->loan(8, 8);
            CK(!l.has_error(), "loan", "loan failed");
            *static_cast<uint64_t*>(l.value()) = i + 1;
            o.pub->publish(l.value());
            break;
        }
        case SERVER: request(o); break;
        case CLIENT:
        {
            auto q = o.srv->take();
            CK(!q.has_error(), "take", "no request to answer");
            auto l = o.srv->loan(popo::RequestHeader::fromPayload(q.value()), 8, 8);
            CK(!l.has_error(), "loan", "loan of a response failed");
            CK(!o.srv->send(l.value()).has_error(), "send", "sending a response failed");
            o.srv->releaseRequest(q.value());
            break;
        }
        }
        o.sigs[i].e = vs::now();
        --o.busy;
        note(fmt("}sig%u", o.n));
        count("signals");
    }
    // performed by the waiter
    bool consume(Origin& o)
    {
        switch (o.k)
        {
        case SUB:
        {
            auto t = o.sub->take();
            if (t.has_error()) return false;
            o.consumedUpTo = *static_cast<const uint64_t*>(t.value());
            o.sub->release(t.value());
            return true;
        }
        case SERVER:
        {
            auto t = o.srv->take();
            if (t.has_error()) return false;
            ++o.consumedUpTo;
            o.srv->releaseRequest(t.value());
            return true;
        }
        case CLIENT:
        {
            auto t = o.cli->take();
            if (t.has_error()) return false;
            ++o.consumedUpTo;
            o.cli->releaseResponse(t.value());
            return true;
        }
        default: return false;
        }
    }
    template <typename WS>
    expected<void, popo::WaitSetError> attachTo(WS& ws, Origin& o, Att& a)
    {
        bool noId = a.id == (a.withCb ? NotificationInfo::INVALID_ID : 0);
        auto doEvent = [&](auto& obj, auto ev) {
            using T = std::remove_reference_t<decltype(obj)>;
            auto c = popo::createNotificationCallback(onEvent<T>, a);
            if (a.withCb) return noId ? ws.attachEvent(obj, ev, c) : ws.attachEvent(obj, ev, a.id, c);
            return noId ? ws.attachEvent(obj, ev) : ws.attachEvent(obj, ev, a.id);
        };
        auto doState = [&](auto& obj, auto st) {
            using T = std::remove_reference_t<decltype(obj)>;
            auto c = popo::createNotificationCallback(onEvent<T>, a);
            if (a.withCb) return noId ? ws.attachState(obj, st, c) : ws.attachState(obj, st, a.id, c);
            return noId ? ws.attachState(obj, st) : ws.attachState(obj, st, a.id);
        };
        switch (o.k)
        {
        case TRIGGER:
        {
            auto c = popo::createNotificationCallback(onEvent<popo::UserTrigger>, a);
            if (a.withCb) return noId ? ws.attachEvent(*o.t, c) : ws.attachEvent(*o.t, a.id, c);
            return noId ? ws.attachEvent(*o.t) : ws.attachEvent(*o.t, a.id);
        }
        case SUB: return a.state ? doState(*o.sub, popo::SubscriberState::HAS_DATA) : doEvent(*o.sub, popo::SubscriberEvent::DATA_RECEIVED);
        case SERVER: return a.state ? doState(*o.srv, popo::ServerState::HAS_REQUEST) : doEvent(*o.srv, popo::ServerEvent::REQUEST_RECEIVED);
        default: return a.state ? doState(*o.cli, popo::ClientState::HAS_RESPONSE) : doEvent(*o.cli, popo::ClientEvent::RESPONSE_RECEIVED);
        }
    }
    uint64_t attached(int ws)
    {
        uint64_t n = 0;
        for (auto& o : os) n += o->att && o->att->ws == ws;
        return n;
    }
    void checkSizes()
    {
        if (w1) CK(w1->size() == attached(1), "size", "wait set 1 has %llu attachments instead of %llu", (unsigned long long)w1->size(), (unsigned long long)attached(1));
        if (w2) CK(w2->size() == attached(2), "size", "wait set 2 has %llu attachments instead of %llu", (unsigned long long)w2->size(), (unsigned long long)attached(2));
    }
    void attach(Origin& o)
    {
        if (!o.alive()) return;
        auto a = std::make_unique<Att>();
        a->o = &o;
        a->ws = w2 && r.chance(300) ? 2 : 1;
        if (a->ws == 1 && !w1) return;
        a->state = o.k != TRIGGER && r.chance(500);
        a->withCb = r.chance(600);
        a->id = r.chance(200) ? NotificationInfo::INVALID_ID : r.chance(100) ? 0 : r.below(1000) + 1;
        if (!a->withCb && a->id == NotificationInfo::INVALID_ID) a->id = 0; // the documented default then
        bool twice = o.att && o.att->ws == a->ws && o.att->state == a->state;
        bool full = attached(a->ws) == (a->ws == 1 ? W1::capacity() : W2::capacity());
        note(fmt("attach%u.%d%s{", o.n, a->ws, a->state ? "s" : "e"));
        a->as = vs::now();
        auto res = a->ws == 1 ? attachTo(*w1, o, *a) : attachTo(*w2, o, *a);
        a->ae = vs::now();
        note("}");
        if (twice || full)
        {
            CK(res.has_error() && ((twice && res.error() == popo::WaitSetError::ALREADY_ATTACHED) || (full && res.error() == popo::WaitSetError::WAIT_SET_FULL)), "attach-error",
               "attaching %s gave %s", twice ? "twice" : "to a full wait set", res.has_error() ? "a different error" : "success");
            count(twice ? "refused_twice" : "refused_full");
        }
        else
        {
            CK(!res.has_error(), "attach-error", "attaching failed with %d", int(res.error()));
            if (o.att) count("moved_attachments");
            o.att = a.get();
            count("attachments");
        }
        atts.push_back(std::move(a));
        checkSizes();
    }
    void detach(Origin& o)
    {
        if (!o.att) return;
        Att& a = *o.att;
        note(fmt("detach%u{", o.n));
        auto go = [&](auto& ws) {
            if (o.k == TRIGGER) ws.detachEvent(*o.t);
            else if (o.k == SUB) a.state ? ws.detachState(*o.sub, popo::SubscriberState::HAS_DATA) : ws.detachEvent(*o.sub, popo::SubscriberEvent::DATA_RECEIVED);
            else if (o.k == SERVER) a.state ? ws.detachState(*o.srv, popo::ServerState::HAS_REQUEST) : ws.detachEvent(*o.srv, popo::ServerEvent::REQUEST_RECEIVED);
            else a.state ? ws.detachState(*o.cli, popo::ClientState::HAS_RESPONSE) : ws.detachEvent(*o.cli, popo::ClientEvent::RESPONSE_RECEIVED);
        };
        if (a.ws == 1) go(*w1);
        else go(*w2);
        note("}");
        o.att = nullptr;
        checkSizes();
        count("detachments");
    }
    // ---- the oracle ----------------------------------------------------------------------------------------------
    // must a wait that starts at t report this attachment?
    bool must(Att& a, uint64_t t)
    {
        Origin& o = *a.o;
        if (a.state)
        {
            uint64_t done = 0; // number of the newest item whose signal is complete
            for (size_t i = 0; i < o.sigs.size(); ++i)
                if (o.sigs[i].e < t) done = i + 1;
            return done > o.consumedUpTo && o.holds();
        }
        for (auto& g : o.sigs)
            if (g.s > a.ae && g.e < t && (!a.reported || g.s > a.repE)) return true;
        return false;
    }
    // may a wait that ended at t report it?
    bool may(Att& a, uint64_t t)
    {
        Origin& o = *a.o;
        if (a.state) return o.holds() || (o.small && o.busy > 0);
        uint64_t possible = 0;
        bool fresh = false;
        for (auto& g : o.sigs)
            if (g.s < t && g.e > a.as)
            {
                ++possible;
                if (!a.reported || g.e > a.repS) fresh = true;
            }
        return fresh && possible > a.reports;
    }
    bool overlaps(Origin& o, uint64_t t0)
    {
        for (auto& g : o.sigs)
            if (g.e > t0) return true;
        return false;
    }
    bool willBeSignalled(int ws)
    {
        for (auto& o : os)
            if (o->att && o->att->ws == ws && o->remaining > 0 && mode != "seq") return true;
        return false;
    }
    template <typename WS>
    void waitOn(WS& ws, int n, bool forced)
    {
        uint64_t t0 = vs::now();
        std::vector<Att*> musts;
        for (auto& o : os)
            if (o->att && o->att->ws == n && must(*o->att, t0)) musts.push_back(o->att);
        bool destroyed = n == 1 && marked;
        bool block = (forced || r.chance(900)) && (!musts.empty() || willBeSignalled(n) || destroyed);
        note(fmt("%s%d{", block ? "wait" : "timedWait", n));
        auto v = block ? ws.wait() : ws.timedWait(units::Duration::fromNanoseconds(r.below(3)));
        uint64_t t1 = vs::now();
        std::string rep;
        std::set<Att*> got;
        for (auto& i : v)
        {
            Att* a = nullptr;
            for (auto& o : os)
            {
                bool from = o->k == TRIGGER ? i->doesOriginateFrom(o->t.get()) : o->k == SUB ? i->doesOriginateFrom(o->sub.get()) : o->k == SERVER ? i->doesOriginateFrom(o->srv.get()) : i->doesOriginateFrom(o->cli.get());
                if (o->alive() && from)
                {
                    CK(o->att && o->att->ws == n, "reported-detached", "wait set %d reported origin %u which is not attached to it", n, o->n);
                    a = o->att;
                    const void* p = o->k == TRIGGER ? static_cast<void*>(i->template getOrigin<popo::UserTrigger>()) : o->k == SUB ? static_cast<void*>(i->template getOrigin<USub>()) : o->k == SERVER ? static_cast<void*>(i->template getOrigin<UServer>()) : static_cast<void*>(i->template getOrigin<UClient>());
                    CK(p == o->ptr(), "origin", "getOrigin returned another object");
                }
            }
            CK(a != nullptr, "reported-unknown", "wait set %d reported something that is not attached", n);
            CK(got.insert(a).second, "reported-twice", "origin %u is reported twice by one wait", a->o->n);
            CK(i->getNotificationId() == a->id, "id", "origin %u was attached with id %llu and reported with %llu", a->o->n, (unsigned long long)a->id, (unsigned long long)i->getNotificationId());
            uint64_t before = a->cbCalls;
            a->cbOrigin = nullptr;
            bool called = (*i)();
            CK(called == a->withCb && a->cbCalls == before + (a->withCb ? 1 : 0) && (!a->withCb || a->cbOrigin == a->o->ptr()), "callback", "the callback of origin %u was not called as attached", a->o->n);
            rep += fmt("%u%s ", a->o->n, a->state ? "s" : "e");
        }
        note("->" + rep + "}");
        for (auto* a : got)
        {
            CK(may(*a, t1), "spurious", "wait set %d reported %s of origin %u although it %s", n, a->state ? "the state" : "the event", a->o->n, a->state ? "does not hold" : "was not signalled since it was last reported");
            a->reported = true;
            a->repS = t0;
            a->repE = t1;
            ++a->reports;
            count(a->state ? "reported_states" : "reported_events");
        }
        if (!destroyed && !(n == 1 && markStarted))
            for (auto* a : musts) CK(got.count(a) || (a->state && a->o->small && overlaps(*a->o, t0)), "not-reported", "wait set %d did not report %s of origin %u which was active before the wait began", n, a->state ? "the state" : "the event", a->o->n);
        count(block ? "waits" : "timed_waits");
        if (v.empty()) count("empty_results");
        if (musts.size() > 1) count("several_active");
    }
    void waiter()
    {
        vs::label("waiter");
        for (unsigned n = unsigned(r.range(4, 40)); n; --n) waiterStep();
        vs::waitUntil([&] { return running == 0; }, "signals done");
        // everything signalled must come out, then silence
        for (int k = 0; k < 3; ++k)
        {
            if (w1 && !marked) waitOn(*w1, 1, true);
            if (w2) waitOn(*w2, 2, true);
        }
        for (auto& o : os)
            if (o->att && !marked)
            {
                bool m = must(*o->att, vs::now());
                CK(m == (o->att->state && o->holds()), "not-reported", "the event of origin %u was never reported", o->n);
            }
        count("final_checks");
    }
    void waiterStep()
    {
        Origin& o = *os[r.below(os.size())];
        switch (r.below(20))
        {
        case 0: case 1: case 2: attach(o); break;
        case 3: detach(o); break;
        case 4: case 5: case 6:
            for (uint64_t k = r.range(1, 3); k; --k)
                if (o.alive() && (o.k != CLIENT || mode == "seq" || true)) consume(o);
            break;
        case 7:
            if (mode == "seq" && o.alive() && o.remaining > 0) signal(o);
            else vs::yieldPoint();
            break;
        case 8:
            if (w2 && r.chance(200))
            {
                note("destroyWs2{");
                w2.reset();
                note("}");
                for (auto& p : os)
                    if (p->att && p->att->ws == 2) p->att = nullptr;
                count("destroyed_waitsets");
                if (r.chance(500)) w.discover();
            }
            else if (!w2 && r.chance(500)) w2.reset(new W2(cv()));
            break;
        case 9:
            if (o.k == SUB && o.sub && r.chance(300))
            {
                note(fmt("destroy%u{", o.n));
                o.sub.reset();
                o.att = nullptr;
                note("}");
                checkSizes();
                count("destroyed_origins");
                if (r.chance(500)) w.discover();
            }
            else if ((o.k == CLIENT || o.k == SERVER) && o.remaining == 0 && o.busy == 0 && o.alive())
            {
                note(fmt("destroy%u{", o.n));
                if (o.k == CLIENT) o.cli.reset();
                else o.srv.reset();
                o.att = nullptr;
                note("}");
                checkSizes();
                // the other side goes on talking to the port until the daemon has removed it
                if (o.k == SERVER)
                {
                    auto l = o.cli->loan(8, 8);
                    if (!l.has_error()) (void)o.cli->send(l.value());
                }
                count("destroyed_origins");
            }
            else if (o.k == TRIGGER && o.t && o.remaining == 0 && o.busy == 0)
            {
                note(fmt("destroy%u{", o.n));
                o.t.reset();
                o.att = nullptr;
                note("}");
                checkSizes();
                count("destroyed_origins");
            }
            else if (o.k == SUB && !o.sub)
            {
                w.discover();
                makeSub(o);
                w.discover();
                o.consumedUpTo = o.sigs.size(); // no history was requested; what is in progress now may or may not arrive
                for (auto& g : o.sigs)
                    if (g.e == NEVER) g.s = 0; // not judged any more
            }
            else if (o.k == TRIGGER && !o.t) o.t.reset(new popo::UserTrigger());
            break;
        case 10: case 11: case 12:
            if (mode == "seq" && o.alive() && o.remaining > 0) { signal(o); break; }
            // fall through
        default:
            if (!willBeSignalled(1) && !willBeSignalled(2) && mode != "seq" && r.chance(600)) { vs::yieldPoint(); break; }
            if (w2 && r.chance(300)) waitOn(*w2, 2, false);
            else if (w1) waitOn(*w1, 1, false);
        }
    }
    void run(uint64_t seed)
    {
        unsigned n = unsigned(r.range(1, 7));
        unsigned threads = mode == "seq" ? 0 : unsigned(r.range(1, 3));
        plan.resize(threads);
        for (unsigned i = 0; i < n; ++i)
        {
            os.emplace_back(new Origin());
            auto& o = *os.back();
            o.n = i;
            o.k = Kind(r.chance(400) ? 0 : r.below(4));
            make(o);
            unsigned s = unsigned(r.below(6));
            o.remaining = s;
            cfg += fmt("%s%u x%u ", o.k == TRIGGER ? "T" : o.k == SUB ? "P" : o.k == SERVER ? "S" : "C", i, s);
            if (threads)
            {
                unsigned t = unsigned(r.below(threads));
                for (unsigned k = 0; k < s; ++k) plan[o.k == TRIGGER ? unsigned(r.below(threads)) : t].push_back(i);
            }
        }
        w.discover();
        for (auto& o : os)
            if (o->k == CLIENT)
                for (unsigned k = 0; k < o->remaining; ++k) request(*o);
        for (auto& p : plan)
            for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
        w1.reset(new W1(cv()));
        if (r.chance(500)) w2.reset(new W2(cv()));
        for (auto& p : os)
            if (r.chance(750)) attach(*p);
        bool mark = mode != "seq" && r.chance(60);
        std::vector<std::function<void()>> bodies;
        bodies.push_back([this] { waiter(); });
        running = threads;
        for (unsigned t = 0; t < threads; ++t)
            bodies.push_back([this, t] {
                vs::label("signaller");
                for (unsigned x : plan[t])
                {
                    static const uint64_t gap[] = {4, 40, 400, 1500};
                    for (uint64_t k = r.below(gap[r.below(4)]); k; --k) vs::point();
                    signal(*os[x]);
                }
                --running;
            });
        if (mark)
        {
            ++running;
            bodies.push_back([this] {
                vs::label("destroyer");
                for (uint64_t k = r.below(200); k; --k) vs::point();
                markStarted = true;
                w1->markForDestruction();
                marked = true;
                --running;
                count("marked_for_destruction");
            });
        }
        vs::setTimeoutRate(300);
        vs::Options o;
        o.seed = seed;
        auto res = vs::run(bodies, o);
        distinct(mix(res.hash, std::hash<std::string>()(cfg)));
        count("switches", res.switches);
        count("schedule_points", res.steps);
        count(("runs_" + mode).c_str());
        sample(fmt("[%s] %s; %s", mode.c_str(), cfg.c_str(), tail().c_str()));
        if (r.chance(500))
        {
            w1.reset();
            w2.reset();
            for (auto& p : os) p->att = nullptr;
            for (auto& p : os) if (p->t) { p->t->trigger(); CK(!p->t->hasTriggered(), "dangling", "a trigger survived its wait set"); }
            for (auto& p : os)
                if (p->pub)
                {
                    auto l = p->pub->loan(8, 8);
                    if (!l.has_error()) p->pub->publish(l.value());
                }
        }
        os.clear();
        if (w1) CK(w1->size() == 0, "size", "attachments of destroyed objects remain");
        w1.reset();
        w2.reset();
        w.discover();
        w.checkNoPorts("end of case");
    }
};
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "schedules of one waiting and up to three signalling threads chosen by a seeded scheduler at every atomic, lock and semaphore operation; distinct = different decision sequences");
    World::get();
    return runCases([&](uint64_t seed, uint64_t) {
        Case c(seed, ctx().mode);
        ctx().trace = &c.hist;
        vs::setStuckHandler([&](const std::string& what) { vh::fail("lost-wakeup", "[" + c.mode + "] " + what + " " + c.cfg + " " + c.tail()); });
        c.run(seed);
        ctx().trace = nullptr;
    });
}
