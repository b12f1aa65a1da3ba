// Random histories of providers of several applications at a real daemon; the service discovery of several applications is
// searched and its notification watched. Exact model of what is offered. Serves C12.
#include "env.hpp"
#include <algorithm>
#include <set>

using namespace vh;
using namespace ve;

namespace
{
struct Provider
{
    bool server{false}, offered{false};
    unsigned app{0}, s{0};
    // both sides are kept by raw pointer: those of a dead application are never touched again
    popo::UntypedPublisher* p{nullptr};
    popo::UntypedServer* v{nullptr};
};
struct Finder
{
    unsigned app{0};
    runtime::ServiceDiscovery* d{nullptr};
    popo::WaitSet<>* w{nullptr};
    popo::Listener* l{nullptr};
    std::atomic<uint64_t> calls{0};
    uint64_t seenCalls{0};
    std::set<std::string> lastSeen[2]; // what was offered when the last notification was consumed
    bool primed{false};
};
void onChange(runtime::ServiceDiscovery*, Finder* f) { f->calls.fetch_add(1); }

struct Case
{
    Rng r;
    Env& env;
    std::string hist;
    std::vector<capro::ServiceDescription> names;
    std::vector<std::unique_ptr<Provider>> ps;
    std::vector<std::unique_ptr<Finder>> fs;
    const std::set<std::string>* base;
    std::set<std::string> always[2], ever[2]; // offered throughout / at some time since the last synchronisation
    unsigned nApps;
    Case(uint64_t s, Env& e, const std::set<std::string>* b)
        : r(s)
        , env(e)
        , base(b)
    {
    }
#define CK(cond, key, ...) VH_CHECK(cond, key, "%s; %s", vh::fmt(__VA_ARGS__).c_str(), hist.c_str())
    static std::string key(const capro::ServiceDescription& s)
    {
        return std::string(s.getServiceIDString().c_str()) + "/" + s.getInstanceIDString().c_str() + "/" + s.getEventIDString().c_str();
    }
    std::string app(unsigned a) { return fmt("app%u", a); }
    std::set<std::string> offered(int k)
    {
        std::set<std::string> r;
        for (auto& p : ps)
            if (p->offered && p->server == (k == 1)) r.insert(key(names[p->s]));
        return r;
    }
    void changed()
    {
        for (int k = 0; k < 2; ++k)
        {
            auto now = offered(k);
            ever[k].insert(now.begin(), now.end());
            for (auto it = always[k].begin(); it != always[k].end();)
                if (now.count(*it)) ++it;
                else it = always[k].erase(it);
        }
    }
    void sync()
    {
        env.discover();
        env.discover();
        for (int k = 0; k < 2; ++k) always[k] = ever[k] = offered(k);
        hist += "| ";
        count("synchronisations");
    }
    void drop(size_t i)
    {
        ps.erase(ps.begin() + long(i));
        changed();
    }
    void create()
    {
        if (ps.size() > 24) return;
        auto p = std::make_unique<Provider>();
        p->server = r.chance(500);
        p->app = unsigned(r.below(nApps));
        p->s = unsigned(r.below(names.size()));
        bool offer = r.chance(600);
        env.app(app(p->app));
        if (p->server)
        {
            popo::ServerOptions o;
            o.offerOnCreate = offer;
            // a second server of the same service is refused by the daemon: not part of this property
            for (auto& q : ps)
                if (q->server && q->s == p->s) return;
            p->v = new popo::UntypedServer(names[p->s], o);
        }
        else
        {
            popo::PublisherOptions o;
            o.offerOnCreate = offer;
            p->p = new popo::UntypedPublisher(names[p->s], o);
        }
        hist += fmt("new%s%u(%s,%s) ", p->server ? "S" : "P", p->app, key(names[p->s]).c_str(), offer ? "on" : "off");
        p->offered = offer;
        ps.push_back(std::move(p));
        changed();
        count("providers");
    }
    void toggle()
    {
        if (ps.empty()) return;
        auto& p = *ps[r.below(ps.size())];
        bool on = r.chance(500);
        hist += fmt("%s%s%u(%s) ", on ? "offer" : "stop", p.server ? "S" : "P", p.app, key(names[p.s]).c_str());
        if (p.server) on ? p.v->offer() : p.v->stopOffer();
        else on ? p.p->offer() : p.p->stopOffer();
        p.offered = on;
        changed();
        count(on ? "offers" : "stops");
    }
    void destroy()
    {
        if (ps.empty()) return;
        size_t i = r.below(ps.size());
        auto& p = *ps[i];
        hist += fmt("del%s%u(%s) ", p.server ? "S" : "P", p.app, key(names[p.s]).c_str());
        delete p.p;
        delete p.v;
        drop(i);
        count("destroyed");
    }
    void die()
    {
        unsigned a = unsigned(r.below(nApps));
        if (!env.rts.count(app(a))) return;
        hist += fmt("die%u ", a);
        // everything of the application disappears without its destructors having run
        for (size_t i = 0; i < fs.size();)
            if (fs[i]->app == a)
            {
                // listeners have a thread in this process; the discovery objects of applications which die have none
                if (fs[i]->l) return;
                ++i;
            }
            else ++i;
        fs.erase(std::remove_if(fs.begin(), fs.end(), [&](auto& f) { return f->app == a; }), fs.end());
        env.kill(app(a));
        for (size_t i = 0; i < ps.size();)
            if (ps[i]->app == a) ps.erase(ps.begin() + long(i));
            else ++i;
        changed();
        count("deaths");
    }
    void newFinder()
    {
        if (fs.size() >= 4) return;
        auto f = std::make_unique<Finder>();
        f->app = unsigned(r.below(nApps));
        env.app(app(f->app));
        f->d = new runtime::ServiceDiscovery();
        uint64_t x = r.below(3);
        if (x == 0)
        {
            f->w = new popo::WaitSet<>();
            CK(!f->w->attachEvent(*f->d, runtime::ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED).has_error(), "attach", "attaching the discovery event failed");
        }
        else if (x == 1)
        {
            f->l = new popo::Listener();
            CK(!f->l->attachEvent(*f->d, runtime::ServiceDiscoveryEvent::SERVICE_REGISTRY_CHANGED, popo::createNotificationCallback(onChange, *f)).has_error(), "attach", "attaching the discovery event failed");
        }
        hist += fmt("finder%u%s ", f->app, x == 0 ? "W" : x == 1 ? "L" : "");
        fs.push_back(std::move(f));
    }
    void search(Finder& f, bool exact)
    {
        int k = int(r.below(2));
        size_t fixed = r.below(names.size());
        bool oneName = r.chance(600);
        auto pick = [&](int part) -> optional<capro::IdString_t> {
            if (r.chance(400)) return nullopt;
            auto& n = names[oneName ? fixed : r.below(names.size())];
            if (r.chance(60)) return optional<capro::IdString_t>(id("nobody"));
            return optional<capro::IdString_t>(part == 0 ? n.getServiceIDString() : part == 1 ? n.getInstanceIDString() : n.getEventIDString());
        };
        auto a = pick(0), b = pick(1), c = pick(2);
        std::vector<std::string> found;
        f.d->findService(a, b, c, [&](const capro::ServiceDescription& s) { found.push_back(key(s)); }, k == 1 ? popo::MessagingPattern::REQ_RES : popo::MessagingPattern::PUB_SUB);
        auto matches = [&](const std::string& s) {
            auto p = s.find('/'), q = s.rfind('/');
            return (!a || s.substr(0, p) == a->c_str()) && (!b || s.substr(p + 1, q - p - 1) == b->c_str()) && (!c || s.substr(q + 1) == c->c_str());
        };
        std::string what = fmt("%s search (%s,%s,%s) by app%u", k ? "server" : "publisher", a ? a->c_str() : "*", b ? b->c_str() : "*", c ? c->c_str() : "*", f.app);
        std::set<std::string> u(found.begin(), found.end());
        CK(u.size() == found.size(), "duplicate", "%s returned a service twice", what.c_str());
        auto must = always[k], may = ever[k];
        if (k == 0) { must.insert(base->begin(), base->end()); may.insert(base->begin(), base->end()); }
        if (exact)
        {
            may = offered(k);
            if (k == 0) may.insert(base->begin(), base->end());
        }
        for (auto& s : u)
        {
            CK(matches(s), "wrong-match", "%s returned %s", what.c_str(), s.c_str());
            CK(may.count(s), "not-offered", "%s returned %s which is not offered", what.c_str(), s.c_str());
        }
        for (auto& s : must)
            if (matches(s)) CK(u.count(s), "missing", "%s did not return %s", what.c_str(), s.c_str());
        count(exact ? "exact_searches" : "searches_in_between");
        count("found", u.size());
    }
    bool consume(Finder& f)
    {
        if (f.w)
        {
            bool got = false;
            for (auto& n : f.w->timedWait(units::Duration::fromMilliseconds(0)))
            {
                CK(n->doesOriginateFrom(f.d), "notification-origin", "the notification has another origin");
                got = true;
            }
            return got;
        }
        if (f.l)
        {
            // the callback runs in the listener's thread: give it time
            for (int i = 0; i < 4000 && f.calls.load() == f.seenCalls; ++i) usleep(1000);
            bool got = f.calls.load() != f.seenCalls;
            f.seenCalls = f.calls.load();
            return got;
        }
        return false;
    }
    void notifications()
    {
        for (auto& f : fs)
        {
            if (!f->w && !f->l) continue;
            bool differs = f->primed && (f->lastSeen[0] != offered(0) || f->lastSeen[1] != offered(1));
            if (differs || f->w || !f->primed)
            {
                if (!differs && f->l) { usleep(1000); f->seenCalls = f->calls.load(); }
                else
                {
                    bool got = consume(*f);
                    if (differs)
                    {
                        CK(got, "no-notification", "what is offered has changed and app%u's discovery was not notified", f->app);
                        count("notifications");
                    }
                }
            }
            // only an exact search takes the registry out, as the application would do
            f->lastSeen[0] = offered(0);
            f->lastSeen[1] = offered(1);
            f->primed = true;
        }
    }
    void run()
    {
        nApps = unsigned(r.range(1, 4));
        unsigned n = unsigned(r.range(1, 8));
        std::set<std::string> dup;
        std::string longId(100, 'x');
        while (names.size() < n)
        {
            auto part = [&]() -> std::string {
                uint64_t x = r.below(8);
                if (x == 0) return longId.substr(0, r.below(2) ? 100 : 99);
                if (x == 1) return r.below(2) ? "A" : "AA";
                if (x == 2) return r.below(2) ? "*" : "a b";
                return std::string(1, char('a' + r.below(3)));
            };
            auto s = svc(part(), part(), part());
            if (dup.insert(key(s)).second) names.push_back(s);
        }
        if (r.chance(700)) newFinder();
        for (uint64_t i = r.range(5, 60); i; --i)
        {
            switch (r.below(12))
            {
            case 0: case 1: case 2: create(); break;
            case 3: case 4: case 5: toggle(); break;
            case 6: destroy(); break;
            case 7: if (r.chance(200)) die(); break;
            case 8: if (r.chance(300)) newFinder(); break;
            case 9: if (!fs.empty()) search(*fs[r.below(fs.size())], false); break;
            default:
                if (r.chance(400)) break;
                sync();
                notifications();
                for (auto& f : fs)
                    for (uint64_t j = r.below(4); j; --j) search(*f, true);
                break;
            }
        }
        sync();
        if (fs.empty()) newFinder();
        sync();
        notifications();
        for (auto& f : fs) for (int j = 0; j < 6; ++j) search(*f, true);
        distinct(std::hash<std::string>()(hist));
        sample(hist);
        for (auto& f : fs) { env.app(app(f->app)); delete f->w; delete f->l; delete f->d; }
        bool orderly = r.chance(500);
        for (auto& p : ps) if (orderly) { delete p->p; delete p->v; }
        fs.clear();
        ps.clear();
        for (unsigned a = 0; a < nApps; ++a) env.kill(app(a));
        env.discover();
    }
};
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "random histories of creating, offering, stopping, destroying and dying providers of up to four applications; distinct = different histories");
    Env env(roudi_env::MinimalIceoryxConfigBuilder().payloadChunkCount(50).payloadChunkSize(256).discoveryChunkCount(20).introspectionChunkCount(20).create());
    std::set<std::string> base;
    {
        env.app("base");
        runtime::ServiceDiscovery d;
        env.discover();
        d.findService(nullopt, nullopt, nullopt, [&](const capro::ServiceDescription& s) { base.insert(Case::key(s)); }, popo::MessagingPattern::PUB_SUB);
    }
    env.kill("base");
    return runCases([&](uint64_t seed, uint64_t) {
        Case c(seed, env, &base);
        ctx().trace = &c.hist;
        c.run();
        ctx().trace = nullptr;
    });
}
