// C10 (mode crash): applications are killed at random points of their life; the daemon cleans up, nobody else is disturbed.
// C28 (mode domains): one daemon per domain, isolated domains, unique names, version check, nothing left behind.
#include "proc.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_creator.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_user.hpp"
#include "iceoryx_posh/internal/runtime/ipc_message.hpp"
#include "iceoryx_posh/version/version_info.hpp"
#include "iox/detail/convert.hpp"
#include "iox/detail/serialization.hpp"

using namespace vp;
using vh::count;
using vh::Rng;

namespace
{
std::string g_trace;
uint16_t g_nextDomain = 0;
uint16_t newDomain()
{
    static uint16_t base = uint16_t(2000 + (getpid() % 3000) * 20);
    uint16_t d = uint16_t(base + g_nextDomain++ % 20);
    removeFilesOf(d);
    return d;
}
IceoryxConfig makeConfig(uint16_t domain, uint32_t chunks, version::CompatibilityCheckLevel lvl = version::CompatibilityCheckLevel::PATCH)
{
    IceoryxConfig c;
    c.domainId = DomainId{domain};
    c.monitoringMode = roudi::MonitoringMode::ON;
    c.compatibilityCheckLevel = lvl;
    c.logLevel = iox::log::LogLevel::Off;
    mepoo::MePooConfig m;
    m.addMemPool({128, chunks});
    auto g = PosixGroup::getGroupOfCurrentProcess();
    c.m_sharedMemorySegments.emplace_back(g.getName(), g.getName(), m);
    return c;
}
struct Daemon : Proc
{
    uint16_t domain;
    uint32_t chunks;
    version::CompatibilityCheckLevel lvl{version::CompatibilityCheckLevel::PATCH};
    void start(uint16_t d, uint32_t ch)
    {
        domain = d;
        chunks = ch;
        log = &g_trace;
        auto cfg = makeConfig(d, ch, lvl);
        spawn("daemon" + std::to_string(d % 20), [cfg](int i, int o) { daemonBody(cfg, i, o); });
    }
    void up(uint16_t d, uint32_t ch)
    {
        start(d, ch);
        std::string l = hear();
        VP_CHECK(!sanitizer(), "memory_error", "the daemon had a memory error at its start");
        VP_CHECK(l == "up", "daemon_start", "a daemon in an unused domain does not start (%s)", l == "?" ? "hangs" : how().c_str());
    }
    void check()
    {
        if (running()) return;
        VP_CHECK(!sanitizer(), "memory_error", "the daemon had a memory error");
        VP_CHECK(false, "daemon_died", "the daemon died (%s)", how().c_str());
    }
};
struct AppP : Proc
{
    uint16_t domain;
    int slot;
    void start(const std::string& n, uint16_t d, int s, const std::string& how = "start")
    {
        domain = d;
        slot = s;
        log = &g_trace;
        shared()->die[s] = 0;
        shared()->asleep[s] = 0;
        spawn(n, [n, d, s](int i, int o) { appBody(n, d, s, i, o); });
        say(how);
    }
    void up(const std::string& n, uint16_t d, int s)
    {
        start(n, d, s);
        std::string l = hear();
        VP_CHECK(!sanitizer(), "memory_error", "application '%s' had a memory error at its start", n.c_str());
        VP_CHECK(l == "up", "registration", "application '%s' is not registered (%s)", n.c_str(), l == "?" ? "hangs" : this->how().c_str());
    }
};
template <typename F>
void await(F&& f, Daemon& d, const char* key, const std::string& what, int ms = 20000)
{
    uint64_t end = nowMs() + uint64_t(ms);
    for (;;)
    {
        d.check();
        size_t len = g_trace.size();
        if (f()) return;
        VP_CHECK(nowMs() < end, key, "%s did not happen within %d s", what.c_str(), ms / 1000);
        g_trace.resize(len);
        rawSleepMs(20);
        count("polls");
    }
}
std::string seqs(uint64_t tag, uint64_t from, uint64_t n)
{
    std::string o;
    for (uint64_t i = 0; i < n; ++i) o += fmt("%lu:%lu ", (unsigned long)tag, (unsigned long)(from + i));
    return o.empty() ? "-" : o;
}
// a stream from one process to another whose every sample has to arrive
struct Stream
{
    AppP *a, *b;
    std::string p, s;
    uint64_t tag, seq{0};
    void go(Rng& r)
    {
        int n = int(r.range(1, 6));
        VP_CHECK(a->ask(fmt("send %s %d", p.c_str(), n)) == "0", "loan_refused", "'%s' could not loan although most chunks are free", a->name.c_str());
        std::string got = b->ask(fmt("take %s 20 0", s.c_str()));
        std::string want = seqs(tag, seq, uint64_t(n));
        VP_CHECK(got == want, "stream_disturbed", "'%s' sent [%s] to '%s', which got [%s]", a->name.c_str(), want.c_str(), b->name.c_str(), got.c_str());
        seq += uint64_t(n);
        count("samples_exact", uint64_t(n));
    }
};
struct Rpc
{
    AppP *a, *b;
    std::string c, v;
    uint64_t tag, seq{0};
    void go(Rng& r)
    {
        int n = int(r.range(1, 3));
        VP_CHECK(a->ask(fmt("req %s %d", c.c_str(), n)) == "0", "request_refused", "'%s' could not send requests", a->name.c_str());
        std::string want = seqs(tag, seq, uint64_t(n));
        std::string got = b->ask(fmt("serve %s", v.c_str()));
        VP_CHECK(got == want, "stream_disturbed", "'%s' requested [%s] from '%s', which got [%s]", a->name.c_str(), want.c_str(), b->name.c_str(), got.c_str());
        got = a->ask(fmt("take %s 20 0", c.c_str()));
        VP_CHECK(got == want, "stream_disturbed", "'%s' answered [%s] to '%s', which got [%s]", b->name.c_str(), want.c_str(), a->name.c_str(), got.c_str());
        seq += uint64_t(n);
        count("requests_exact", uint64_t(n));
    }
};

// ================================================================= crash
constexpr uint32_t CHUNKS = 160;
struct Victim
{
    AppP app;
    int no{0};
    uint64_t epoch{0};
    bool has_p{false}, has_s{false}, has_c{false}, has_v{false}, peerHolds{false};
    bool registered{false};
    std::string srvName() const { return fmt("vs%d", no); }  // pub/sub service it publishes
    std::string rpcName() const { return fmt("vr%d", no); }  // service it serves
};
struct CrashCase
{
    Rng r;
    Daemon d;
    AppP A, B, C;
    std::vector<std::unique_ptr<Victim>> vs;
    Stream ab;
    Rpc rp;
    uint64_t nextTag{100};
    std::set<std::string> killedNames;
    uint64_t inFlight{0}; // the chunk a killed publisher was just delivering is lost, as documented

    explicit CrashCase(uint64_t seed)
        : r(seed)
    {
    }
    void traffic()
    {
        ab.go(r);
        if (r.chance(500)) rp.go(r);
        d.check();
    }
    // services of others seen by everybody: the survivors keep talking in between
    void start(Victim& v, bool after)
    {
        std::string n = fmt("victim%d", v.no);
        v.app.up(n, d.domain, 8 + v.no);
        v.registered = true;
        ++v.epoch;
        count(after ? "reregistered" : "registered");
        v.has_p = v.has_s = v.has_c = v.has_v = false;
        v.peerHolds = false;
        if (r.chance(700) || after)
        {
            v.has_p = true;
            uint64_t tag = nextTag++;
            v.app.ask(fmt("pub p %s %lu %lu 0", v.srvName().c_str(), (unsigned long)tag, (unsigned long)r.below(4)));
            // the survivor's subscriber for it exists from the beginning
            await([&] { return v.app.ask("state p") == "1"; }, d, "not_connected", "the connection of the new publisher of " + n);
            await([&] { return A.ask("find " + v.srvName()) == "1 p:" + v.srvName(); }, d, "service_missing", "the discovery of the service of " + n + " (exactly once)");
            B.ask("take " + v.srvName() + " 100 0");
            if (v.app.ask("state p") == "1")
            {
                uint64_t n2 = r.range(1, 6);
                VP_CHECK(v.app.ask(fmt("send p %lu", (unsigned long)n2)) == "0", "loan_refused", "'%s' could not loan although most chunks are free", n.c_str());
                bool hold = r.chance(600);
                std::string got = B.ask(fmt("take %s 50 %d", v.srvName().c_str(), hold));
                VP_CHECK(got == seqs(tag, 0, n2), "stream_disturbed", "'%s' sent [%s], got [%s]", n.c_str(), seqs(tag, 0, n2).c_str(), got.c_str());
                if (hold) v.peerHolds = true, count("survivor_holds_samples");
                count(after ? "samples_after_restart" : "samples_of_victims", n2);
                if (r.chance(400)) v.app.ask("send p 3"); // stay in the survivor's queue
            }
            if (r.chance(600)) v.app.ask(fmt("loan p %lu", (unsigned long)r.range(1, 8))), count("victim_holds_loans");
        }
        if (r.chance(600))
        {
            v.has_s = true;
            v.app.ask(fmt("sub so vo%d %lu 0 0", v.no, (unsigned long)r.range(1, 4)));
            if (r.chance(700))
            {
                await([&] { return C.ask("state " + v.srvName()) == "1"; }, d, "not_connected", "the connection of the subscriber of " + n);
                C.ask("send " + v.srvName() + " 3");
            }
            v.app.ask(fmt("sub s ab %lu %lu 0", (unsigned long)r.range(1, 8), (unsigned long)r.below(3)));
            if (r.chance(300)) v.app.ask("sub s2 ab 4 2 0");
            traffic();
            if (r.chance(600))
            {
                rawSleepMs(long(r.below(200)));
                traffic();
                v.app.ask(fmt("take s %lu 1", (unsigned long)r.range(1, 5)));
                count("victim_holds_samples");
            }
        }
        if (r.chance(500))
        {
            v.has_c = true;
            v.app.ask(fmt("cli c2 ba2 %lu", (unsigned long)nextTag++));
            v.app.ask(fmt("cli c ba %lu", (unsigned long)nextTag++));
            if (r.chance(700))
            {
                await([&] { return v.app.ask("state c") == "1"; }, d, "not_connected", "the connection of the client of " + n);
                v.app.ask("req c 2");
                B.ask("serve v");
                if (r.chance(500)) v.app.ask("take c 1 1"), count("victim_holds_responses");
                if (r.chance(500)) v.app.ask(fmt("loan c %lu", (unsigned long)r.range(1, 4)));
                count("victim_clients_connected");
            }
        }
        if (r.chance(500))
        {
            v.has_v = true;
            v.app.ask(fmt("srv v %s", v.rpcName().c_str()));
            if (r.chance(700))
            {
                await([&] { return A.ask("state " + v.rpcName()) == "1"; }, d, "not_connected", "the connection to the server of " + n);
                A.ask("req " + v.rpcName() + " 3");
                v.app.ask("take v 2 1");
                if (r.chance(500)) v.app.ask("loan v 2");
                count("victim_holds_requests");
            }
        }
        if (r.chance(300)) v.app.ask("await"), count("victim_waits");
    }
    void die(Victim& v)
    {
        killedNames.insert(v.app.name);
        v.registered = false;
        unsigned k = unsigned(r.below(10));
        if (k < 2)
        {
            // in the middle of a request to the daemon
            v.app.ask(fmt("crashsend 0 %d", int(r.below(2))));
            static const char* reqs[] = {"pub px other 1 2 0", "sub sx ab 4 2 0", "cli cx ba 9", "srv vx vrx", "quit"};
            size_t w = r.below(5);
            v.app.say(reqs[w]);
            VP_CHECK(v.app.hear() == "!", "harness", "the crash point was not reached");
            count("killed_in_request");
        }
        else if (k < 5 && v.has_s)
        {
            // blocked on a full queue: the victim publishes to a blocking subscriber which never takes
            v.app.ask(fmt("pub b %s %lu 0 1", fmt("blk%d", v.no).c_str(), (unsigned long)nextTag++));
            std::string sn = fmt("bsub%d", v.no);
            C.ask(fmt("sub %s blk%d 2 0 1", sn.c_str(), v.no));
            await([&] { return v.app.ask("state b") == "1"; }, d, "not_connected", "the connection of the blocking publisher");
            v.app.ask("bgstate");
            // the waiting thread of "await" occupies the background slot
            if (v.app.ask("bgstate") == "0")
            {
                v.app.ask("bsend b 10");
                uint64_t end = nowMs() + 20000;
                while (!shared()->asleep[v.app.slot] && nowMs() < end) rawSleepMs(2);
                if (shared()->asleep[v.app.slot])
                {
                    shared()->die[v.app.slot] = 1;
                    end = nowMs() + 5000;
                    while (v.app.running() && nowMs() < end) rawSleepMs(2);
                    if (!v.app.running()) count("killed_while_blocked"), ++inFlight;
                }
            }
            v.app.kill();
            C.ask("del " + sn);
        }
        else
            count("killed_idle");
        v.app.kill();
    }
    bool clients2()
    {
        for (auto& v : vs)
            if (v->registered && v->has_c) return true;
        return false;
    }
    // what the survivors see once the daemon has cleaned up
    void gone(Victim& v)
    {
        await([&] { return A.ask("find " + v.srvName()) == "0"; }, d, "service_remains", "the removal of the service of a dead publisher");
        await([&] { return A.ask("find " + v.rpcName()) == "0"; }, d, "service_remains", "the removal of the service of a dead server");
        await([&] { return C.ask("state " + v.srvName()) == "0"; }, d, "still_connected", "the disconnection from the dead subscriber");
        await([&] { return B.ask("state v2") == (clients2() ? "1" : "0"); }, d, "still_connected", "the disconnection from the dead client");
        await([&] { return A.ask("state " + v.rpcName()) == "0"; }, d, "still_connected", "the disconnection from the dead server");
        count("cleanups_observed");
    }
    void run()
    {
        uint16_t dom = newDomain();
        d.up(dom, CHUNKS);
        A.up("alice", dom, 0);
        B.up("bob", dom, 1);
        C.up("carl", dom, 2);
        A.ask("pub ab ab 1 2 0");
        B.ask("sub ab ab 64 0 0");
        B.ask("srv v ba");
        B.ask("srv v2 ba2");
        A.ask("cli c ba 2");
        ab = Stream{&A, &B, "ab", "ab", 1};
        rp = Rpc{&A, &B, "c", "v", 2};
        size_t nv = size_t(r.range(1, 3));
        for (size_t i = 0; i < nv; ++i)
        {
            vs.emplace_back(new Victim);
            vs[i]->no = int(i);
            B.ask(fmt("sub %s %s 8 %lu 0", vs[i]->srvName().c_str(), vs[i]->srvName().c_str(), (unsigned long)r.below(3)));
            C.ask(fmt("pub %s vo%zu 60 %lu 0", vs[i]->srvName().c_str(), i, (unsigned long)r.below(3)));
            A.ask(fmt("cli %s %s 7", vs[i]->rpcName().c_str(), vs[i]->rpcName().c_str()));
        }
        await([&] { return B.ask("state ab") == "1" && A.ask("state c") == "1" && A.ask("state ab") == "1"; }, d, "not_connected", "the connection of the survivors");
        for (auto& v : vs) start(*v, false);
        int rounds = int(r.range(1, 2));
        for (int k = 0; k < rounds; ++k)
        {
            traffic();
            // a survivor blocked by a victim which does not take must go on after its death
            Victim* blk = nullptr;
            if (r.chance(500))
            {
                blk = vs[r.below(vs.size())].get();
                if (!blk->registered) blk = nullptr;
            }
            if (blk)
            {
                blk->app.ask(fmt("sub full full%d 2 0 1", k));
                C.ask(fmt("pub full full%d 50 0 1", k));
                await([&] { return C.ask("state full") == "1"; }, d, "not_connected", "the connection to the blocking subscriber");
                C.ask("bsend full 6");
                uint64_t end = nowMs() + 20000;
                while (!shared()->asleep[C.slot] && nowMs() < end) rawSleepMs(2);
                VP_CHECK(C.ask("bgstate") == "1", "blocking_lost", "a publisher with the blocking policy did not wait for a full blocking subscriber");
                count("survivor_blocked_by_victim");
            }
            std::vector<Victim*> dead;
            for (auto& v : vs)
                if (v->registered && (v.get() == blk || r.chance(800)))
                {
                    die(*v);
                    dead.push_back(v.get());
                    count("kills");
                    traffic();
                }
            // some come back before the daemon has noticed
            for (auto* v : dead)
                if (r.chance(400))
                {
                    if (r.chance(300))
                    {
                        // dies in its registration
                        v->app.start(fmt("victim%d", v->no), dom, 8 + v->no, fmt("crash %d %d", 0, int(r.below(2))));
                        VP_CHECK(v->app.hear() == "!", "harness", "crash point in registration not reached");
                        v->app.kill();
                        count("killed_in_registration");
                        if (r.chance(500)) continue;
                    }
                    start(*v, true);
                    count("restart_at_once");
                    traffic();
                }
            if (blk)
            {
                await([&] { return C.ask("bgstate") != "1"; }, d, "survivor_blocked", "the end of waiting for a dead subscriber");
                VP_CHECK(C.ask("bgstate") == "2", "loan_refused", "a publisher could not loan after waiting for a dead subscriber");
                C.ask("bgjoin");
                C.ask("del full");
            }
            for (auto* v : dead)
                if (!v->registered)
                {
                    uint64_t e = nowMs() + r.below(2500);
                    while (nowMs() < e) traffic(), rawSleepMs(50);
                    gone(*v);
                }
            for (auto& v : vs)
                if (v->peerHolds)
                {
                    VP_CHECK(B.ask("verify " + v->srvName()) == "good", "held_sample_changed", "samples of a dead publisher changed while a survivor holds them");
                    count("held_samples_verified");
                }
            for (auto* v : dead)
                if (!v->registered && r.chance(600))
                {
                    start(*v, true);
                    count("restart_after_cleanup");
                    traffic();
                }
            for (auto& v : vs)
                if (v->peerHolds || r.chance(300))
                {
                    VP_CHECK(B.ask("verify " + v->srvName()) == "good", "held_sample_changed", "samples of a dead publisher changed while a survivor holds them");
                    B.ask("drop " + v->srvName());
                    v->peerHolds = false;
                }
            traffic();
        }
        // the end: the rest of the victims dies or leaves, the survivors destroy everything: all chunks are free again
        for (auto& v : vs)
            if (v->registered)
            {
                if (r.chance(500) || v->app.ask("bgstate") != "0") v->app.kill(), killedNames.insert(v->app.name);
                else v->app.quit(), killedNames.erase(v->app.name);
                v->registered = false;
            }
        for (auto& v : vs) gone(*v);
        traffic();
        for (auto& v : vs)
        {
            B.ask("del " + v->srvName());
            A.ask("del " + v->rpcName());
            C.ask("del " + v->srvName());
        }
        A.ask("del ab");
        A.ask("del c");
        B.ask("del ab");
        B.ask("del v");
        B.ask("del v2");
        std::string last;
        await([&] { uint64_t n = strtoull((last = C.ask("count")).c_str(), nullptr, 10); return n <= CHUNKS && n + inFlight >= CHUNKS; }, d, "chunks_lost", "the return of all chunks of dead processes");
        count("all_chunks_free");
        A.quit();
        B.quit();
        C.quit();
        d.quit();
        for (auto& f : filesOf(dom))
        {
            bool ok = false;
            for (auto& n : killedNames) ok |= f.find("_u_" + n) != std::string::npos;
            VP_CHECK(ok, "files_remain", "'%s' remains after the end of the daemon and all applications", f.c_str());
        }
        removeFilesOf(dom);
    }
};

// ================================================================= domains
struct DomainSide
{
    uint16_t dom{0};
    Daemon d;
    AppP a, b;
    Stream st;
    Rpc rp;
    uint64_t tag{0};
    bool live{false};
    void up(uint16_t dm, int k)
    {
        dom = dm;
        tag = uint64_t(1000 + 100 * k);
        d.up(dm, 40);
        apps(k);
    }
    void apps(int k)
    {
        a.up("same0", dom, 2 * k);
        b.up("same1", dom, 2 * k + 1);
        a.ask(fmt("pub p svc %lu 1 0", (unsigned long)tag));
        b.ask("sub s svc 16 0 0");
        b.ask("srv v svc");
        a.ask(fmt("cli c svc %lu", (unsigned long)tag + 1));
        st = Stream{&a, &b, "p", "s", tag};
        rp = Rpc{&a, &b, "c", "v", tag + 1};
        await([&] { return b.ask("state s") == "1" && a.ask("state c") == "1" && a.ask("state p") == "1"; }, d, "not_connected", "the connection inside a domain");
        await([&] { return a.ask("find svc") == "2 p:svc r:svc"; }, d, "service_missing", "the discovery of the own services");
        live = true;
    }
    void go(Rng& r)
    {
        st.go(r);
        rp.go(r);
        d.check();
        std::string f = a.ask("find svc");
        VP_CHECK(f == "2 p:svc r:svc", "foreign_service", "an application in domain %u sees [%s] instead of its own publisher and server", dom, f.c_str());
        count("isolation_checks");
    }
    void down(bool appsFirst)
    {
        if (!live) return;
        live = false;
        if (appsFirst)
        {
            a.quit();
            b.quit();
        }
        else
        {
            a.kill();
            b.kill();
        }
        d.quit();
    }
};
void noFiles(uint16_t dom, const std::set<std::string>& killed = {})
{
    for (auto& f : filesOf(dom))
    {
        bool ok = false;
        for (auto& n : killed) ok |= f.find("_u_" + n) != std::string::npos;
        VP_CHECK(ok, "files_remain", "'%s' remains after the end of the daemon and all applications", f.c_str());
    }
    count("file_checks");
}
// processes started at the same time under one name: exactly one gets it
template <typename P, typename F>
int race(std::vector<std::unique_ptr<P>>& ps, F&& startOne)
{
    for (auto& p : ps) startOne(*p);
    int up = 0;
    for (auto& p : ps)
    {
        std::string l = p->hear(40000);
        VP_CHECK(!p->sanitizer(), "memory_error", "process '%s' had a memory error at its start", p->name.c_str());
        VP_CHECK(l != "?", "blocked", "process '%s' neither starts nor ends", p->name.c_str());
        if (l == "up") ++up;
    }
    return up;
}
void domainsCase(Rng& r)
{
    using L = version::CompatibilityCheckLevel;
    DomainSide x, y;
    x.up(newDomain(), 0);
    y.up(newDomain(), 1);
    x.go(r);
    y.go(r);
    int steps = int(r.range(3, 6));
    for (int k = 0; k < steps; ++k)
    {
        DomainSide& z = r.chance(500) ? x : y;
        switch (r.below(8))
        {
        case 0: // another daemon in a served domain
        {
            std::vector<std::unique_ptr<Daemon>> ps;
            for (uint64_t i = 0, n = r.range(1, 2); i < n; ++i) ps.emplace_back(new Daemon);
            int up = race(ps, [&](Daemon& d) { d.start(z.dom, 40); });
            VP_CHECK(up == 0, "two_daemons", "a second daemon starts in a domain which has one");
            z.go(r);
            count("second_daemons_refused");
            break;
        }
        case 1: // the name of a live application
        {
            std::vector<std::unique_ptr<AppP>> ps;
            for (uint64_t i = 0, n = r.range(1, 2); i < n; ++i) ps.emplace_back(new AppP);
            std::string n = r.chance(500) ? "same0" : "same1";
            int up = race(ps, [&](AppP& p) { p.start(n, z.dom, 20); });
            VP_CHECK(up == 0, "two_names", "an application is registered under the name of a live one");
            z.go(r);
            count("duplicate_names_refused");
            break;
        }
        case 2: // several daemons start in an unused domain at once
        {
            uint16_t dm = newDomain();
            if (r.chance(500)) g_delaySeed = r.next() | 1;
            std::vector<std::unique_ptr<Daemon>> ps;
            for (uint64_t i = 0, n = r.range(2, 4); i < n; ++i) ps.emplace_back(new Daemon);
            int up = race(ps, [&](Daemon& d) { d.start(dm, 40); });
            g_delaySeed = 0;
            VP_CHECK(up <= 1, "two_daemons", "%d daemons run in one domain", up);
            VP_CHECK(up == 1, "no_daemon", "none of the daemons started at once is running");
            for (auto& p : ps)
                if (p->running()) p->quit();
            noFiles(dm);
            count("daemon_races");
            break;
        }
        case 3: // several applications start under one name at once
        {
            std::vector<std::unique_ptr<AppP>> ps;
            for (uint64_t i = 0, n = r.range(2, 3); i < n; ++i) ps.emplace_back(new AppP);
            if (r.chance(500)) g_delaySeed = r.next() | 1;
            int up = race(ps, [&](AppP& p) { p.start("race", z.dom, 21); });
            g_delaySeed = 0;
            VP_CHECK(up <= 1, "two_names", "%d live applications are registered under one name", up);
            VP_CHECK(up == 1, "no_application", "none of the applications started at once under an unused name is registered");
            for (auto& p : ps)
                if (p->running())
                {
                    p->ask("pub p only 5 0 0");
                    await([&] { return z.a.ask("find only") == "1 p:only"; }, z.d, "not_registered", "the service of the application which got the name");
                    p->quit();
                }
            await([&] { return z.a.ask("find only") == "0"; }, z.d, "service_remains", "the removal of the service of an ended application");
            z.go(r);
            count("name_races");
            break;
        }
        case 4: // the daemon is killed; a new one takes over the domain
        {
            z.d.kill();
            std::set<std::string> killed;
            bool appsFirst = r.chance(500);
            if (appsFirst) z.a.kill(), z.b.kill();
            z.d.up(z.dom, 40);
            if (!appsFirst) z.a.kill(), z.b.kill();
            z.apps(int(&z == &y));
            z.go(r);
            count("daemons_replaced");
            break;
        }
        case 6: // an application ends while others start under its name; the same for a daemon
        {
            g_delaySeed = r.next() | 1;
            bool apps = r.chance(600);
            uint16_t dm = apps ? z.dom : newDomain();
            std::string n = "handover";
            auto round = [&](auto& owner, auto& ps, auto startOne) {
                owner.say("quit");
                rawSleepMs(long(r.below(25)));
                if (r.chance(500)) rawSleepMs(long(r.below(150)));
                int up = race(ps, startOne);
                while (owner.hear(60000) != "!") VP_CHECK(owner.running(), "blocked", "'%s' does not end", owner.name.c_str());
                VP_CHECK(!owner.sanitizer(), "memory_error", "'%s' had a memory error at its end", owner.name.c_str());
                VP_CHECK(WIFEXITED(owner.status) && WEXITSTATUS(owner.status) == 0, "died", "'%s' ended with %s", owner.name.c_str(), owner.how().c_str());
                VP_CHECK(up <= 1, apps ? "two_names" : "two_daemons", "%d processes own one name after its former owner has ended", up);
                g_delaySeed = 0;
                if (up == 1)
                {
                    // it owns the name: nobody else gets it
                    auto extra = startOne;
                    std::remove_reference_t<decltype(ps)> more;
                    more.emplace_back(new std::remove_reference_t<decltype(*ps[0])>);
                    VP_CHECK(race(more, extra) == 0, apps ? "two_names" : "two_daemons", "a second process gets the name of a live one which took it over");
                    for (auto& p : ps)
                        if (p->running())
                        {
                            if (apps) p->ask("pub p taken 5 0 0"), await([&] { return z.a.ask("find taken") == "1 p:taken"; }, z.d, "not_registered", "the service of the application which took over the name");
                            p->quit();
                        }
                    count("handovers");
                }
                else
                    count("handovers_refused");
            };
            if (apps)
            {
                AppP owner;
                owner.up(n, dm, 22);
                std::vector<std::unique_ptr<AppP>> ps;
                for (uint64_t i = 0, k2 = r.range(1, 3); i < k2; ++i) ps.emplace_back(new AppP);
                round(owner, ps, [&](AppP& p) { p.start(n, dm, 23); rawSleepMs(long(r.below(30))); });
                for (auto& f : filesOf(dm)) VP_CHECK(f.find("_u_" + n) == std::string::npos, "files_remain", "'%s' remains after the end of its application", f.c_str());
            }
            else
            {
                Daemon owner;
                owner.up(dm, 10);
                std::vector<std::unique_ptr<Daemon>> ps;
                for (uint64_t i = 0, k2 = r.range(1, 3); i < k2; ++i) ps.emplace_back(new Daemon);
                round(owner, ps, [&](Daemon& p) { p.start(dm, 10); rawSleepMs(long(r.below(30))); });
                noFiles(dm);
            }
            g_delaySeed = 0;
            z.go(r);
            break;
        }
        default: // orderly end and restart, daemon and applications
        {
            z.down(true);
            noFiles(z.dom);
            z.up(z.dom, int(&z == &y));
            count("restarts");
            break;
        }
        }
        x.go(r);
        y.go(r);
    }
    x.down(true);
    y.go(r);
    noFiles(x.dom);
    y.down(true);
    noFiles(y.dom);

    // version check
    if (r.chance(700))
    {
        Daemon d;
        d.lvl = L(r.below(6));
        d.up(newDomain(), 10);
        Proc raw;
        raw.log = &g_trace;
        uint16_t dm = d.domain;
        uint64_t seed = r.next();
        L lvl = d.lvl;
        raw.spawn("raw", [&](int, int o) {
            Rng q(seed);
            std::string out;
            auto cur = version::VersionInfo::getCurrentVersion();
            // the fields, read from the serialisation of the current version
            std::string ser = static_cast<Serialization>(cur).toString().c_str();
            std::vector<std::string> f;
            for (size_t p = 0; p < ser.size();)
            {
                size_t c = ser.find(':', p);
                size_t n = size_t(atoi(ser.substr(p, c - p).c_str()));
                f.push_back(ser.substr(c + 1, n));
                p = c + 1 + n;
            }
            for (int k = 0, again = 0; k < 12; ++k)
            {
                // which fields differ: 0 major 1 minor 2 patch 3 tweak 4 commit 5 date
                bool diff[6];
                for (auto& x : diff) x = q.chance(250);
                auto num = [&](int i) { return uint16_t(atoi(f[size_t(i)].c_str()) + (diff[i] ? int(q.range(1, 3)) : 0)); };
                std::string commit = f[5 < f.size() ? 5 : 4], date = f[4];
                version::VersionInfo vi(num(0), num(1), num(2), num(3),
                                        version::BuildDateString_t(TruncateToCapacity, (diff[5] ? "2001-01-01T00:00:00Z" : date).c_str()),
                                        version::CommitIdString_t(TruncateToCapacity, (diff[4] ? "abcdefabcdef" : commit).c_str()));
                bool want = true;
                if (lvl >= L::MAJOR) want &= !diff[0];
                if (lvl >= L::MINOR) want &= !diff[1];
                if (lvl >= L::PATCH) want &= !diff[2];
                if (lvl >= L::COMMIT_ID) want &= !diff[3] && !diff[4];
                if (lvl >= L::BUILD_DATE) want &= !diff[5];
                std::string name = fmt("raw%d", k), probe = fmt("probe%d", k);
                RuntimeName_t rn(TruncateToCapacity, name.c_str()), pn(TruncateToCapacity, probe.c_str());
                auto mine = runtime::IpcInterfaceCreator::create(rn, DomainId{dm}, ResourceType::USER_DEFINED);
                auto theirs = runtime::IpcInterfaceCreator::create(pn, DomainId{dm}, ResourceType::USER_DEFINED);
                runtime::IpcInterfaceUser daemon(roudi::IPC_CHANNEL_ROUDI_NAME, DomainId{dm}, ResourceType::ICEORYX_DEFINED);
                if ((mine.has_error() || theirs.has_error() || !daemon.isInitialized()) && again < 20)
                {
                    ++again, --k;
                    rawSleepMs(50);
                    continue;
                }
                if (mine.has_error() || theirs.has_error() || !daemon.isInitialized()) { out = fmt("harness: no channel %d %d %d", mine.has_error() ? int(mine.error()) : 9, theirs.has_error() ? int(theirs.error()) : 9, daemon.isInitialized()); break; }
                auto reg = [&](const RuntimeName_t& n, const version::VersionInfo& v) {
                    runtime::IpcMessage m;
                    m << runtime::IpcMessageTypeToString(runtime::IpcMessageType::REG) << n << convert::toString(getpid()) << convert::toString(geteuid()) << convert::toString(int64_t(77)) << static_cast<Serialization>(v).toString();
                    daemon.send(m);
                };
                auto acked = [&](runtime::IpcInterfaceCreator& c, int ms, const char* what) {
                    runtime::IpcMessage m;
                    return c.timedReceive(units::Duration::fromMilliseconds(uint64_t(ms)), m) && m.getElementAtIndex(0) == std::string(what);
                };
                auto bye = [&](const RuntimeName_t& n, runtime::IpcInterfaceCreator& c) {
                    runtime::IpcMessage m;
                    m << runtime::IpcMessageTypeToString(runtime::IpcMessageType::TERMINATION) << n;
                    daemon.send(m);
                    return acked(c, 20000, runtime::IpcMessageTypeToString(runtime::IpcMessageType::TERMINATION_ACK).c_str());
                };
                std::string ack = runtime::IpcMessageTypeToString(runtime::IpcMessageType::REG_ACK).c_str();
                reg(rn, vi);
                reg(pn, cur); // registrations are handled one after the other
                if (!acked(theirs.value(), 20000, ack.c_str())) { out = "equal version refused"; break; }
                bool got = acked(mine.value(), 20, ack.c_str());
                if (got != want)
                {
                    out = fmt("%s at level %d although it differs in%s%s%s%s%s%s", got ? "accepted" : "refused", int(lvl), diff[0] ? " major" : "", diff[1] ? " minor" : "", diff[2] ? " patch" : "", diff[3] ? " tweak" : "", diff[4] ? " commit" : "", diff[5] ? " date" : "");
                    break;
                }
                if (got && !bye(rn, mine.value())) { out = "no termination acknowledgement"; break; }
                if (!bye(pn, theirs.value())) { out = "no termination acknowledgement"; break; }
                reply(o, want ? "a" : "r");
            }
            reply(o, out.empty() ? "done" : out);
        });
        for (;;)
        {
            std::string l = raw.hear(60000);
            VP_CHECK(!raw.sanitizer(), "memory_error", "memory error in the registering process");
            VP_CHECK(l != "?" && l != "!", "blocked", "a registration neither succeeds nor fails (%s)", l.c_str());
            if (l == "done") break;
            VP_CHECK(l == "a" || l == "r", "version_check", "registration: %s", l.c_str());
            count(l == "a" ? "versions_accepted" : "versions_refused");
        }
        raw.hear(20000);
        d.check();
        d.quit();
        noFiles(d.domain);
    }
}
} // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv, "a history of starting, killing, restarting and stopping real daemon and application processes");
    signal(SIGPIPE, SIG_IGN);
    shared() = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    vh::ctx().trace = &g_trace;
    int rc = vh::runCases([&](uint64_t seed, uint64_t) {
        for (int attempt = 0; attempt < 3; ++attempt)
        {
            g_trace.clear();
            g_delaySeed = 0;
            shared()->gap = 0;
            Rng r(seed);
            try
            {
                if (vh::ctx().mode == "crash")
                {
                    CrashCase c(seed);
                    c.run();
                }
                else
                    domainsCase(r);
                vh::maxOf("longest_scheduling_gap_ms", shared()->gap);
                vh::distinct(vh::mix(seed, g_trace.size()));
                vh::sample(g_trace);
                count("completed");
                return;
            }
            catch (const Failed& f)
            {
                // the daemon takes an application for dead after 1.5 s without a sign of life: a starved machine decides nothing
                if (shared()->gap > 600 && f.key != "memory_error")
                {
                    count("discarded_starved");
                    continue;
                }
                vh::fail(f.key.c_str(), f.msg + " |" + g_trace.substr(g_trace.size() > 1200 ? g_trace.size() - 1200 : 0));
            }
        }
    });
    for (uint16_t i = 0; i < 20; ++i) removeFilesOf(uint16_t(2000 + (getpid() % 3000) * 20 + i));
    return rc;
}
