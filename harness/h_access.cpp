// C23: random users, groups and segments. A real daemon creates the segments, processes of the users register at it; what they
// map, can open, can obtain and can loan is compared with what their groups entitle them to. The user database is virtual
// (answers of getpwnam and friends), the processes really run with the ids, so that the operating system enforces.
#include "proc.hpp"
#include <grp.h>
#include <pwd.h>

using namespace vp;
using vh::count;
using vh::Rng;

namespace
{
constexpr unsigned UID0 = 40000, GID0 = 41000; // group 0 is the daemon's, which everybody who may talk to it is in
struct User
{
    std::string name;
    unsigned uid, gid;
    std::vector<unsigned> groups; // all, with the primary one
    bool outsider{false};
};
std::vector<User> g_users;
std::vector<std::string> g_groups;
std::string g_trace;

struct Seg
{
    unsigned writer, reader;
    uint32_t chunks;
};
bool in(const User& u, unsigned g) { return std::find(u.groups.begin(), u.groups.end(), g) != u.groups.end(); }

struct Mapping
{
    std::string perms;
    uint64_t from, to;
};
std::map<std::string, Mapping> maps(const std::string& prefix)
{
    std::map<std::string, Mapping> r;
    FILE* f = fopen("/proc/self/maps", "r");
    char line[1024];
    while (f && fgets(line, sizeof line, f))
    {
        unsigned long a, b;
        char p[8], path[512] = "";
        if (sscanf(line, "%lx-%lx %7s %*s %*s %*s %511s", &a, &b, p, path) < 4) continue;
        std::string s = path;
        if (s.compare(0, prefix.size(), prefix) == 0) r[s.substr(prefix.size())] = {p, a, b};
    }
    if (f) fclose(f);
    return r;
}
void become(const User& u)
{
    std::vector<gid_t> g(u.groups.begin(), u.groups.end());
    if (setgroups(g.size(), g.data()) || setgid(u.gid) || setuid(u.uid)) _exit(75);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    prctl(PR_SET_DUMPABLE, 1); // otherwise /proc/self/maps is not readable
}
// rights the operating system gives: r, w
std::string rights(const std::string& file)
{
    std::string s;
    int fd = open(file.c_str(), O_RDONLY);
    s += fd >= 0 ? "r" : "-";
    if (fd >= 0) close(fd);
    fd = open(file.c_str(), O_RDWR);
    s += fd >= 0 ? "w" : "-";
    if (fd >= 0)
    {
        void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) s += "!";
        else munmap(p, 4096);
        close(fd);
    }
    return s;
}
void userBody(const User& u, uint16_t domain, size_t nseg, const std::vector<Seg>& segs, int in_, int out)
{
    std::string prefix = fmt("/dev/shm/iox1_%u_u_", domain);
    become(u);
    std::string o = "rights";
    for (size_t i = 0; i < nseg; ++i) o += " " + rights(prefix + g_groups[segs[i].writer]);
    reply(out, o);
    std::string b, l;
    if (u.outsider) return;
    {
        RuntimeName_t n(TruncateToCapacity, u.name.c_str());
        AppRuntime rt(n, domain);
        AppRuntime::active() = &rt;
        AppRuntime::install();
        auto m = maps(prefix);
        o = "maps";
        for (size_t i = 0; i < nseg; ++i)
        {
            auto it = m.find(g_groups[segs[i].writer]);
            o += " " + (it == m.end() ? std::string("--") : it->second.perms.substr(0, 2));
        }
        reply(out, o);
        auto svcOf = [&](const char* x) { return capro::ServiceDescription(id(x), id(u.name), id("e")); };
        auto* p = rt.getMiddlewarePublisher(svcOf("p"), {}, {});
        auto* c = rt.getMiddlewareClient(svcOf("c"), {}, {});
        auto* v = rt.getMiddlewareServer(svcOf("v"), {}, {});
        reply(out, fmt("endpoints %d %d %d", p != nullptr, c != nullptr, v != nullptr));
        App app;
        app.slot = 0;
        // where the chunks lie
        o = "chunks";
        if (p)
        {
            popo::UntypedPublisher pub(svcOf("q"), {});
            auto at = [&](const void* x) {
                for (size_t i = 0; i < nseg; ++i)
                {
                    auto it = m.find(g_groups[segs[i].writer]);
                    if (it != m.end() && uint64_t(x) >= it->second.from && uint64_t(x) + 64 <= it->second.to) return fmt(" %zu", i);
                }
                return std::string(" ?");
            };
            std::vector<void*> held;
            for (int i = 0; i < 5; ++i)
                pub.loan(64).and_then([&](void* x) {
                    o += at(x);
                    memset(x, 0x5a, 64);
                    held.push_back(x);
                });
            for (auto x : held) pub.release(x);
        }
        reply(out, o);
        while (readLine(in_, b, l))
        {
            if (l == "quit")
            {
                app.ends.clear();
                break;
            }
            reply(out, app.run(l));
        }
    }
}

void accessCase(Rng& r, uint16_t dom)
{
    // groups and segments
    g_groups = {"ioxd"};
    size_t ng = r.range(2, 6);
    for (size_t i = 1; i <= ng; ++i) g_groups.push_back(fmt("grp%zu%s", i, r.chance(200) ? "_with_a_longer_name" : ""));
    std::vector<Seg> segs;
    size_t ns = r.range(1, std::min<size_t>(ng, 4));
    std::vector<unsigned> w;
    for (unsigned i = 1; i <= ng; ++i) w.push_back(i);
    for (size_t i = 0; i < ns; ++i)
    {
        size_t k = r.below(w.size());
        Seg s{w[k], unsigned(r.chance(150) ? 0 : r.range(1, ng)), uint32_t(r.range(200, 300))};
        if (r.chance(250)) s.reader = s.writer;
        w.erase(w.begin() + long(k));
        segs.push_back(s);
    }
    // the group of the daemon itself is a usual choice for a segment everybody uses
    if (r.chance(150)) segs.assign(1, Seg{0, 0, 200}), ns = 1;
    g_users.clear();
    size_t nu = r.range(2, 5);
    std::string desc;
    for (auto& s : segs) desc += fmt(" segment(%s writes, %s reads)", g_groups[s.writer].c_str(), g_groups[s.reader].c_str());
    for (size_t i = 0; i < nu; ++i)
    {
        User u;
        u.name = fmt("user%zu", i);
        u.uid = unsigned(UID0 + i);
        u.outsider = r.chance(150);
        std::vector<unsigned> gs;
        bool writer = false;
        if (!u.outsider) gs.push_back(0), writer = segs[0].writer == 0;
        for (unsigned g = 1; g <= ng; ++g)
            if (r.chance(400))
            {
                bool isWriter = false;
                for (auto& s : segs) isWriter |= s.writer == g;
                if (isWriter && writer && !u.outsider) continue; // member of two writer groups: refused by design
                writer |= isWriter;
                gs.push_back(g);
            }
        if (gs.empty()) gs.push_back(unsigned(ng)), writer = true;
        for (size_t k = gs.size(); k > 1; --k) std::swap(gs[k - 1], gs[r.below(k)]);
        for (auto g : gs) u.groups.push_back(GID0 + g);
        u.gid = u.groups[r.below(u.groups.size())];
        desc += fmt(" %s%s(", u.name.c_str(), u.outsider ? " outside" : "");
        for (auto g : gs) desc += g_groups[g] + " ";
        desc += ")";
        g_users.push_back(u);
    }
    g_trace = desc;
    // a daemon without root rights can only answer applications whose sockets belong to one of its groups
    bool rootDaemon = r.chance(500), daemonInAll = r.chance(500);
    if (!rootDaemon && !daemonInAll)
        for (auto& u : g_users)
            if (!u.outsider) u.gid = GID0;
    User dm;
    dm.name = "ioxdaemon";
    dm.uid = UID0 + 99;
    dm.gid = GID0;
    dm.groups = {GID0};
    for (unsigned g = 1; daemonInAll && g <= ng; ++g) dm.groups.push_back(GID0 + g);
    g_trace += rootDaemon ? " daemon(root)" : daemonInAll ? " daemon(all groups)" : " daemon(own group)";
    g_users.push_back(dm);

    IceoryxConfig cfg;
    cfg.domainId = DomainId{dom};
    cfg.monitoringMode = roudi::MonitoringMode::OFF;
    cfg.logLevel = iox::log::LogLevel::Off;
    auto gn = [](unsigned g) { return PosixGroup::groupName_t(TruncateToCapacity, g_groups[g].c_str()); };
    for (auto& s : segs)
    {
        mepoo::MePooConfig m;
        m.addMemPool({128, s.chunks});
        cfg.m_sharedMemorySegments.emplace_back(gn(s.reader), gn(s.writer), m);
    }
    Proc d;
    d.log = &g_trace;
    d.spawn("daemon", [&](int i, int o) {
        if (rootDaemon)
        {
            gid_t g = GID0;
            if (setgroups(1, &g) || setgid(g)) _exit(75);
        }
        else
            become(dm);
        daemonBody(cfg, i, o);
    });
    std::string l = d.hear();
    if (d.reaped && WIFEXITED(d.status) && WEXITSTATUS(d.status) == 75) exit(75);
    VP_CHECK(!d.sanitizer(), "memory_error", "the daemon had a memory error at its start");
    VP_CHECK(l == "up", "daemon_start", "the daemon does not start with this configuration (%s)", d.how().c_str());
    // a file which existed before the daemon started must not keep its old rights: done by the daemon itself (purge)
    struct U
    {
        Proc p;
        bool w{false};
        int seg{-1};
        std::string name;
    };
    std::vector<std::unique_ptr<U>> us;
    for (size_t i = 0; i < nu; ++i)
    {
        const User& u = g_users[i];
        us.emplace_back(new U);
        U& x = *us.back();
        x.name = u.name;
        x.p.log = &g_trace;
        x.p.spawn(u.name, [&](int in_, int o) { userBody(u, dom, ns, segs, in_, o); });
        auto next = [&](const char* what) {
            std::string a = x.p.hear();
            if (x.p.reaped && WIFEXITED(x.p.status) && WEXITSTATUS(x.p.status) == 75) exit(75);
            VP_CHECK(!x.p.sanitizer(), "memory_error", "the process of %s had a memory error", u.name.c_str());
            VP_CHECK(a != "!" && a != "?", "user_failed", "the process of %s %s before '%s'", u.name.c_str(), a == "?" ? "hangs" : x.p.how().c_str(), what);
            VP_CHECK(a.compare(0, strlen(what), what) == 0, "harness", "unexpected answer '%s'", a.c_str());
            return a;
        };
        std::string want = "rights", wantMaps = "maps", wantChunks = "chunks";
        for (size_t k = 0; k < ns; ++k)
        {
            bool W = in(u, GID0 + segs[k].writer), R = W || in(u, GID0 + segs[k].reader);
            want += W ? " rw" : R ? " r-" : " --";
            wantMaps += W ? " rw" : R ? " r-" : " --";
            if (W) x.w = true, x.seg = int(k);
            count(W ? "writable" : R ? "readable" : "inaccessible");
        }
        std::string a = next("rights");
        VP_CHECK(a == want, "os_rights", "%s has the rights [%s] on the segments, entitled to [%s]", u.name.c_str(), a.c_str(), want.c_str());
        count("rights_checks");
        if (u.outsider)
        {
            x.p.hear();
            count("outsiders");
            continue;
        }
        a = next("maps");
        VP_CHECK(a == wantMaps, "mapping", "%s maps the segments as [%s], entitled to [%s]", u.name.c_str(), a.c_str(), wantMaps.c_str());
        a = next("endpoints");
        VP_CHECK(a == (x.w ? "endpoints 1 1 1" : "endpoints 0 0 0"), "endpoint", "%s, who %s write access, gets publisher, client, server: %s", u.name.c_str(), x.w ? "has" : "has no", a.c_str());
        count(x.w ? "endpoints_granted" : "endpoints_refused");
        for (int k = 0; x.w && k < 5; ++k) wantChunks += fmt(" %d", x.seg);
        a = next("chunks");
        VP_CHECK(a == wantChunks, "chunk_segment", "the chunks of %s lie in segments [%s], expected [%s]", u.name.c_str(), a.c_str(), wantChunks.c_str());
        count("processes");
    }
    // data flows from those who may write a segment to those who may read it
    auto ask = [&](U& x, const std::string& s) { return x.p.ask(s); };
    for (size_t i = 0; i < nu; ++i)
        for (size_t j = 0; j < nu; ++j)
        {
            U &a = *us[i], &b = *us[j];
            if (i == j || !a.w || g_users[i].outsider || g_users[j].outsider) continue;
            const Seg& s = segs[size_t(a.seg)];
            if (!in(g_users[j], GID0 + s.reader) && !in(g_users[j], GID0 + s.writer)) continue;
            std::string sv = fmt("s%zux%zu", i, j);
            ask(a, fmt("pub %s %s %zu 0 0", sv.c_str(), sv.c_str(), 100 + i * 10 + j));
            ask(b, fmt("sub %s %s 8 0 0", sv.c_str(), sv.c_str()));
            uint64_t end = nowMs() + 20000;
            while (ask(a, "state " + sv) != "1")
            {
                VP_CHECK(nowMs() < end, "not_connected", "%s and %s are not connected", a.name.c_str(), b.name.c_str());
                rawSleepMs(20);
            }
            VP_CHECK(ask(a, "send " + sv + " 3") == "0", "loan_refused", "%s cannot loan", a.name.c_str());
            std::string got = ask(b, "take " + sv + " 10 0"), wantS;
            for (int k = 0; k < 3; ++k) wantS += fmt("%zu:%d ", 100 + i * 10 + j, k);
            VP_CHECK(got == wantS, "data", "%s sent [%s] to %s, who got [%s]", a.name.c_str(), wantS.c_str(), b.name.c_str(), got.c_str());
            ask(a, "del " + sv);
            ask(b, "del " + sv);
            count("transfers");
        }
    for (size_t i = 0; i < nu; ++i)
        if (!g_users[i].outsider) us[i]->p.quit();
    d.quit();
    auto rest = filesOf(dom);
    VP_CHECK(rest.empty(), "files_remain", "'%s' remains after the end of the daemon and all applications", rest[0].c_str());
}
} // namespace

// the virtual user database
extern "C" struct passwd* getpwnam(const char* n)
{
    static thread_local struct passwd p;
    static thread_local char name[64];
    for (auto& u : g_users)
        if (u.name == n)
        {
            snprintf(name, sizeof name, "%s", n);
            p = {};
            p.pw_name = name;
            p.pw_uid = u.uid;
            p.pw_gid = u.gid;
            errno = 0;
            return &p;
        }
    if (std::string(n) == "root")
    {
        p = {};
        snprintf(name, sizeof name, "root");
        p.pw_name = name;
        errno = 0;
        return &p;
    }
    errno = 0;
    return nullptr;
}
extern "C" struct passwd* getpwuid(uid_t uid)
{
    if (uid == 0) return getpwnam("root");
    for (auto& u : g_users)
        if (u.uid == uid) return getpwnam(u.name.c_str());
    errno = 0;
    return nullptr;
}
static struct group* grp(unsigned i)
{
    static thread_local struct group g;
    static thread_local char name[128];
    snprintf(name, sizeof name, "%s", g_groups[i].c_str());
    g = {};
    g.gr_name = name;
    g.gr_gid = GID0 + i;
    errno = 0;
    return &g;
}
extern "C" struct group* getgrnam(const char* n)
{
    for (unsigned i = 0; i < g_groups.size(); ++i)
        if (g_groups[i] == n) return grp(i);
    errno = 0;
    return nullptr;
}
extern "C" struct group* getgrgid(gid_t g)
{
    if (g >= GID0 && g < GID0 + g_groups.size()) return grp(g - GID0);
    errno = 0;
    return nullptr;
}
extern "C" int getgrouplist(const char* n, gid_t g, gid_t* out, int* cnt)
{
    std::vector<gid_t> r{g};
    for (auto& u : g_users)
        if (u.name == n)
            for (auto x : u.groups)
                if (x != g) r.push_back(x);
    int cap = *cnt;
    *cnt = int(r.size());
    if (int(r.size()) > cap) return -1;
    std::copy(r.begin(), r.end(), out);
    errno = 0;
    return int(r.size());
}

int main(int argc, char** argv)
{
    vh::init(argc, argv, "a random assignment of users to groups and of groups to segments, and real processes of those users");
    signal(SIGPIPE, SIG_IGN);
    if (geteuid() != 0) return 75;
    shared() = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    vh::ctx().trace = &g_trace;
    uint16_t dom = uint16_t(2000 + getpid() % 60000);
    int rc = vh::runCases([&](uint64_t seed, uint64_t) {
        for (int attempt = 0; attempt < 3; ++attempt)
        {
            g_trace.clear();
            shared()->gap = 0;
            removeFilesOf(dom);
            Rng r(seed);
            try
            {
                accessCase(r, dom);
                vh::distinct(vh::mix(seed, g_trace.size()));
                vh::sample(g_trace);
                count("completed");
                return;
            }
            catch (const Failed& f)
            {
                if (shared()->gap > 600 && (f.key == "blocked" || f.key == "died" || f.key == "not_connected" || f.key == "user_failed"))
                {
                    count("discarded_starved");
                    continue;
                }
                vh::fail(f.key.c_str(), f.msg + " |" + g_trace.substr(0, 1500));
            }
        }
    });
    removeFilesOf(dom);
    return rc;
}
