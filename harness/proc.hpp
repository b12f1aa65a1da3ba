// Real processes: a controller (this process, single-threaded) forks daemons and applications, each with a small command
// interpreter on a pipe. The endpoints are the public classes, every application is a real client process of a real daemon.
#pragma once
#include "common.hpp"
#include "iceoryx_posh/iceoryx_posh_config.hpp"
#include "iceoryx_posh/internal/roudi/roudi.hpp"
#include "iceoryx_posh/internal/runtime/posh_runtime_impl.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
#include "iceoryx_posh/roudi/iceoryx_roudi_components.hpp"
#include "iceoryx_posh/runtime/service_discovery.hpp"
#include "iox/logging.hpp"
#include <atomic>
#include <cerrno>
#include <deque>
#include <dirent.h>
#include <functional>
#include <memory>
#include <poll.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>

namespace vp
{
using namespace iox;
using vh::fmt;

struct Shared
{
    std::atomic<uint64_t> gap;    // longest time (ms) any process was not scheduled
    std::atomic<int> die[64];     // per application: die in the next sleep of the blocked thread
    std::atomic<int> asleep[64];  // the blocked thread has slept
};
inline Shared*& shared()
{
    static Shared* s = nullptr;
    return s;
}
inline uint64_t nowMs()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return uint64_t(t.tv_sec) * 1000 + uint64_t(t.tv_nsec) / 1000000;
}
inline void rawSleepMs(long ms)
{
    struct timespec t{ms / 1000, (ms % 1000) * 1000000};
    syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, &t, nullptr);
}
inline void noteGap(uint64_t g)
{
    auto& m = shared()->gap;
    uint64_t o = m.load();
    while (o < g && !m.compare_exchange_weak(o, g)) {}
}
inline void watchGaps()
{
    std::thread([] {
        uint64_t l = nowMs();
        for (;;)
        {
            rawSleepMs(10);
            uint64_t n = nowMs();
            if (n - l > 50) noteGap(n - l);
            l = n;
        }
    }).detach();
}

// what a process does on its way: crash points
inline thread_local int t_slot = -1;  // this thread dies in its next sleep when asked to
inline int g_sendsLeft = -1;          // the process dies at its n-th message to the daemon
inline bool g_dieBeforeSend = false;
[[noreturn]] inline void dieNow()
{
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}

// delays at the file operations which decide who owns a name
inline uint64_t g_delaySeed = 0;
inline void delayPoint()
{
    if (!g_delaySeed) return;
    static std::atomic<uint64_t> n{0};
    vh::Rng r(vh::mix(g_delaySeed, n++ * 977 + uint64_t(syscall(SYS_gettid))));
    if (r.chance(500)) rawSleepMs(long(r.range(1, 30)));
}

struct Failed
{
    std::string key, msg;
};
#define VP_CHECK(cond, key, ...)                                                                                       \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond)) throw vp::Failed{key, vh::fmt(__VA_ARGS__)};                                                      \
    } while (0)

struct Msg
{
    uint64_t magic, tag, seq, fill[5];
    void set(uint64_t t, uint64_t s)
    {
        magic = 0xC0FFEE1234ull ^ (t << 32) ^ s;
        tag = t;
        seq = s;
        for (int i = 0; i < 5; ++i) fill[i] = vh::mix(t * 31 + s, uint64_t(i));
    }
    bool good() const
    {
        if (magic != (0xC0FFEE1234ull ^ (tag << 32) ^ seq)) return false;
        for (int i = 0; i < 5; ++i)
            if (fill[i] != vh::mix(tag * 31 + seq, uint64_t(i))) return false;
        return true;
    }
};
static_assert(sizeof(Msg) == 64, "");

// ---------------------------------------------------------------- processes, seen from the controller
struct Proc
{
    pid_t pid{-1};
    int in{-1}, out{-1}; // to it, from it
    std::string name, buf;
    int status{0};
    bool reaped{true};
    std::string* log{nullptr};

    Proc() = default;
    Proc(const Proc&) = delete;
    Proc& operator=(const Proc&) = delete;
    ~Proc() { kill(); }

    template <typename F>
    void spawn(const std::string& n, F&& body)
    {
        name = n;
        int a[2], b[2];
        if (pipe(a) || pipe(b)) { perror("pipe"); exit(75); }
        fflush(nullptr);
        pid = fork();
        if (pid < 0) { perror("fork"); exit(75); }
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(a[1]);
            close(b[0]);
            signal(SIGABRT, SIG_DFL);
            signal(SIGPIPE, SIG_IGN);
            struct rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            if (!getenv("VP_VERBOSE"))
            {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 1);
            }
            iox::log::Logger::setLogLevel(getenv("VP_VERBOSE") ? iox::log::LogLevel::Debug : iox::log::LogLevel::Off);
            iox::experimental::hasExperimentalPoshFeaturesEnabled(true);
            watchGaps();
            body(a[0], b[1]);
            _exit(0);
        }
        close(a[0]);
        close(b[1]);
        in = a[1];
        out = b[0];
        reaped = false;
        buf.clear();
    }
    bool running()
    {
        if (reaped) return false;
        if (waitpid(pid, &status, WNOHANG) == pid) reaped = true;
        return !reaped;
    }
    void shut()
    {
        if (in >= 0) close(in);
        if (out >= 0) close(out);
        in = out = -1;
    }
    void kill()
    {
        if (!reaped)
        {
            ::kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            reaped = true;
        }
        shut();
    }
    void say(const std::string& s)
    {
        std::string l = s + "\n";
        if (log) *log += " " + name + "<" + s;
        (void)!write(in, l.data(), l.size());
    }
    // the next line, or nothing when the process has ended ("!") or the time is over ("?")
    std::string hear(int ms = 30000)
    {
        uint64_t end = nowMs() + uint64_t(ms);
        for (;;)
        {
            auto p = buf.find('\n');
            if (p != std::string::npos)
            {
                std::string l = buf.substr(0, p);
                buf.erase(0, p + 1);
                if (log) *log += " " + name + ">" + l.substr(0, 80);
                return l;
            }
            uint64_t n = nowMs();
            if (n >= end) return "?";
            struct pollfd f{out, POLLIN, 0};
            int r = poll(&f, 1, int(end - n));
            if (r < 0 && errno != EINTR) return "!";
            if (r <= 0) continue;
            char b[4096];
            ssize_t k = read(out, b, sizeof b);
            if (k <= 0)
            {
                for (int i = 0; i < 2000 && running(); ++i) rawSleepMs(5);
                if (log) *log += " " + name + ">ended(" + how() + ")";
                return "!";
            }
            buf.append(b, size_t(k));
        }
    }
    std::string how()
    {
        if (!reaped) return "running";
        if (WIFEXITED(status)) return fmt("exit %d", WEXITSTATUS(status));
        if (WIFSIGNALED(status)) return fmt("signal %d", WTERMSIG(status));
        return "?";
    }
    bool sanitizer() { return reaped && WIFEXITED(status) && WEXITSTATUS(status) == 99; }
    std::string ask(const std::string& s, int ms = 30000)
    {
        say(s);
        std::string l = hear(ms);
        VP_CHECK(!(l == "!" && sanitizer()), "memory_error", "process '%s' had a memory error in '%s'", name.c_str(), s.c_str());
        VP_CHECK(l != "!", "died", "process '%s' died (%s) in '%s'", name.c_str(), how().c_str(), s.c_str());
        VP_CHECK(l != "?", "blocked", "process '%s' did not return from '%s' within %d s", name.c_str(), s.c_str(), ms / 1000);
        return l;
    }
    void quit(const char* cmd = "quit")
    {
        say(cmd);
        uint64_t end = nowMs() + 60000;
        std::string l;
        do l = hear(int(end - std::min(end, nowMs())));
        while (l != "!" && l != "?");
        VP_CHECK(!sanitizer(), "memory_error", "process '%s' had a memory error at its end", name.c_str());
        VP_CHECK(l != "?", "blocked", "process '%s' did not end within 60 s", name.c_str());
        VP_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "died", "process '%s' ended with %s", name.c_str(), how().c_str());
        shut();
    }
};

inline bool readLine(int fd, std::string& buf, std::string& line)
{
    for (;;)
    {
        auto p = buf.find('\n');
        if (p != std::string::npos)
        {
            line = buf.substr(0, p);
            buf.erase(0, p + 1);
            return true;
        }
        char b[1024];
        ssize_t k = read(fd, b, sizeof b);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        buf.append(b, size_t(k));
    }
}
inline void reply(int fd, const std::string& s)
{
    std::string l = s + "\n";
    (void)!write(fd, l.data(), l.size());
}

// ---------------------------------------------------------------- the daemon process
inline void daemonBody(const IceoryxConfig& cfg, int in, int out)
{
    roudi::IceOryxRouDiComponents components(cfg);
    {
        roudi::RouDi daemon(components.rouDiMemoryManager, components.portManager, cfg);
        reply(out, "up");
        std::string b, l;
        while (readLine(in, b, l))
            if (l == "quit") break;
    }
}

// ---------------------------------------------------------------- the application process
struct AppRuntime : runtime::PoshRuntimeImpl
{
    AppRuntime(const RuntimeName_t& n, uint16_t domain)
        : PoshRuntimeImpl(optional<const RuntimeName_t*>(&n), DomainId{domain}, runtime::RuntimeLocation::SEPARATE_PROCESS_FROM_ROUDI)
    {
    }
    static runtime::PoshRuntime*& active()
    {
        static runtime::PoshRuntime* r = nullptr;
        return r;
    }
    static runtime::PoshRuntime& factory(optional<const RuntimeName_t*>) { return *active(); }
    static void install() { setRuntimeFactory(factory); }
};

struct End
{
    std::unique_ptr<popo::UntypedPublisher> p;
    std::unique_ptr<popo::UntypedSubscriber> s;
    std::unique_ptr<popo::UntypedClient> c;
    std::unique_ptr<popo::UntypedServer> v;
    uint64_t tag{0}, seq{0};
    int64_t rpc{0};
    std::vector<void*> loans;
    std::vector<const void*> held;
};
inline capro::IdString_t id(const std::string& s) { return capro::IdString_t(TruncateToCapacity, s.c_str()); }
inline capro::ServiceDescription svc(const std::string& s) { return {id(s), id("i"), id("e")}; }

struct App
{
    std::map<std::string, End> ends;
    std::unique_ptr<popo::WaitSet<>> ws;
    std::thread bg;
    std::atomic<int> bgState{0};
    int slot;
    std::string run(const std::string& line)
    {
        std::istringstream is(line);
        std::string op, n;
        is >> op >> n;
        if (op == "nop") return "ok";
        if (op == "crashsend")
        {
            int before = 0;
            is >> before;
            g_dieBeforeSend = before != 0;
            g_sendsLeft = atoi(n.c_str());
            return "ok";
        }
        if (op == "pub")
        {
            std::string s;
            uint64_t tag, hist;
            int block;
            is >> s >> tag >> hist >> block;
            popo::PublisherOptions o;
            o.historyCapacity = hist;
            o.subscriberTooSlowPolicy = block ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            End& e = ends[n];
            e.p.reset(new popo::UntypedPublisher(svc(s), o));
            e.tag = tag;
            return "ok";
        }
        if (op == "sub")
        {
            std::string s;
            uint64_t q, hist;
            int block;
            is >> s >> q >> hist >> block;
            popo::SubscriberOptions o;
            o.queueCapacity = q;
            o.historyRequest = hist;
            o.queueFullPolicy = block ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
            ends[n].s.reset(new popo::UntypedSubscriber(svc(s), o));
            return "ok";
        }
        if (op == "cli")
        {
            std::string s;
            uint64_t tag;
            is >> s >> tag;
            popo::ClientOptions o;
            o.responseQueueCapacity = 8;
            End& e = ends[n];
            e.c.reset(new popo::UntypedClient(svc(s), o));
            e.tag = tag;
            return "ok";
        }
        if (op == "srv")
        {
            std::string s;
            is >> s;
            popo::ServerOptions o;
            o.requestQueueCapacity = 16;
            ends[n].v.reset(new popo::UntypedServer(svc(s), o));
            return "ok";
        }
        if (op == "find")
        {
            runtime::ServiceDiscovery d;
            std::vector<std::string> r;
            for (auto pat : {popo::MessagingPattern::PUB_SUB, popo::MessagingPattern::REQ_RES})
                d.findService(id(n), optional<capro::IdString_t>(), optional<capro::IdString_t>(), [&](auto& sd) { r.push_back((pat == popo::MessagingPattern::PUB_SUB ? "p:" : "r:") + std::string(sd.getServiceIDString().c_str())); }, pat);
            std::string o = fmt("%zu", r.size());
            for (auto& x : r) o += " " + x;
            return o;
        }
        if (op == "count") // how many chunks are free
        {
            std::vector<std::unique_ptr<popo::UntypedPublisher>> ps;
            std::vector<std::vector<void*>> l;
            size_t total = 0;
            bool more = true;
            popo::PublisherOptions o;
            o.offerOnCreate = false;
            while (more && ps.size() < 40)
            {
                ps.emplace_back(new popo::UntypedPublisher(svc("count"), o));
                l.emplace_back();
                for (int i = 0; i < 8; ++i)
                {
                    auto r = ps.back()->loan(64);
                    if (r.has_error())
                    {
                        more = false;
                        break;
                    }
                    l.back().push_back(r.value());
                    ++total;
                }
            }
            for (size_t i = 0; i < ps.size(); ++i)
                for (auto x : l[i]) ps[i]->release(x);
            return fmt("%zu", total);
        }
        if (op == "await") // a thread waits on a WaitSet with all subscribers until killed
        {
            ws.reset(new popo::WaitSet<>());
            for (auto& e : ends)
                if (e.second.s) (void)ws->attachState(*e.second.s, popo::SubscriberState::HAS_DATA);
            bgState = 1;
            bg = std::thread([this] {
                while (bgState == 1) (void)ws->wait();
            });
            return "ok";
        }
        if (op == "bgstate") return fmt("%d", bgState.load());
        if (op == "bgjoin")
        {
            if (bg.joinable()) bg.join();
            bgState = 0;
            return "ok";
        }
        auto it = ends.find(n);
        if (it == ends.end()) return "unknown endpoint " + n;
        End& e = it->second;
        if (op == "del")
        {
            for (auto x : e.held)
            {
                if (e.s) e.s->release(x);
                if (e.c) e.c->releaseResponse(x);
                if (e.v) e.v->releaseRequest(x);
            }
            for (auto x : e.loans)
            {
                if (e.p) e.p->release(x);
                if (e.c) e.c->releaseRequest(x);
                if (e.v) e.v->releaseResponse(x);
            }
            ends.erase(it);
            return "ok";
        }
        if (op == "state")
        {
            if (e.p) return e.p->hasSubscribers() ? "1" : "0";
            if (e.s) return e.s->getSubscriptionState() == SubscribeState::SUBSCRIBED ? "1" : "0";
            if (e.c) return e.c->getConnectionState() == ConnectionState::CONNECTED ? "1" : "0";
            return e.v->hasClients() ? "1" : "0";
        }
        if (op == "send" || op == "bsend")
        {
            int k = 1;
            is >> k;
            auto work = [&e, k] {
                int failed = 0;
                for (int i = 0; i < k; ++i)
                {
                    auto l = e.p->loan(64);
                    if (l.has_error())
                    {
                        ++failed;
                        continue;
                    }
                    new (l.value()) Msg;
                    static_cast<Msg*>(l.value())->set(e.tag, e.seq++);
                    e.p->publish(l.value());
                }
                return failed;
            };
            if (op == "send") return fmt("%d", work());
            bgState = 1;
            shared()->asleep[slot] = 0;
            bg = std::thread([this, work] {
                t_slot = slot;
                int f = work();
                t_slot = -1;
                bgState = 2 + f;
            });
            return "ok";
        }
        if (op == "loan")
        {
            int k = 1, got = 0;
            is >> k;
            for (int i = 0; i < k; ++i)
            {
                if (e.p)
                    e.p->loan(64).and_then([&](void* x) { e.loans.push_back(x); ++got; });
                else if (e.c)
                    e.c->loan(64, 8).and_then([&](void* x) { e.loans.push_back(x); ++got; });
                else if (e.v && !e.held.empty())
                    e.v->loan(popo::RequestHeader::fromPayload(e.held.back()), 64, 8).and_then([&](void* x) { e.loans.push_back(x); ++got; });
            }
            return fmt("%d", got);
        }
        if (op == "take")
        {
            int k = 1, hold = 0;
            is >> k >> hold;
            std::string o;
            for (int i = 0; i < k; ++i)
            {
                const void* x = nullptr;
                if (e.s) e.s->take().and_then([&](const void* y) { x = y; });
                else if (e.c) e.c->take().and_then([&](const void* y) { x = y; });
                else e.v->take().and_then([&](const void* y) { x = y; });
                if (!x) break;
                auto* m = static_cast<const Msg*>(x);
                o += m->good() ? fmt("%lu:%lu ", (unsigned long)m->tag, (unsigned long)m->seq) : std::string("BAD ");
                if (hold) e.held.push_back(x);
                else if (e.s) e.s->release(x);
                else if (e.c) e.c->releaseResponse(x);
                else e.v->releaseRequest(x);
            }
            return o.empty() ? "-" : o;
        }
        if (op == "verify")
        {
            for (auto x : e.held)
                if (!static_cast<const Msg*>(x)->good()) return "BAD";
            return "good";
        }
        if (op == "drop")
        {
            for (auto x : e.held)
            {
                if (e.s) e.s->release(x);
                if (e.c) e.c->releaseResponse(x);
                if (e.v) e.v->releaseRequest(x);
            }
            e.held.clear();
            return "ok";
        }
        if (op == "req")
        {
            int k = 1, failed = 0;
            is >> k;
            for (int i = 0; i < k; ++i)
            {
                auto l = e.c->loan(64, 8);
                if (l.has_error())
                {
                    ++failed;
                    continue;
                }
                new (l.value()) Msg;
                static_cast<Msg*>(l.value())->set(e.tag, e.seq++);
                popo::RequestHeader::fromPayload(l.value())->setSequenceId(e.rpc++);
                if (e.c->send(l.value()).has_error()) ++failed;
            }
            return fmt("%d", failed);
        }
        if (op == "serve") // answers everything with the same content
        {
            std::string o;
            for (;;)
            {
                const void* x = nullptr;
                e.v->take().and_then([&](const void* y) { x = y; });
                if (!x) break;
                auto* m = static_cast<const Msg*>(x);
                o += m->good() ? fmt("%lu:%lu ", (unsigned long)m->tag, (unsigned long)m->seq) : std::string("BAD ");
                auto l = e.v->loan(popo::RequestHeader::fromPayload(x), 64, 8);
                if (!l.has_error())
                {
                    new (l.value()) Msg(*m);
                    (void)e.v->send(l.value());
                }
                else o += "noloan ";
                e.v->releaseRequest(x);
            }
            return o.empty() ? "-" : o;
        }
        return "unknown command " + op;
    }
};
inline void appBody(const std::string& name, uint16_t domain, int slot, int in, int out)
{
    std::string b, l;
    // crash points inside the registration
    if (!readLine(in, b, l)) return;
    if (l != "start")
    {
        std::istringstream is(l);
        std::string op;
        int before;
        is >> op >> g_sendsLeft >> before;
        g_dieBeforeSend = before != 0;
    }
    {
        RuntimeName_t n(TruncateToCapacity, name.c_str());
        AppRuntime rt(n, domain);
        AppRuntime::active() = &rt;
        AppRuntime::install();
        App app;
        app.slot = slot;
        reply(out, "up");
        while (readLine(in, b, l))
        {
            if (l == "quit")
            {
                app.ends.clear();
                app.ws.reset();
                break;
            }
            reply(out, app.run(l));
        }
    }
}
// files of a domain
inline std::vector<std::string> filesOf(uint16_t domain)
{
    std::vector<std::string> r;
    std::string pre = fmt("iox1_%u_", domain);
    for (auto d : {"/dev/shm", "/tmp"})
        if (DIR* p = opendir(d))
        {
            while (auto* e = readdir(p))
            {
                std::string f = e->d_name;
                auto k = f.find(pre);
                if (k == 0 || (k != std::string::npos && f.compare(0, 4, "sem.") == 0)) r.push_back(std::string(d) + "/" + f);
            }
            closedir(p);
        }
    std::sort(r.begin(), r.end());
    return r;
}
inline void removeFilesOf(uint16_t domain)
{
    for (auto& f : filesOf(domain)) unlink(f.c_str());
}
} // namespace vp

extern "C" int nanosleep(const struct timespec* t, struct timespec* rem)
{
    if (vp::t_slot >= 0)
    {
        vp::shared()->asleep[vp::t_slot] = 1;
        if (vp::shared()->die[vp::t_slot]) vp::dieNow();
    }
    long r = syscall(SYS_nanosleep, t, rem);
    return int(r);
}
extern "C" ssize_t sendto(int s, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t l)
{
    bool die = vp::g_sendsLeft >= 0 && vp::g_sendsLeft-- == 0;
    if (die && vp::g_dieBeforeSend) vp::dieNow();
    ssize_t r = syscall(SYS_sendto, s, b, n, f, a, l);
    if (die) vp::dieNow();
    return r;
}

extern "C" int flock(int fd, int op) noexcept
{
    vp::delayPoint();
    int r = int(syscall(SYS_flock, fd, op));
    int e = errno;
    vp::delayPoint();
    errno = e;
    return r;
}
extern "C" int unlink(const char* p) noexcept
{
    int e = errno;
    vp::delayPoint();
    errno = e;
    return int(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
}
extern "C" int remove(const char* p) noexcept
{
    int e = errno;
    vp::delayPoint();
    errno = e;
    int r = int(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
    if (r && (errno == EISDIR || errno == EPERM)) r = int(syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR));
    return r;
}
