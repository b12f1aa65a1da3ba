// C21: control channels (message queue, unix domain socket, named pipe) against an exact FIFO model, concurrent exactly-once
// and order monitors, control messages and serialisations against an independent strict reader, and hostile messages sent
// to a real daemon.
#include "common.hpp"
#include "env.hpp"
#include "sched.hpp"
#include "iceoryx_posh/capro/service_description.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_base.hpp"
#include "iceoryx_posh/internal/runtime/ipc_message.hpp"
#include "iceoryx_posh/runtime/port_config_info.hpp"
#include "iceoryx_posh/version/version_info.hpp"
#include "iox/detail/serialization.hpp"
#include "iox/message_queue.hpp"
#include "iox/named_pipe.hpp"
#include "iox/unix_domain_socket.hpp"
#include <deque>
#include <fcntl.h>
#include <mqueue.h>
#include <mutex>
#include <sys/socket.h>
#include <sys/un.h>
#include <thread>

using namespace iox;
using namespace vh;
using E = PosixIpcChannelError;
using units::Duration;

static std::atomic<uint64_t> g_kills{0};
extern "C" int kill(pid_t, int) noexcept
{
    ++g_kills; // the daemon asks whoever it believes to be registered to terminate: recorded only
    return 0;
}

namespace
{
const char* en(E e)
{
    static const char* n[] = {"NOT_INITIALIZED", "ACCESS_DENIED", "NO_SUCH_CHANNEL", "INTERNAL_LOGIC_ERROR", "CHANNEL_ALREADY_EXISTS", "INVALID_ARGUMENTS", "MAX_MESSAGE_SIZE_EXCEEDED", "MESSAGE_TOO_LONG", "CHANNEL_FULL", "INVALID_CHANNEL_NAME", "TIMEOUT"};
    return unsigned(e) < 11 ? n[unsigned(e)] : "other";
}
std::string randText(Rng& r, size_t n)
{
    std::string s(n, 0);
    int kind = int(r.below(3));
    for (auto& c : s) c = kind == 0 ? char(1 + r.below(255)) : kind == 1 ? char('a' + r.below(26)) : ",:/ \n"[r.below(5)];
    return s;
}
template <typename C>
struct Tr;
template <>
struct Tr<MessageQueue>
{
    static constexpr const char* name = "message queue";
    static constexpr uint64_t maxSize = MessageQueue::MAX_MESSAGE_SIZE, maxNumber = 10;
    static uint64_t payload(uint64_t maxMsgSize) { return maxMsgSize - MessageQueue::NULL_TERMINATOR_SIZE; }
    static constexpr bool exactCapacity = true, oneWay = false, zeroTimeout = true;
};
template <>
struct Tr<UnixDomainSocket>
{
    static constexpr const char* name = "domain socket";
    static constexpr uint64_t maxSize = UnixDomainSocket::MAX_MESSAGE_SIZE, maxNumber = 10;
    static uint64_t payload(uint64_t maxMsgSize) { return maxMsgSize; }
    static constexpr bool exactCapacity = false, oneWay = true, zeroTimeout = false;
};
template <>
struct Tr<NamedPipe>
{
    static constexpr const char* name = "named pipe";
    static constexpr uint64_t maxSize = NamedPipe::MAX_MESSAGE_SIZE, maxNumber = NamedPipe::MAX_NUMBER_OF_MESSAGES;
    static uint64_t payload(uint64_t) { return NamedPipe::MAX_MESSAGE_SIZE; }
    static constexpr bool exactCapacity = true, oneWay = false, zeroTimeout = true;
};
double nowMs()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) * 1e3 + double(t.tv_nsec) / 1e6;
}

template <typename C>
struct Chan
{
    using T = Tr<C>;
    Rng& r;
    std::string nm, hist;
    uint64_t maxSize, maxNumber;
    struct Cl
    {
        uint64_t max;
        std::unique_ptr<C> c;
    };
    std::vector<Cl> cl;
    std::unique_ptr<C> srv;
    std::deque<std::string> q;
    Chan(Rng& rr)
        : r(rr)
    {
        static uint64_t n = 0;
        nm = fmt("vhi%d_%lu", getpid(), (unsigned long)++n);
        if (r.chance(300)) nm += std::string(80 - nm.size(), 'x');
        if (r.chance(100) && !T::oneWay) nm = "/" + nm;
        maxSize = r.chance(300) ? T::maxSize : r.chance(500) ? 1 + r.below(T::maxSize) : 2 + r.below(40);
        if (maxSize < 2) maxSize = 2;
        maxNumber = 1 + r.below(T::maxNumber);
        hist = fmt("%s '%s' size %lu number %lu: ", T::name, nm.c_str(), (unsigned long)maxSize, (unsigned long)maxNumber);
        ctx().trace = &hist;
    }
    ~Chan() { ctx().trace = nullptr; }
    auto make(PosixIpcChannelSide side, uint64_t max)
    {
        return typename C::Builder_t().name(PosixIpcChannelName_t(TruncateToCapacity, nm.c_str())).channelSide(side).maxMsgSize(max).maxMsgNumber(maxNumber).create();
    }
    void open()
    {
        auto s = make(PosixIpcChannelSide::SERVER, maxSize);
        VH_CHECK(!s.has_error(), "create", "creating fails with %s; %s", en(s.error()), hist.c_str());
        srv.reset(new C(std::move(s.value())));
        q.clear();
        cl.clear();
        count("channels");
    }
    void addClient()
    {
        uint64_t max = r.chance(800) ? maxSize : 2 + r.below(T::maxSize - 2);
        auto c = make(PosixIpcChannelSide::CLIENT, max);
        if (!srv)
        {
            VH_CHECK(c.has_error() && c.error() == E::NO_SUCH_CHANNEL, "no-channel", "opening a channel which does not exist yields %s; %s", c.has_error() ? en(c.error()) : "success", hist.c_str());
            count("absent_channels");
            return;
        }
        VH_CHECK(!c.has_error(), "open", "opening fails with %s; %s", en(c.error()), hist.c_str());
        cl.push_back({max, std::make_unique<C>(std::move(c.value()))});
    }
    template <uint64_t N>
    auto sendN(C& c, const std::string& m, int how, Duration d)
    {
        iox::string<N> s(TruncateToCapacity, m.c_str(), m.size());
        if constexpr (std::is_same<C, NamedPipe>::value)
            if (how == 2) return c.trySend(s);
        return how == 0 ? c.send(s) : c.timedSend(s, d);
    }
    expected<void, E> sendS(C& c, const std::string& m, int how, Duration d)
    {
        if (r.chance(400) && m.size() <= 64) return sendN<64>(c, m, how, d);
        if (r.chance(300) && m.size() <= T::maxSize) return sendN<T::maxSize>(c, m, how, d);
        if constexpr (std::is_same<C, NamedPipe>::value)
            if (how == 2) return c.trySend(m);
        return how == 0 ? c.send(m) : c.timedSend(m, d);
    }
    bool full() const { return T::exactCapacity ? q.size() >= maxNumber : q.size() >= 4; }
    void send()
    {
        if (cl.empty()) return;
        auto& c = cl[r.below(cl.size())];
        uint64_t lim = T::payload(c.max), slim = T::payload(maxSize), n;
        switch (r.below(6))
        {
        case 0: n = lim + r.below(3); break;
        case 1: n = lim - r.below(std::min<uint64_t>(lim + 1, 3)); break;
        case 2: n = lim + 1 + r.below(2000); break;
        case 3: n = 0; break;
        default: n = r.below(lim + 1); break;
        }
        std::string m = randText(r, n);
        bool tooLong = n > lim;
        int how = int(r.below(std::is_same<C, NamedPipe>::value ? 3 : 2));
        if (how == 0 && full() && !tooLong) how = 1;
        Duration d = Duration::fromMicroseconds(full() ? (T::zeroTimeout && r.chance(300) ? 0 : 1 + r.below(2000)) : 50000000);
        hist += fmt("send%d(%lu) ", how, (unsigned long)n);
        double t0 = nowMs();
        auto e = sendS(*c.c, m, how, d);
        double t = nowMs() - t0;
        if (tooLong)
        {
            VH_CHECK(e.has_error() && e.error() == E::MESSAGE_TOO_LONG, "too-long", "sending %lu bytes with a limit of %lu yields %s; %s", (unsigned long)n, (unsigned long)lim, e.has_error() ? en(e.error()) : "success", hist.c_str());
            count("too_long");
        }
        else if (n > slim && e.has_error()) count("too_long_for_server"); // whatever the error is
        else if (e.has_error())
        {
            VH_CHECK(full() && (e.error() == E::TIMEOUT), "send", "sending %lu bytes to a channel with %lu messages fails with %s; %s", (unsigned long)n, (unsigned long)q.size(), en(e.error()), hist.c_str());
            VH_CHECK(how == 2 || t * 1000 + 500 >= double(d.toMicroseconds()), "early", "timeout after %.3f ms instead of %lu us; %s", t, (unsigned long)d.toMicroseconds(), hist.c_str());
            count("full");
        }
        else
        {
            VH_CHECK(!T::exactCapacity || !full(), "overfull", "message number %lu accepted; %s", (unsigned long)q.size() + 1, hist.c_str());
            q.push_back(m);
            count("sent");
        }
    }
    template <uint64_t N>
    expected<std::string, E> recvN(C& c, int how, Duration d)
    {
        iox::string<N> s;
        auto go = [&]() -> expected<void, E> {
            if constexpr (std::is_same<C, NamedPipe>::value)
                if (how == 2) return c.tryReceive(s);
            return how == 0 ? c.receive(s) : c.timedReceive(s, d);
        };
        auto e = go();
        if (e.has_error()) return err(e.error());
        VH_CHECK(strlen(s.c_str()) == s.size(), "string-size", "received string has size %lu and %lu characters; %s", (unsigned long)s.size(), (unsigned long)strlen(s.c_str()), hist.c_str());
        return ok<std::string>(s.c_str());
    }
    expected<std::string, E> recvS(C& c, int how, Duration d)
    {
        if (r.chance(500)) return recvN<T::maxSize>(c, how, d);
        if constexpr (std::is_same<C, NamedPipe>::value)
            if (how == 2) return c.tryReceive();
        return how == 0 ? c.receive() : c.timedReceive(d);
    }
    void recv()
    {
        if (!srv) return;
        C* c = srv.get();
        if (!T::oneWay && !cl.empty() && r.chance(200)) c = cl[r.below(cl.size())].c.get();
        int how = int(r.below(std::is_same<C, NamedPipe>::value ? 3 : 2));
        if (how == 0 && q.empty()) how = 1;
        Duration d = Duration::fromNanoseconds(q.empty() ? (r.chance(200) ? (T::zeroTimeout ? 0 : 1) + r.below(2000) : 1000 * (1 + r.below(2000))) : 50000000000ULL);
        hist += fmt("receive%d ", how);
        double t0 = nowMs();
        auto e = recvS(*c, how, d);
        double t = nowMs() - t0;
        if (q.empty())
        {
            VH_CHECK(e.has_error() && e.error() == E::TIMEOUT, "empty", "receiving from an empty channel yields %s; %s", e.has_error() ? en(e.error()) : "a message", hist.c_str());
            VH_CHECK(how == 2 || t * 1000 + 500 >= double(d.toMicroseconds()), "early", "timeout after %.3f ms instead of %lu us; %s", t, (unsigned long)d.toMicroseconds(), hist.c_str());
            count("empty");
            return;
        }
        VH_CHECK(!e.has_error(), "lost", "receiving from a channel with %lu messages fails with %s; %s", (unsigned long)q.size(), en(e.error()), hist.c_str());
        VH_CHECK(e.value() == q.front(), "content", "received %lu bytes instead of the %lu bytes sent or in wrong order; %s", (unsigned long)e.value().size(), (unsigned long)q.front().size(), hist.c_str());
        q.pop_front();
        count("received");
    }
    void moves()
    {
        hist += "move ";
        auto mv = [&](std::unique_ptr<C>& c) {
            if (r.chance(500)) c = std::make_unique<C>(std::move(*c));
            else
            {
                C tmp(std::move(*c));
                *c = std::move(tmp);
            }
        };
        if (srv && r.chance(500)) mv(srv);
        if (!cl.empty()) mv(cl[r.below(cl.size())].c);
        count("moves");
    }
    void wrongSide()
    {
        if constexpr (std::is_same<C, UnixDomainSocket>::value)
        {
            hist += "wrong side ";
            if (srv)
            {
                auto e = srv->timedSend("x", Duration::fromMilliseconds(1));
                VH_CHECK(e.has_error() && e.error() == E::INTERNAL_LOGIC_ERROR, "wrong-side", "sending on the server side is not refused; %s", hist.c_str());
            }
            if (!cl.empty())
            {
                auto e = cl[0].c->timedReceive(Duration::fromMilliseconds(1));
                VH_CHECK(e.has_error() && e.error() == E::INTERNAL_LOGIC_ERROR, "wrong-side", "receiving on the client side is not refused; %s", hist.c_str());
            }
            count("wrong_side");
        }
    }
    // what only a foreign sender can do: an empty message, one without terminator, one which is longer than allowed
    void malformed()
    {
        if (!srv || full()) return;
        std::string m = r.chance(300) ? std::string() : randText(r, 1 + r.below(r.chance(300) ? 6000 : 60));
        if constexpr (std::is_same<C, UnixDomainSocket>::value)
        {
            int fd = socket(AF_UNIX, SOCK_DGRAM, 0);
            sockaddr_un a{};
            a.sun_family = AF_UNIX;
            snprintf(a.sun_path, sizeof a.sun_path, "%s%s", platform::IOX_UDS_SOCKET_PATH_PREFIX, nm.c_str());
            hist += fmt("raw(%lu) ", (unsigned long)m.size());
            auto n = sendto(fd, m.data(), m.size(), 0, reinterpret_cast<sockaddr*>(&a), sizeof a);
            close(fd);
            if (n < 0) return;
        }
        else if constexpr (std::is_same<C, MessageQueue>::value)
        {
            if (m.size() > maxSize) m.resize(maxSize);
            auto d = mq_open((nm[0] == '/' ? nm : "/" + nm).c_str(), O_WRONLY | O_NONBLOCK);
            if (d == mqd_t(-1)) return;
            hist += fmt("raw(%lu) ", (unsigned long)m.size());
            int n = mq_send(d, m.data(), m.size(), 1);
            mq_close(d);
            if (n < 0) return;
        }
        else return;
        while (!q.empty()) recv();
        hist += "receive ";
        auto e = recvS(*srv, 1, Duration::fromSeconds(50));
        VH_CHECK(e.has_error() && e.error() != E::TIMEOUT, "malformed", "a malformed message of %lu bytes yields %s; %s", (unsigned long)m.size(), e.has_error() ? en(e.error()) : "a message", hist.c_str());
        count("malformed");
    }
    void run()
    {
        open();
        size_t n = 20 + r.below(60);
        for (size_t i = 0; i < n; ++i)
        {
            unsigned d = unsigned(r.below(100));
            if (cl.empty() || d < 4) { if (cl.size() < 3) addClient(); }
            else if (d < 45) send();
            else if (d < 85) recv();
            else if (d < 89) moves();
            else if (d < 91) { cl.erase(cl.begin() + long(r.below(cl.size()))); hist += "close "; }
            else if (d < 93) malformed();
            else if (d < 94) wrongSide();
            else if (d < 96)
            {
                hist += "restart ";
                cl.clear();
                srv.reset();
                addClient();
                auto e = C::unlinkIfExists(PosixIpcChannelName_t(TruncateToCapacity, nm.c_str()));
                VH_CHECK(!e.has_error() && !e.value(), "left-behind", "the destroyed channel is still there; %s", hist.c_str());
                open();
            }
        }
        if (r.chance(200))
        {
            auto e = C::unlinkIfExists(PosixIpcChannelName_t(TruncateToCapacity, nm.c_str()));
            VH_CHECK(!e.has_error() && e.value(), "unlink", "an existing channel is not removed; %s", hist.c_str());
            e = C::unlinkIfExists(PosixIpcChannelName_t(TruncateToCapacity, nm.c_str()));
            VH_CHECK(!e.has_error() && !e.value(), "unlink", "a removed channel is removed again; %s", hist.c_str());
        }
        while (!q.empty()) recv();
        recv();
        cl.clear();
        srv.reset();
        distinct(std::hash<std::string>()(hist.substr(hist.find(':'))));
    }
};

// two names are two channels, whatever their length
template <typename C>
void names(Rng& r)
{
    using T = Tr<C>;
    static uint64_t k = 0;
    ++k;
    size_t len = 80 + r.below(21);
    std::string base = fmt("vhn%d_%lu_", getpid(), (unsigned long)k);
    base += std::string(len - 1 - base.size(), 'n');
    std::string nm[2] = {base + "a", base + "b"};
    auto make = [&](const std::string& n, PosixIpcChannelSide side) {
        return typename C::Builder_t().name(PosixIpcChannelName_t(TruncateToCapacity, n.c_str())).channelSide(side).maxMsgSize(64).maxMsgNumber(3).create();
    };
    auto a = make(nm[0], PosixIpcChannelSide::SERVER);
    if (a.has_error())
    {
        VH_CHECK(a.error() == E::INVALID_CHANNEL_NAME, "name", "creating a %s with a name of %lu characters fails with %s", T::name, (unsigned long)len, en(a.error()));
        count("names_refused");
        return;
    }
    count("names_accepted");
    auto stranger = make(nm[1], PosixIpcChannelSide::CLIENT);
    VH_CHECK(stranger.has_error() && stranger.error() == E::NO_SUCH_CHANNEL, "name-merged", "%s: with a name of %lu characters another channel is opened which differs in the last character only", T::name, (unsigned long)len);
    auto c = make(nm[0], PosixIpcChannelSide::CLIENT);
    VH_CHECK(!c.has_error(), "open", "opening a %s with a name of %lu characters fails with %s", T::name, (unsigned long)len, en(c.error()));
    auto b = make(nm[1], PosixIpcChannelSide::SERVER);
    VH_CHECK(!b.has_error(), "create", "a second %s cannot be created: %s", T::name, en(b.error()));
    auto s = c.value().timedSend("hello", Duration::fromSeconds(50));
    VH_CHECK(!s.has_error(), "send", "%s: %s", T::name, en(s.error()));
    auto m = a.value().timedReceive(Duration::fromSeconds(50));
    VH_CHECK(!m.has_error() && m.value() == "hello", "lost", "%s: message lost after another channel was created", T::name);
    auto u = C::unlinkIfExists(PosixIpcChannelName_t(TruncateToCapacity, nm[1].c_str()));
    VH_CHECK(!u.has_error() && u.value(), "unlink", "%s with a name of %lu characters is not removed", T::name, (unsigned long)len);
    auto again = make(nm[0], PosixIpcChannelSide::CLIENT);
    VH_CHECK(!again.has_error(), "unlink", "%s disappeared when another one was removed", T::name);
}

// several senders, one or two receivers
template <typename C>
void concurrentRun(Rng& r, bool controlled)
{
    using T = Tr<C>;
    static uint64_t k = 0;
    auto nm = PosixIpcChannelName_t(TruncateToCapacity, fmt("vhc%d_%lu", getpid(), (unsigned long)++k).c_str());
    uint64_t number = 1 + r.below(controlled ? 4 : 10);
    auto s = typename C::Builder_t().name(nm).channelSide(PosixIpcChannelSide::SERVER).maxMsgSize(128).maxMsgNumber(number).create();
    VH_CHECK(!s.has_error(), "create", "creating a %s fails with %s", T::name, en(s.error()));
    size_t ns = 1 + r.below(3), nr = 1 + (T::oneWay ? 0 : r.below(2)), per = controlled ? 2 + r.below(5) : 10 + r.below(60);
    std::vector<C> cs;
    for (size_t i = 0; i < ns; ++i)
    {
        auto c = typename C::Builder_t().name(nm).channelSide(PosixIpcChannelSide::CLIENT).maxMsgSize(128).maxMsgNumber(number).create();
        VH_CHECK(!c.has_error(), "open", "opening a %s fails with %s", T::name, en(c.error()));
        cs.push_back(std::move(c.value()));
    }
    uint64_t seed = r.next();
    auto text = [&](size_t i, size_t n) {
        Rng rr(mix(seed, i * 1000 + n));
        return fmt("%lu:%lu:", (unsigned long)i, (unsigned long)n) + randText(rr, rr.below(100));
    };
    std::vector<std::vector<std::string>> got(nr);
    std::vector<std::set<size_t>> refused(ns);
    std::atomic<size_t> accepted{0}, taken{0};
    std::atomic<size_t> done{0};
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < ns; ++i)
        bodies.push_back([&, i] {
            Rng rr(mix(seed, 77 + i));
            for (size_t n = 0; n < per; ++n)
            {
                auto m = text(i, n);
                bool timed = rr.chance(400);
                // (the scheduler knows a semaphore by its address, hence one mapping under control)
                auto& c = controlled ? s.value() : cs[i];
                auto e = timed ? c.timedSend(m, Duration::fromMicroseconds(1 + rr.below(3000))) : c.send(m);
                if (e.has_error())
                {
                    VH_CHECK(timed && e.error() == E::TIMEOUT, "send", "%s: sending fails with %s", T::name, en(e.error()));
                    refused[i].insert(n);
                }
                else ++accepted;
            }
            ++done;
        });
    for (size_t i = 0; i < nr; ++i)
        bodies.push_back([&, i] {
            Rng rr(mix(seed, 99 + i));
            for (;;)
            {
                bool end = done.load() == ns; // before: whatever was accepted until then is in the channel
                auto e = s.value().timedReceive(Duration::fromMilliseconds(controlled ? 1 : 1 + rr.below(10)));
                if (e.has_error())
                {
                    VH_CHECK(e.error() == E::TIMEOUT, "receive", "%s: receiving fails with %s", T::name, en(e.error()));
                    if (end && (nr > 1 || taken == accepted)) break;
                    VH_CHECK(!end, "lost", "%s: empty although %lu of %lu accepted messages were received", T::name, (unsigned long)taken, (unsigned long)accepted);
                    continue;
                }
                ++taken;
                got[i].push_back(e.value());
            }
        });
    if (controlled)
    {
        vs::Options o;
        o.seed = r.next();
        vs::run(bodies, o);
    }
    else
    {
        std::vector<std::thread> ts;
        for (auto& b : bodies) ts.emplace_back(b);
        for (auto& t : ts) t.join();
    }
    std::set<std::string> seen;
    size_t total = 0;
    for (auto& g : got)
    {
        std::vector<long> last(ns, -1);
        for (auto& m : g)
        {
            unsigned long i = 0, n = 0;
            VH_CHECK(sscanf(m.c_str(), "%lu:%lu:", &i, &n) == 2 && i < ns && n < per && m == text(i, n), "content", "%s: received a message of %lu bytes which nobody sent: %s", T::name, (unsigned long)m.size(), m.substr(0, 40).c_str());
            VH_CHECK(seen.insert(m).second, "twice", "%s: message %lu of sender %lu received twice", T::name, n, i);
            VH_CHECK(!refused[i].count(n), "refused", "%s: message %lu of sender %lu was refused and received", T::name, n, i);
            VH_CHECK(long(n) > last[i], "order", "%s: message %lu of sender %lu received after %ld", T::name, n, i, last[i]);
            last[i] = long(n);
            ++total;
        }
    }
    VH_CHECK(total == accepted, "lost", "%s: %lu of %lu accepted messages received", T::name, (unsigned long)total, (unsigned long)accepted);
    count("concurrent_messages", total);
    count("concurrent_runs");
    if (total < ns * per) count("concurrent_timeouts");
}

// ---- messages and serialisations ----
void messages(Rng& r)
{
    std::vector<std::string> es;
    size_t n = r.below(8);
    bool bad = false;
    runtime::IpcMessage m;
    for (size_t i = 0; i < n; ++i)
    {
        std::string e = r.chance(100) ? std::string() : randText(r, r.below(r.chance(100) ? 2000 : 20));
        bool hasSep = e.find(',') != std::string::npos;
        VH_CHECK(m.isValidEntry(e) == !hasSep, "entry", "validity of an entry %s separator", hasSep ? "with" : "without");
        if (hasSep && r.chance(700))
        {
            for (auto& c : e) if (c == ',') c = '.';
            hasSep = false;
        }
        bad |= hasSep;
        m << e;
        if (!hasSep) es.push_back(e);
    }
    VH_CHECK(m.isValid() == !bad, "message", "a message %s invalid entries is %svalid", bad ? "with" : "without", m.isValid() ? "" : "in");
    if (bad) { count("messages_invalid"); return; }
    auto same = [&](const runtime::IpcMessage& x) {
        VH_CHECK(x.isValid() && x.getNumberOfElements() == es.size(), "message", "%u elements instead of %lu", x.getNumberOfElements(), (unsigned long)es.size());
        for (size_t i = 0; i < es.size(); ++i)
            VH_CHECK(x.getElementAtIndex(uint32_t(i)) == es[i], "element", "element %lu of %lu differs", (unsigned long)i, (unsigned long)es.size());
        VH_CHECK(x.getElementAtIndex(uint32_t(es.size())).empty() && x.getElementAtIndex(0xffffffffu).empty(), "element", "an element beyond the last is not empty");
    };
    same(m);
    runtime::IpcMessage m2(m.getMessage()), m3;
    m3 << "x";
    m3.setMessage(m.getMessage());
    same(m2);
    same(m3);
    VH_CHECK(m == m2 && m2 == m3, "message", "equal messages differ");
    if (!m.getMessage().empty())
    {
        auto cut = m.getMessage();
        cut.resize(r.below(cut.size()));
        runtime::IpcMessage x(cut);
        VH_CHECK(x.isValid() == (cut.empty() || cut.back() == ','), "truncated", "a truncated message is %svalid", x.isValid() ? "" : "in");
    }
    // message types
    std::string t = r.chance(500) ? fmt("%ld", long(r.below(60)) - 10) : randText(r, r.below(8));
    char* end;
    errno = 0;
    long v = strtol(t.c_str(), &end, 10);
    bool num = !t.empty() && (isdigit(t[0]) || t[0] == '-') && *end == 0 && errno == 0;
    if (num || t.find_first_of("0123456789") == std::string::npos)
    {
        auto ty = runtime::stringToIpcMessageType(t.c_str());
        bool in = num && v > long(runtime::IpcMessageType::BEGIN) && v < long(runtime::IpcMessageType::END);
        VH_CHECK(ty == (in ? runtime::IpcMessageType(v) : runtime::IpcMessageType::NOTYPE), "message-type", "'%s' is read as %d", t.c_str(), int(ty));
        auto et = runtime::stringToIpcMessageErrorType(t.c_str());
        in = num && v > long(runtime::IpcMessageErrorType::BEGIN) && v < long(runtime::IpcMessageErrorType::END);
        VH_CHECK(et == (in ? runtime::IpcMessageErrorType(v) : runtime::IpcMessageErrorType::NOTYPE), "error-type", "'%s' is read as %d", t.c_str(), int(et));
        count("message_types");
    }
    count("messages");
}

// strict reader: length in decimal digits without sign and blanks, colon, that many characters
bool entries(std::string s, std::vector<std::string>& out, bool& ambiguous)
{
    out.clear();
    while (!s.empty())
    {
        auto p = s.find(':');
        if (p == std::string::npos) return false;
        auto num = s.substr(0, p);
        if (num.empty() || num.find('\0') != std::string::npos) { ambiguous = true; return false; }
        for (char c : num)
            if (isspace((unsigned char)c) || c == '+') { ambiguous = true; return false; }
        for (char c : num)
            if (!isdigit((unsigned char)c)) return false;
        unsigned __int128 v = 0;
        for (char c : num)
        {
            v = v * 10 + unsigned(c - '0');
            if (v > (unsigned __int128)UINT64_MAX) return false;
        }
        if (v > s.size() - p - 1) return false;
        out.push_back(s.substr(p + 1, size_t(v)));
        s = s.substr(p + 1 + size_t(v));
    }
    return true;
}
std::string mutate(Rng& r, std::string s)
{
    size_t n = 1 + r.below(3);
    for (size_t i = 0; i < n; ++i)
    {
        switch (r.below(8))
        {
        case 0: if (!s.empty()) s.erase(r.below(s.size()), 1 + r.below(3)); break;
        case 1: s.insert(r.below(s.size() + 1), 1, "0123456789:,ax-"[r.below(15)]); break;
        case 2: if (!s.empty()) s[r.below(s.size())] = "0123456789:,ax-"[r.below(15)]; break;
        case 3: s.resize(r.below(s.size() + 1)); break;
        case 4:
        {
            // another length, also such that the end of the entry wraps around
            auto p = s.find(':', r.below(s.size() + 1));
            if (p == std::string::npos) break;
            auto b = p;
            while (b > 0 && isdigit((unsigned char)s[b - 1])) --b;
            uint64_t v = r.chance(500) ? UINT64_MAX - r.below(2 * s.size() + 40) : r.chance(500) ? r.next() : r.below(200);
            s.replace(b, p - b, std::to_string(v));
            break;
        }
        case 5: s += r.chance(500) ? "0:" : "1:a"; break;
        case 6: if (!s.empty()) { auto a = r.below(s.size()); s += s.substr(a, r.below(30)); } break;
        default: std::reverse(s.begin() + long(r.below(s.size() + 1)), s.end()); break;
        }
    }
    return s;
}
void wrapLength(Rng& r)
{
    // the only entry claims a length for which the position behind it wraps around to the end of the text
    std::string body = randText(r, 1 + r.below(60));
    for (uint64_t digits = 20, p = digits;; )
    {
        uint64_t k = r.below(p + 1 + body.size() + 1);
        uint64_t len = k - (p + 1); // wraps
        if (r.chance(500)) len = p + 1 + body.size() - (p + 1) - (p + 1 + body.size());
        auto s = std::to_string(len);
        if (s.size() != digits) break;
        Serialization x(s + ":" + body);
        std::string v1;
        iox::string<100> v;
        VH_CHECK(!x.extract(v), "misread", "'%s' is accepted as a serialised string", x.toString().substr(0, 60).c_str());
        VH_CHECK(!x.getNth(0U, v), "misread", "'%s' has a readable first entry", x.toString().substr(0, 60).c_str());
        count("wrapped_lengths");
        break;
    }
}
template <uint64_t N>
iox::string<N> rs(Rng& r)
{
    auto t = randText(r, r.chance(200) ? N : r.below(N < 20 ? N : 20));
    return iox::string<N>(TruncateToCapacity, t.c_str(), t.size());
}
bool numeric(const std::string& s, uint64_t max, uint64_t& v, bool& ambiguous)
{
    if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos)
    {
        if (!s.empty() && (isspace((unsigned char)s[0]) || s[0] == '+' || s[0] == '-')) ambiguous = true;
        return false;
    }
    unsigned __int128 x = 0;
    for (char c : s)
    {
        x = x * 10 + unsigned(c - '0');
        if (x > max) return false;
    }
    v = uint64_t(x);
    return true;
}
struct Field
{
    char kind; // 's' string with limit, 'n' number with limit, 'b' bool
    uint64_t max;
};
// what the text means, judged from the list of fields
bool meaning(const std::string& s, const std::vector<Field>& fs, std::vector<std::string>& out, bool& ambiguous)
{
    if (!entries(s, out, ambiguous) || out.size() != fs.size()) return false;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        uint64_t v;
        if (fs[i].kind == 's')
        {
            if (strlen(out[i].c_str()) != out[i].size()) ambiguous = true;
            if (out[i].size() > fs[i].max) return false;
        }
        else if (!numeric(out[i], fs[i].max, v, ambiguous)) return false;
        else out[i] = std::to_string(v);
    }
    return true;
}
template <typename Ser, typename De>
void check(Rng& r, const char* what, const std::string& text, const std::vector<Field>& fs, Ser ser, De de)
{
    auto o = de(Serialization(text));
    VH_CHECK(o.has_value(), "round-trip", "%s: its own serialisation is refused: %s", what, text.substr(0, 300).c_str());
    VH_CHECK(ser(*o) == text, "round-trip", "%s: '%s' becomes '%s'", what, text.substr(0, 300).c_str(), ser(*o).substr(0, 300).c_str());
    count("round_trips");
    for (int i = 0; i < 3; ++i)
    {
        auto t = mutate(r, text);
        std::vector<std::string> want, got;
        bool amb = false, a2 = false;
        bool good = meaning(t, fs, want, amb);
        if (amb) continue;
        auto x = de(Serialization(t));
        VH_CHECK(x.has_value() == good, good ? "refused" : "misread", "%s: '%s' is %s", what, t.substr(0, 300).c_str(), good ? "refused" : "accepted");
        if (good)
        {
            auto back = ser(*x);
            VH_CHECK(meaning(back, fs, got, a2) && got == want, "misread", "%s: '%s' is read as '%s'", what, t.substr(0, 300).c_str(), back.substr(0, 300).c_str());
            count("mutants_accepted");
        }
        else count("mutants_refused");
    }
}
void serialisations(Rng& r)
{
    auto num = [&](uint64_t max) { return r.chance(100) ? max : r.chance(200) ? r.next() % (max ? max : 1) : std::min<uint64_t>(r.below(10), max); };
    switch (r.below(6))
    {
    case 0:
    {
        capro::ServiceDescription::ClassHash h({uint32_t(r.next()), uint32_t(r.next()), 0, UINT32_MAX});
        capro::ServiceDescription sd(rs<100>(r), rs<100>(r), rs<100>(r), h, capro::Interfaces(r.below(uint64_t(capro::Interfaces::INTERFACE_END))));
        if (r.chance(300)) sd.setLocal();
        auto ser = [](const capro::ServiceDescription& x) { return static_cast<Serialization>(x).toString(); };
        auto o = capro::ServiceDescription::deserialize(static_cast<Serialization>(sd));
        VH_CHECK(!o.has_error() && o.value() == sd && o.value().getClassHash() == h && o.value().getScope() == sd.getScope() && o.value().getSourceInterface() == sd.getSourceInterface(), "round-trip", "service description changed");
        check(r, "service description", ser(sd), {{'s', 100}, {'s', 100}, {'s', 100}, {'n', UINT32_MAX}, {'n', UINT32_MAX}, {'n', UINT32_MAX}, {'n', UINT32_MAX}, {'n', uint64_t(capro::Scope::INVALID) - 1}, {'n', uint64_t(capro::Interfaces::INTERFACE_END) - 1}}, ser,
              [](const Serialization& s) { auto e = capro::ServiceDescription::deserialize(s); return e.has_error() ? optional<capro::ServiceDescription>() : optional<capro::ServiceDescription>(e.value()); });
        break;
    }
    case 1:
    {
        popo::PublisherOptions o;
        o.historyCapacity = num(UINT64_MAX);
        o.nodeName = NodeName_t(TruncateToCapacity, rs<80>(r).c_str());
        o.offerOnCreate = r.chance(500);
        o.subscriberTooSlowPolicy = popo::ConsumerTooSlowPolicy(r.below(2));
        check(r, "publisher options", o.serialize().toString(), {{'n', UINT64_MAX}, {'s', NodeName_t::capacity()}, {'b', 1}, {'n', 1}}, [](const popo::PublisherOptions& x) { return x.serialize().toString(); },
              [](const Serialization& s) { auto e = popo::PublisherOptions::deserialize(s); return e.has_error() ? optional<popo::PublisherOptions>() : optional<popo::PublisherOptions>(e.value()); });
        break;
    }
    case 2:
    {
        popo::SubscriberOptions o;
        o.queueCapacity = num(UINT64_MAX);
        o.historyRequest = num(UINT64_MAX);
        o.nodeName = NodeName_t(TruncateToCapacity, rs<80>(r).c_str());
        o.subscribeOnCreate = r.chance(500);
        o.queueFullPolicy = popo::QueueFullPolicy(r.below(2));
        o.requiresPublisherHistorySupport = r.chance(500);
        check(r, "subscriber options", o.serialize().toString(), {{'n', UINT64_MAX}, {'n', UINT64_MAX}, {'s', NodeName_t::capacity()}, {'b', 1}, {'n', 1}, {'b', 1}}, [](const popo::SubscriberOptions& x) { return x.serialize().toString(); },
              [](const Serialization& s) { auto e = popo::SubscriberOptions::deserialize(s); return e.has_error() ? optional<popo::SubscriberOptions>() : optional<popo::SubscriberOptions>(e.value()); });
        break;
    }
    case 3:
    {
        popo::ClientOptions o;
        o.responseQueueCapacity = num(UINT64_MAX);
        o.nodeName = NodeName_t(TruncateToCapacity, rs<80>(r).c_str());
        o.connectOnCreate = r.chance(500);
        o.responseQueueFullPolicy = popo::QueueFullPolicy(r.below(2));
        o.serverTooSlowPolicy = popo::ConsumerTooSlowPolicy(r.below(2));
        check(r, "client options", o.serialize().toString(), {{'n', UINT64_MAX}, {'s', NodeName_t::capacity()}, {'b', 1}, {'n', 1}, {'n', 1}}, [](const popo::ClientOptions& x) { return x.serialize().toString(); },
              [](const Serialization& s) { auto e = popo::ClientOptions::deserialize(s); return e.has_error() ? optional<popo::ClientOptions>() : optional<popo::ClientOptions>(e.value()); });
        break;
    }
    case 4:
    {
        popo::ServerOptions o;
        o.requestQueueCapacity = num(UINT64_MAX);
        o.nodeName = NodeName_t(TruncateToCapacity, rs<80>(r).c_str());
        o.offerOnCreate = r.chance(500);
        o.requestQueueFullPolicy = popo::QueueFullPolicy(r.below(2));
        o.clientTooSlowPolicy = popo::ConsumerTooSlowPolicy(r.below(2));
        check(r, "server options", o.serialize().toString(), {{'n', UINT64_MAX}, {'s', NodeName_t::capacity()}, {'b', 1}, {'n', 1}, {'n', 1}}, [](const popo::ServerOptions& x) { return x.serialize().toString(); },
              [](const Serialization& s) { auto e = popo::ServerOptions::deserialize(s); return e.has_error() ? optional<popo::ServerOptions>() : optional<popo::ServerOptions>(e.value()); });
        break;
    }
    default:
    {
        // plain lists of values
        uint64_t a = num(UINT64_MAX), a2 = 0;
        int32_t b = int32_t(r.next()), b2 = 0;
        bool c = r.chance(500), c2 = false;
        uint8_t d = uint8_t(r.next()), d2 = 0;
        auto e = rs<30>(r);
        iox::string<30> e2;
        auto s = Serialization::create(a, e, b, c, uint16_t(d));
        uint16_t dd2 = 0;
        VH_CHECK(s.extract(a2, e2, b2, c2, dd2) && a2 == a && e2 == e && b2 == b && c2 == c && dd2 == d, "round-trip", "values differ after '%s'", s.toString().c_str());
        (void)d2;
        iox::string<30> n1;
        int32_t n2 = 0;
        VH_CHECK(s.getNth(1U, n1) && n1 == e && s.getNth(2U, n2) && n2 == b && !s.getNth(5U, n2), "nth", "entries of '%s' are not found", s.toString().c_str());
        VH_CHECK(!s.extract(a2, e2, b2, c2), "misread", "fewer values than entries are extracted");
        wrapLength(r);
        version::VersionInfo vi = version::VersionInfo::getCurrentVersion();
        version::VersionInfo v2{static_cast<Serialization>(vi)};
        VH_CHECK(vi == v2 && v2.isValid(), "round-trip", "version info changed");
        auto vt = mutate(r, static_cast<Serialization>(vi).toString());
        std::vector<std::string> want;
        bool amb = false;
        bool good = meaning(vt, {{'n', UINT16_MAX}, {'n', UINT16_MAX}, {'n', UINT16_MAX}, {'n', UINT16_MAX}, {'s', 100}, {'s', 100}}, want, amb);
        if (!amb)
        {
            version::VersionInfo v3{Serialization(vt)};
            VH_CHECK(v3.isValid() == good, "misread", "version info '%s' is %svalid", vt.c_str(), v3.isValid() ? "" : "in");
        }
        count("round_trips");
    }
    }
}

// ---- a real daemon and hostile messages ----
struct Daemon
{
    ve::Env env;
    std::string path;
    std::unique_ptr<popo::UntypedPublisher> pub;
    std::unique_ptr<popo::UntypedSubscriber> sub;
    uint64_t seq{0};
    static IceoryxConfig cfg() { return roudi_env::MinimalIceoryxConfigBuilder().payloadChunkCount(60).payloadChunkSize(256).discoveryChunkCount(20).introspectionChunkCount(20).create(); }
    Daemon()
        : env(cfg())
    {
        // the socket of the daemon
        path = std::string(platform::IOX_UDS_SOCKET_PATH_PREFIX) + runtime::ipcChannelNameToInterfaceName(roudi::IPC_CHANNEL_ROUDI_NAME, DomainId{ve::domainNo()}, ResourceType::ICEORYX_DEFINED).c_str();
        env.app("witness");
        popo::PublisherOptions po;
        pub = std::make_unique<popo::UntypedPublisher>(ve::svc("w", "i", "t"), po);
        sub = std::make_unique<popo::UntypedSubscriber>(ve::svc("w", "i", "t"));
        env.discover();
        env.discover();
        witness("at the beginning");
    }
    void witness(const std::string& what)
    {
        auto l = pub->loan(8);
        VH_CHECK(!l.has_error(), "witness", "loan fails after %s", what.c_str());
        memcpy(l.value(), &++seq, 8);
        pub->publish(l.value());
        auto t = sub->take();
        VH_CHECK(!t.has_error(), "witness", "nothing received after %s", what.c_str());
        uint64_t got;
        memcpy(&got, t.value(), 8);
        sub->release(t.value());
        VH_CHECK(got == seq, "witness", "wrong sample after %s", what.c_str());
    }
    bool raw(const std::string& m)
    {
        int fd = socket(AF_UNIX, SOCK_DGRAM, 0);
        sockaddr_un a{};
        a.sun_family = AF_UNIX;
        snprintf(a.sun_path, sizeof a.sun_path, "%s", path.c_str());
        auto n = sendto(fd, m.data(), m.size(), 0, reinterpret_cast<sockaddr*>(&a), sizeof a);
        close(fd);
        VH_CHECK(n >= 0 || (errno != ECONNREFUSED && errno != ENOENT), "daemon-gone", "the socket of the daemon is gone");
        return n >= 0;
    }
};
void hostile(Daemon& d, Rng& r, std::string& hist)
{
    using M = runtime::IpcMessageType;
    size_t n = 1 + r.below(10);
    for (size_t i = 0; i < n; ++i)
    {
        std::string name = r.chance(700) ? fmt("ghost%lu", (unsigned long)r.below(5)) : r.chance(300) ? std::string() : randText(r, r.below(120));
        runtime::IpcMessage m;
        auto t = M(1 + r.below(uint64_t(M::END) - 1));
        if (r.chance(300)) t = M::REG;
        if (t == M::TERMINATION && name == "witness") continue;
        m << runtime::IpcMessageTypeToString(t) << name;
        auto sd = static_cast<Serialization>(ve::svc("g", "h", fmt("%lu", (unsigned long)r.below(4)))).toString();
        switch (t)
        {
        case M::REG:
            m << (r.chance(900) ? std::to_string(getpid()) : std::to_string(r.next() % 100000)) << (r.chance(700) ? std::to_string(getuid()) : std::to_string(uint32_t(r.next()))) << fmt("%ld", long(r.next()))
              << static_cast<Serialization>(version::VersionInfo::getCurrentVersion()).toString();
            break;
        case M::CREATE_PUBLISHER: m << sd << popo::PublisherOptions().serialize().toString() << static_cast<Serialization>(runtime::PortConfigInfo()).toString(); break;
        case M::CREATE_SUBSCRIBER: m << sd << popo::SubscriberOptions().serialize().toString() << static_cast<Serialization>(runtime::PortConfigInfo()).toString(); break;
        case M::CREATE_CLIENT: m << sd << popo::ClientOptions().serialize().toString() << static_cast<Serialization>(runtime::PortConfigInfo()).toString(); break;
        case M::CREATE_SERVER: m << sd << popo::ServerOptions().serialize().toString() << static_cast<Serialization>(runtime::PortConfigInfo()).toString(); break;
        case M::CREATE_INTERFACE: m << fmt("%lu", (unsigned long)r.below(12)) << "x"; break;
        default: break;
        }
        std::string s = m.getMessage();
        bool harmlessName = s.find("witness") == std::string::npos;
        if (r.chance(750)) s = mutate(r, s);
        if (r.chance(30)) s = randText(r, r.below(5000));
        if (r.chance(30)) s.clear();
        if (!harmlessName) continue;
        std::string z = s;
        if (r.chance(900)) z.push_back('\0'); // otherwise without terminator
        hist += "'" + s.substr(0, 200) + "' ";
        if (d.raw(z)) count("hostile_messages");
    }
    // the daemon still serves others
    if (r.chance(300))
    {
        std::string nm = fmt("fresh%lu", (unsigned long)r.below(3));
        {
            d.env.app(nm);
            popo::UntypedPublisher p(ve::svc("f", "r", "e"));
            d.env.app("witness");
        }
        d.env.kill(nm);
        d.env.app("witness");
        d.env.discover();
        count("fresh_registrations");
    }
    // clean up: unregister the ghosts
    if (r.chance(200))
        for (int i = 0; i < 5; ++i)
        {
            runtime::IpcMessage m;
            m << runtime::IpcMessageTypeToString(M::TERMINATION) << fmt("ghost%d", i);
            std::string z = m.getMessage();
            z.push_back('\0');
            d.raw(z);
        }
    d.env.discover();
    d.witness(hist);
    count("witnessed");
}
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "histories of channel operations, control messages and serialisations; distinct = different histories");
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    auto& mode = ctx().mode;
    if (mode == "daemon")
    {
        Daemon d;
        return runCases([&](uint64_t seed, uint64_t) {
            Rng r(seed);
            std::string hist;
            ctx().trace = &hist;
            hostile(d, r, hist);
            distinct(std::hash<std::string>()(hist));
            ctx().trace = nullptr;
        });
    }
    bool mq = true;
    {
        auto p = MessageQueueBuilder().name("vh_probe").channelSide(PosixIpcChannelSide::SERVER).maxMsgSize(8).maxMsgNumber(1).create();
        if (p.has_error()) { mq = false; count("no_message_queues_here"); }
    }
    return runCases([&](uint64_t seed, uint64_t) {
        Rng r(seed);
        unsigned d = unsigned(r.below(100));
        if (mode == "channels")
        {
            if (d < 25 && mq) Chan<MessageQueue>(r).run();
            else if (d < 50) Chan<UnixDomainSocket>(r).run();
            else if (d < 75) Chan<NamedPipe>(r).run();
            else if (d < 78 && mq) names<MessageQueue>(r);
            else if (d < 81) names<UnixDomainSocket>(r);
            else if (d < 84) names<NamedPipe>(r);
            else if (d < 88 && mq) concurrentRun<MessageQueue>(r, false);
            else if (d < 92) concurrentRun<UnixDomainSocket>(r, false);
            else if (d < 93) concurrentRun<NamedPipe>(r, false);
            else concurrentRun<NamedPipe>(r, true);
        }
        else if (d < 40)
        {
            messages(r);
            distinct(seed);
        }
        else
        {
            serialisations(r);
            distinct(seed);
        }
    });
}
