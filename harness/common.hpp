// Shared frame of all harnesses: arguments, random numbers, statistics, violations.
#pragma once
#include <cstdarg>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh
{
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1)
        : s(seed * 0xD1342543DE82EF95ull + 0x1234567ull)
    {
    }
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(uint32_t perMille) { return below(1000) < perMille; }
    template <typename C>
    auto& pick(C& c) { return c[below(c.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t h = (a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2)));
    h ^= h >> 33;
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}

struct Ctx
{
    const std::string* trace{nullptr}; // printed when the code under test aborts
    uint64_t seed{1};
    uint64_t shard{0};
    uint64_t nshards{1};
    uint64_t cases{100};
    int64_t only{-1}; // replay a single case
    std::string mode;
    std::string out;
    std::string scratch;
    double budget{600};
    bool thorough{false};
    struct timespec t0{};
    uint64_t caseNo{0};
    uint64_t* cur{nullptr};
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::vector<std::string> known; // non-fatal findings: key\tmessage
    std::map<std::string, std::string> findings;
    std::string rule;
    uint64_t evaluations{0};
};
inline Ctx& ctx()
{
    static Ctx c;
    return c;
}
inline double elapsed()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec - ctx().t0.tv_sec) + double(t.tv_nsec - ctx().t0.tv_nsec) * 1e-9;
}
inline std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c == '\n')
            r += "\\n";
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
inline void dump(const char* key, const std::string& msg)
{
    Ctx& c = ctx();
    std::string s = "{";
    s += fmt("\"seed\":%llu,\"shard\":%llu,\"case\":%llu,\"evaluations\":%llu,\"distinct\":%llu,", (unsigned long long)c.seed,
             (unsigned long long)c.shard, (unsigned long long)c.caseNo, (unsigned long long)c.evaluations,
             (unsigned long long)c.distinct.size());
    s += "\"rule\":\"" + jesc(c.rule) + "\",\"counters\":{";
    bool first = true;
    for (auto& k : c.counters)
    {
        if (!first) s += ",";
        first = false;
        s += "\"" + jesc(k.first) + "\":" + fmt("%llu", (unsigned long long)k.second);
    }
    s += "},\"samples\":[";
    first = true;
    for (auto& k : c.samples)
    {
        if (!first) s += ",";
        first = false;
        s += "\"" + jesc(k) + "\"";
    }
    s += "],\"findings\":{";
    first = true;
    for (auto& k : c.findings)
    {
        if (!first) s += ",";
        first = false;
        s += "\"" + jesc(k.first) + "\":\"" + jesc(k.second) + "\"";
    }
    s += "}";
    if (key)
        s += ",\"violation\":\"" + jesc(key) + "\",\"message\":\"" + jesc(msg) + "\"";
    else
        s += ",\"complete\":true";
    s += "}\n";
    if (c.out.empty())
    {
        fputs(s.c_str(), stdout);
        fflush(stdout);
        return;
    }
    int fd = open(c.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0)
    {
        size_t o = 0;
        while (o < s.size())
        {
            ssize_t w = write(fd, s.data() + o, s.size() - o);
            if (w <= 0) break;
            o += size_t(w);
        }
        close(fd);
    }
}
// A violation: written out with everything needed for the replay, then the process ends.
[[noreturn]] inline void fail(const char* key, const std::string& msg)
{
    static volatile int once = 0;
    if (__sync_lock_test_and_set(&once, 1) == 0)
    {
        dump(key, msg);
        fprintf(stderr, "VIOLATED %s: %s (seed %llu shard %llu case %llu)\n", key, msg.c_str(),
                (unsigned long long)ctx().seed, (unsigned long long)ctx().shard, (unsigned long long)ctx().caseNo);
    }
    _exit(1);
}
// Records a violation and goes on (used where one defect must not mask others)
inline void finding(const std::string& key, const std::string& msg)
{
    if (ctx().findings.size() < 50) ctx().findings.emplace(key, msg);
}
#define VH_CHECK(cond, key, ...)                                                                                       \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond))                                                                                                   \
            vh::fail(key, vh::fmt(__VA_ARGS__));                                                                       \
    } while (0)

inline void count(const char* k, uint64_t n = 1) { ctx().counters[k] += n; }
inline void maxOf(const char* k, uint64_t n)
{
    auto& v = ctx().counters[k];
    if (v < n) v = n;
}
inline void sample(const std::string& s)
{
    if (ctx().samples.size() < 3) ctx().samples.push_back(s.substr(0, 600));
}
inline void distinct(uint64_t h)
{
    if (ctx().distinct.size() < 4000000) ctx().distinct.insert(h);
}

inline void onAbort(int)
{
    if (ctx().trace)
    {
        const std::string& t = *ctx().trace;
        std::string o = "TRACE:" + t.substr(t.size() > 1500 ? t.size() - 1500 : 0) + "\n";
        (void)!write(2, o.data(), o.size());
    }
    signal(SIGABRT, SIG_DFL);
    raise(SIGABRT);
}

inline void init(int argc, char** argv, const char* rule)
{
    signal(SIGABRT, onAbort);
    Ctx& c = ctx();
    clock_gettime(CLOCK_MONOTONIC, &c.t0);
    c.rule = rule;
    std::string cur;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") c.seed = strtoull(v.c_str(), nullptr, 0);
        else if (k == "--shard") c.shard = strtoull(v.c_str(), nullptr, 0);
        else if (k == "--nshards") c.nshards = strtoull(v.c_str(), nullptr, 0);
        else if (k == "--cases") c.cases = strtoull(v.c_str(), nullptr, 0);
        else if (k == "--only") c.only = strtoll(v.c_str(), nullptr, 0);
        else if (k == "--mode") c.mode = v;
        else if (k == "--out") c.out = v;
        else if (k == "--cur") cur = v;
        else if (k == "--scratch") c.scratch = v;
        else if (k == "--budget") c.budget = atof(v.c_str());
        else if (k == "--tier") c.thorough = v == "thorough";
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); exit(2); }
    }
    if (!cur.empty())
    {
        int fd = open(cur.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 8) == 0)
        {
            void* p = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) c.cur = static_cast<uint64_t*>(p);
            close(fd);
        }
    }
}
// Runs body(caseSeed, caseNo) for all cases of this shard within the time budget.
template <typename F>
inline int runCases(F&& body)
{
    Ctx& c = ctx();
    for (uint64_t i = 0; i < c.cases; ++i)
    {
        if (c.only >= 0 && i != uint64_t(c.only)) continue;
        if (elapsed() > c.budget) { c.counters["stopped_by_time_budget"] = 1; break; }
        c.caseNo = i;
        if (c.cur) *c.cur = i;
        ++c.evaluations;
        body(mix(mix(c.seed, c.shard * 7919 + 13), i * 2654435761ull + 1), i);
    }
    dump(nullptr, "");
    return 0;
}
} // namespace vh
#include <sys/resource.h>
#include <sys/wait.h>
namespace vh
{
enum class Fate { RETURNED, TERMINATED, OTHER };
// Runs f in a forked child: does it return, terminate orderly (abort), or do something else (sanitizer report, crash)?
template <typename F>
inline Fate fate(F&& f)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        signal(SIGABRT, SIG_DFL);
        struct rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        alarm(20);
        f();
        _exit(0);
    }
    int st = 0;
    if (p < 0 || waitpid(p, &st, 0) != p) return Fate::OTHER;
    count("forked_probes");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return Fate::RETURNED;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return Fate::TERMINATED;
    return Fate::OTHER;
}
#define VH_TERMINATES(expr, key, ...)                                                                                  \
    do                                                                                                                 \
    {                                                                                                                  \
        auto fate_ = vh::fate([&] { (void)(expr); });                                                                  \
        if (fate_ != vh::Fate::TERMINATED)                                                                             \
            vh::fail(key, std::string(fate_ == vh::Fate::RETURNED ? "accepted: " : "memory error or crash: ") + vh::fmt(__VA_ARGS__)); \
        vh::count("terminations");                                                                                     \
    } while (0)
} // namespace vh
