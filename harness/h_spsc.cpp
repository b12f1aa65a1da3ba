// C14: single producer / single consumer queues under the controlled scheduler; exact linearizability by a two-sequence merge.
#include "common.hpp"
#include "iox/detail/spsc_fifo.hpp"
#include "iox/detail/spsc_sofi.hpp"
#include "sched.hpp"
#include <functional>
#include <memory>

using namespace vh;

// trivially copyable element with redundancy, so that torn or stale copies are seen
struct El
{
    uint64_t v;
    uint64_t a[5];
    static El make(uint64_t x)
    {
        El e;
        e.v = x;
        for (int i = 0; i < 5; ++i) e.a[i] = x * 0x9E3779B97F4A7C15ull + uint64_t(i);
        return e;
    }
    void check(const char* who) const
    {
        for (int i = 0; i < 5; ++i)
            VH_CHECK(a[i] == v * 0x9E3779B97F4A7C15ull + uint64_t(i), "torn", "%s returned a torn element (%llx)", who, (unsigned long long)v);
    }
};

enum Kind { ENQ, ENQ_FAIL, EVICT, POP, EMPTY };
struct Op { Kind k; uint64_t v; uint64_t s, e; };

static std::string show(const std::vector<Op>& a)
{
    static const char* n[] = {"push", "push-refused", "evict", "pop", "pop-empty"};
    std::string r;
    for (auto& o : a) r += fmt(" %s(%llu)[%llu,%llu]", n[o.k], (unsigned long long)o.v, (unsigned long long)o.s, (unsigned long long)o.e);
    return r;
}

// is there a merge of both sequences, respecting real time, that a bounded FIFO can execute?
static bool linearizable(const std::vector<Op>& P, const std::vector<Op>& C, const std::vector<uint64_t>& init, uint64_t cap, uint64_t slack)
{
    size_t n = P.size(), m = C.size();
    std::vector<uint64_t> all = init;
    std::vector<size_t> enqs(n + 1, init.size()), rem(n + 1, 0), pops(m + 1, 0);
    for (size_t i = 0; i < n; ++i)
    {
        enqs[i + 1] = enqs[i] + (P[i].k == ENQ);
        rem[i + 1] = rem[i] + (P[i].k == EVICT);
        if (P[i].k == ENQ) all.push_back(P[i].v);
    }
    for (size_t j = 0; j < m; ++j) pops[j + 1] = pops[j] + (C[j].k == POP);
    std::vector<std::vector<char>> ok(n + 1, std::vector<char>(m + 1, 0));
    ok[0][0] = 1;
    for (size_t i = 0; i <= n; ++i)
        for (size_t j = 0; j <= m; ++j)
        {
            if (!ok[i][j]) continue;
            size_t front = rem[i] + pops[j];
            if (front > enqs[i]) continue;
            size_t size = enqs[i] - front;
            if (i < n && (j == m || !(C[j].e < P[i].s)))
            {
                const Op& o = P[i];
                bool can = false;
                if (o.k == ENQ) can = size < cap + slack;
                else if (o.k == ENQ_FAIL) can = size == cap;
                else can = size > cap && all[front] == o.v; // EVICT
                if (can) ok[i + 1][j] = 1;
            }
            if (j < m && (i == n || !(P[i].e < C[j].s)))
            {
                const Op& o = C[j];
                bool can = o.k == POP ? (size > 0 && all[front] == o.v) : size == 0;
                if (can) ok[i][j + 1] = 1;
            }
        }
    return ok[n][m];
}

struct IQ
{
    virtual ~IQ() = default;
    virtual int push(uint64_t v, uint64_t& ev) = 0; // 0 refused, 1 ok, 2 evicted
    virtual bool pop(uint64_t& v) = 0;
    virtual uint64_t size() = 0;
    virtual bool empty() = 0;
    virtual uint64_t capacity() = 0;
    virtual bool setCapacity(uint64_t) { return false; }
    virtual uint64_t slack() = 0;
};
template <uint64_t C>
struct FifoQ : IQ
{
    std::unique_ptr<iox::concurrent::SpscFifo<El, C>> q = std::make_unique<iox::concurrent::SpscFifo<El, C>>();
    int push(uint64_t v, uint64_t&) override { return q->push(El::make(v)) ? 1 : 0; }
    bool pop(uint64_t& v) override
    {
        auto r = q->pop();
        if (!r.has_value()) return false;
        r->check("fifo pop");
        v = r->v;
        return true;
    }
    uint64_t size() override { return q->size(); }
    bool empty() override { return q->empty(); }
    uint64_t capacity() override { return q->capacity(); }
    uint64_t slack() override { return 0; }
};
template <uint64_t C>
struct SofiQ : IQ
{
    std::unique_ptr<iox::concurrent::SpscSofi<El, C>> q = std::make_unique<iox::concurrent::SpscSofi<El, C>>();
    int push(uint64_t v, uint64_t& ev) override
    {
        El out = El::make(0);
        El in = El::make(v);
        if (q->push(in, out)) return 1;
        out.check("sofi push (evicted)");
        ev = out.v;
        return 2;
    }
    bool pop(uint64_t& v) override
    {
        El out;
        if (!q->pop(out)) return false;
        out.check("sofi pop");
        v = out.v;
        return true;
    }
    uint64_t size() override { return q->size(); }
    bool empty() override { return q->empty(); }
    uint64_t capacity() override { return q->capacity(); }
    bool setCapacity(uint64_t c) override { return q->setCapacity(c); }
    uint64_t slack() override { return 1; }
};
static std::unique_ptr<IQ> make(Rng& r, bool sofi)
{
    switch (r.below(5))
    {
    case 0: if (sofi) return std::make_unique<SofiQ<1>>(); return std::make_unique<FifoQ<1>>();
    case 1: if (sofi) return std::make_unique<SofiQ<2>>(); return std::make_unique<FifoQ<2>>();
    case 2: if (sofi) return std::make_unique<SofiQ<3>>(); return std::make_unique<FifoQ<3>>();
    case 3: if (sofi) return std::make_unique<SofiQ<5>>(); return std::make_unique<FifoQ<5>>();
    default: if (sofi) return std::make_unique<SofiQ<8>>(); return std::make_unique<FifoQ<8>>();
    }
}

static void oneCase(uint64_t seed, bool sofi)
{
    Rng r(seed);
    auto q = make(r, sofi);
    uint64_t cap = q->capacity();
    if (sofi && r.chance(400))
    {
        uint64_t c = r.range(1, cap);
        VH_CHECK(q->setCapacity(c), "setcap", "setCapacity(%llu) of an empty queue refused", (unsigned long long)c);
        cap = c;
        VH_CHECK(q->capacity() == cap, "capacity", "capacity wrong after setCapacity");
        VH_CHECK(!q->setCapacity(64), "setcap", "setCapacity beyond the maximum accepted");
    }
    // sequential prefix with exact model, moves the positions around the ring
    std::vector<uint64_t> model;
    uint64_t serial = 1;
    for (uint64_t i = r.below(4 * cap + 4); i > 0; --i)
    {
        if (r.chance(600))
        {
            uint64_t v = serial++, ev = 0;
            int p = q->push(v, ev);
            if (model.size() < cap) { VH_CHECK(p == 1, "seq-push", "push into a non-full queue gave %d", p); model.push_back(v); }
            else if (sofi)
            {
                VH_CHECK(p == 2 && ev == model.front(), "seq-evict", "push into a full queue gave %d/%llu instead of evicting %llu", p, (unsigned long long)ev, (unsigned long long)model.front());
                model.erase(model.begin());
                model.push_back(v);
            }
            else VH_CHECK(p == 0, "seq-push", "push into a full queue gave %d", p);
        }
        else
        {
            uint64_t v = 0;
            bool ok = q->pop(v);
            VH_CHECK(ok == !model.empty(), "seq-pop", "pop = %d with %zu elements", ok, model.size());
            if (ok) { VH_CHECK(v == model.front(), "seq-order", "pop gave %llu instead of %llu", (unsigned long long)v, (unsigned long long)model.front()); model.erase(model.begin()); }
        }
        VH_CHECK(q->size() == model.size() && q->empty() == model.empty(), "seq-size", "size %llu empty %d, expected %zu", (unsigned long long)q->size(), q->empty(), model.size());
        count("sequential_ops");
    }
    if (sofi && !model.empty()) VH_CHECK(!q->setCapacity(1), "setcap", "setCapacity of a non-empty queue accepted");
    std::vector<Op> P, C;
    unsigned np = unsigned(r.range(2, 9)), nc = unsigned(r.range(2, 9));
    uint64_t slack = q->slack();
    auto prod = [&] {
        for (unsigned i = 0; i < np; ++i)
        {
            uint64_t v = serial++, ev = 0, s = vs::now();
            int p = q->push(v, ev);
            uint64_t e = vs::now();
            if (p == 0) { P.push_back({ENQ_FAIL, v, s, e}); count("refused"); }
            else
            {
                P.push_back({ENQ, v, s, e});
                count("pushes");
                if (p == 2) { P.push_back({EVICT, ev, s, e}); count("evictions"); }
            }
            uint64_t n = q->size();
            VH_CHECK(n <= cap + slack, "size", "producer sees size %llu with capacity %llu", (unsigned long long)n, (unsigned long long)cap);
        }
    };
    auto cons = [&] {
        for (unsigned i = 0; i < nc; ++i)
        {
            uint64_t v = 0, s = vs::now();
            bool ok = q->pop(v);
            uint64_t e = vs::now();
            C.push_back({ok ? POP : EMPTY, v, s, e});
            count(ok ? "pops" : "empty_pops");
            uint64_t n = q->size();
            VH_CHECK(n <= cap + slack, "size", "consumer sees size %llu with capacity %llu", (unsigned long long)n, (unsigned long long)cap);
        }
    };
    std::vector<uint64_t> init = model;
    vs::Options o;
    o.seed = r.next();
    auto res = vs::run({prod, cons}, o);
    count("schedule_points", res.steps);
    count("context_switches", res.switches);
    uint64_t n = q->size();
    VH_CHECK(n <= cap, "size", "size %llu exceeds the capacity %llu at quiescence", (unsigned long long)n, (unsigned long long)cap);
    VH_CHECK(q->empty() == (n == 0), "empty", "empty() contradicts size()");
    for (uint64_t i = 0; i <= n; ++i)
    {
        uint64_t v = 0, s = vs::now();
        bool ok = q->pop(v);
        uint64_t e = vs::now();
        VH_CHECK(ok == (i < n), "size", "size() was %llu, but pop %llu gave %d", (unsigned long long)n, (unsigned long long)i, ok);
        C.push_back({ok ? POP : EMPTY, v, s, e});
    }
    // every element exactly once
    std::map<uint64_t, int> seen;
    for (auto v : init) seen[v] = 0;
    for (auto& x : P) if (x.k == ENQ) seen[x.v] = 0;
    for (auto* l : {&P, &C})
        for (auto& x : *l)
            if (x.k == EVICT || x.k == POP)
            {
                VH_CHECK(seen.count(x.v), "invented", "element %llu was never pushed:%s |%s", (unsigned long long)x.v, show(P).c_str(), show(C).c_str());
                VH_CHECK(++seen[x.v] == 1, "duplicate", "element %llu delivered twice:%s |%s", (unsigned long long)x.v, show(P).c_str(), show(C).c_str());
            }
    for (auto& x : seen) VH_CHECK(x.second == 1, "lost", "element %llu lost:%s |%s", (unsigned long long)x.first, show(P).c_str(), show(C).c_str());
    VH_CHECK(linearizable(P, C, init, cap, slack), "not-linearizable", "capacity %llu, initial %zu elements; producer:%s; consumer:%s", (unsigned long long)cap, init.size(), show(P).c_str(), show(C).c_str());
    count("histories");
    if (res.switches > 2) distinct(mix(res.hash, std::hash<std::string>()(show(P) + show(C))));
    sample(fmt("%s capacity %llu producer:", sofi ? "sofi" : "fifo", (unsigned long long)cap) + show(P) + " consumer:" + show(C));
}

int main(int argc, char** argv)
{
    init(argc, argv, "case = fifo or overflowing fifo of capacity 1..8 at a random ring position, producer with 2-9 pushes and consumer with 2-9 pops under one controlled schedule, "
                     "history checked for exact linearizability; non-trivial = more than 2 context switches, distinct by decisions and history");
    vs::setStuckHandler([](const std::string& w) { fail("stuck", w); });
    return runCases([](uint64_t s, uint64_t i) { oneCase(s, i % 2 == 0); });
}
