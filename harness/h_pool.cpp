// C15: lock-free free list, memory pools and memory manager: exclusive hand-out, exact accounting.
#include "common.hpp"
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iox/bump_allocator.hpp"
#include "iox/detail/mpmc_loffli.hpp"
#include "iox/logging.hpp"
#include "sched.hpp"
#include <algorithm>
#include <deque>
#include <functional>
#include <memory>

using namespace vh;
using namespace iox;

struct Hold { uint64_t id; uint64_t ps, pe, fs, fe; }; // obtained in [ps,pe], given back in [fs,fe]
struct FailEv { uint64_t s, e; };

static void judgeHolds(std::vector<Hold>& hs, const std::vector<FailEv>& fails, uint64_t cap, const char* who, const std::string& log)
{
    // exclusive: definite ownership intervals of one id must not overlap
    for (size_t i = 0; i < hs.size(); ++i)
        for (size_t j = i + 1; j < hs.size(); ++j)
            if (hs[i].id == hs[j].id)
            {
                auto &a = hs[i], &b = hs[j];
                uint64_t s = std::max(a.pe, b.pe), e = std::min(a.fs, b.fs);
                VH_CHECK(!(s < e), "double-handout", "%s: %llx owned twice at the same time; %s", who, (unsigned long long)a.id, log.c_str());
            }
    for (auto& f : fails)
    {
        std::set<uint64_t> possible;
        uint64_t n = 0;
        for (auto& h : hs)
            if (h.ps < f.e && h.fe > f.s) ++n;
        VH_CHECK(n >= cap, "false-exhaustion", "%s: allocation failed although at most %llu of %llu were handed out; %s", who, (unsigned long long)n, (unsigned long long)cap, log.c_str());
    }
}

static void loffliCase(uint64_t seed)
{
    Rng r(seed);
    uint32_t cap = uint32_t(r.range(1, 5));
    std::vector<uint32_t> mem(concurrent::MpmcLoFFLi::requiredIndexMemorySize(cap) / sizeof(uint32_t) + 1, 0xABABABAB);
    uint64_t bytes = concurrent::MpmcLoFFLi::requiredIndexMemorySize(cap);
    std::unique_ptr<uint8_t[]> raw(new uint8_t[bytes]); // exact size: ASan guards the rest
    concurrent::MpmcLoFFLi l;
    l.init(not_null<concurrent::MpmcLoFFLi::Index_t*>(reinterpret_cast<uint32_t*>(raw.get())), cap);
    unsigned nt = unsigned(r.range(2, 4)), nops = unsigned(r.range(3, 12));
    std::vector<Hold> done;
    std::vector<FailEv> fails;
    std::vector<std::vector<Hold>> held(nt);
    std::string log;
    std::vector<std::function<void()>> bodies;
    uint32_t bias = uint32_t(r.range(400, 700));
    for (unsigned t = 0; t < nt; ++t)
    {
        uint64_t ts = r.next();
        bodies.push_back([&, t, ts] {
            Rng tr(ts);
            for (unsigned i = 0; i < nops; ++i)
            {
                if (held[t].empty() || tr.chance(bias))
                {
                    uint32_t idx = 0;
                    uint64_t s = vs::now();
                    bool ok = l.pop(idx);
                    uint64_t e = vs::now();
                    if (log.size() < 2500) log += fmt(" %u:pop[%llu,%llu]=%d", t, (unsigned long long)s, (unsigned long long)e, ok ? int(idx) : -1);
                    if (ok)
                    {
                        VH_CHECK(idx < cap, "range", "free list of %u handed out index %u", cap, idx);
                        held[t].push_back({idx, s, e, ~0ull, ~0ull});
                        count("pops");
                    }
                    else { fails.push_back({s, e}); count("empty"); }
                }
                else
                {
                    size_t k = tr.below(held[t].size());
                    Hold h = held[t][k];
                    held[t].erase(held[t].begin() + long(k));
                    h.fs = vs::now();
                    bool ok = l.push(uint32_t(h.id));
                    h.fe = vs::now();
                    if (log.size() < 2500) log += fmt(" %u:push(%llu)[%llu,%llu]=%d", t, (unsigned long long)h.id, (unsigned long long)h.fs, (unsigned long long)h.fe, ok);
                    VH_CHECK(ok, "push-refused", "giving back an owned index was refused; %s", log.c_str());
                    done.push_back(h);
                    count("pushes");
                }
            }
        });
    }
    vs::Options o;
    o.seed = r.next();
    auto res = vs::run(bodies, o);
    count("schedule_points", res.steps);
    if (res.switches > nt) distinct(mix(res.hash, std::hash<std::string>()(log)));
    std::vector<Hold> all = done;
    std::set<uint64_t> out;
    for (auto& v : held)
        for (auto& h : v)
        {
            all.push_back(h);
            VH_CHECK(out.insert(h.id).second, "double-handout", "index %llu is owned twice at the end; %s", (unsigned long long)h.id, log.c_str());
        }
    judgeHolds(all, fails, cap, "free list", log);
    // sequential epilogue: what is not handed out cannot be given back; the rest can be obtained exactly once
    for (uint32_t i = 0; i < cap + 3; ++i)
        if (!out.count(i)) VH_CHECK(!l.push(i), "double-free-accepted", "index %u which is not handed out was accepted; %s", i, log.c_str());
    VH_CHECK(!l.push(~0u), "double-free-accepted", "invalid index accepted");
    uint32_t idx = 0;
    while (l.pop(idx))
        VH_CHECK(idx < cap && out.insert(idx).second, "double-handout", "index %u handed out although owned or invalid; %s", idx, log.c_str());
    VH_CHECK(out.size() == cap, "lost-index", "only %zu of %u indices can be obtained; %s", out.size(), cap, log.c_str());
    for (auto i : out) VH_CHECK(l.push(uint32_t(i)), "push-refused", "final give back refused");
    count("histories");
    sample(fmt("free list capacity %u:", cap) + log);
}

// ---------------------------------------------------------------------------------------------------------------
static void managerCase(uint64_t seed, bool conc)
{
    Rng r(seed);
    mepoo::MePooConfig cfg;
    unsigned np = unsigned(r.range(1, 4));
    uint64_t size = 0;
    std::vector<uint64_t> psize;
    std::vector<uint32_t> pcount;
    for (unsigned i = 0; i < np; ++i)
    {
        size += 8 * r.range(1, 12);
        uint32_t n = uint32_t(r.range(1, 4));
        psize.push_back(size);
        pcount.push_back(n);
        cfg.addMemPool({size, n});
    }
    uint64_t mgmtSize = mepoo::MemoryManager::requiredManagementMemorySize(cfg);
    uint64_t chunkSize = mepoo::MemoryManager::requiredChunkMemorySize(cfg);
    VH_CHECK(mepoo::MemoryManager::requiredFullMemorySize(cfg) == mgmtSize + chunkSize, "required-size", "full size is not the sum");
    uint64_t align = 8ull << r.below(3);
    uint8_t* mgmt = static_cast<uint8_t*>(aligned_alloc(64, (mgmtSize + 63) / 64 * 64));
    uint8_t* mem = static_cast<uint8_t*>(aligned_alloc(64, (chunkSize + 64 + 63) / 64 * 64));
    uint8_t* base = mem + (align == 8 ? 8 : 0); // pools need 8 byte alignment only
    {
        BumpAllocator ma(mgmt, mgmtSize), ca(base, chunkSize);
        mepoo::MemoryManager mm;
        mm.configureMemoryManager(cfg, ma, ca);
        VH_CHECK(mm.getNumberOfMemPools() == np, "pools", "%u pools configured, %u exist", np, mm.getNumberOfMemPools());
        for (unsigned i = 0; i < np; ++i)
        {
            auto inf = mm.getMemPoolInfo(i);
            VH_CHECK(inf.m_numChunks == pcount[i] && inf.m_usedChunks == 0 && inf.m_minFreeChunks == pcount[i] && inf.m_chunkSize == psize[i] + sizeof(mepoo::ChunkHeader),
                     "pool-info", "pool %u: %u chunks of %llu, used %u, min free %u", i, inf.m_numChunks, (unsigned long long)inf.m_chunkSize, inf.m_usedChunks, inf.m_minFreeChunks);
        }
        struct Item { mepoo::SharedChunk c; uint64_t pattern; unsigned pool; uint64_t ps, pe; uint64_t len; };
        unsigned nt = conc ? unsigned(r.range(2, 3)) : 1, nops = conc ? unsigned(r.range(3, 9)) : 60;
        std::vector<std::vector<Item>> held(nt);
        std::vector<std::vector<Hold>> holds(np); // per pool, by address
        std::vector<std::vector<FailEv>> fails(np);
        std::deque<Item> exchange;
        std::string log;
        auto fill = [](Item& it) {
            auto* p = static_cast<uint8_t*>(it.c.getUserPayload());
            for (uint64_t i = 0; i < it.len; ++i) p[i] = uint8_t(it.pattern + i * 7);
        };
        auto verify = [&](Item& it) {
            auto* p = static_cast<uint8_t*>(it.c.getUserPayload());
            for (uint64_t i = 0; i < it.len; ++i)
                VH_CHECK(p[i] == uint8_t(it.pattern + i * 7), "overwritten", "payload byte %llu of a held chunk changed; %s", (unsigned long long)i, log.c_str());
            auto* h = it.c.getChunkHeader();
            VH_CHECK(h->userPayloadSize() == it.len && h->userPayload() == it.c.getUserPayload(), "header-overwritten", "chunk header of a held chunk changed; %s", log.c_str());
        };
        auto body = [&](unsigned t, uint64_t ts) {
            Rng tr(ts);
            for (unsigned i = 0; i < nops; ++i)
            {
                uint64_t k = tr.below(10);
                if (k < 5 || held[t].empty())
                {
                    uint64_t want = tr.range(1, psize.back() + (tr.chance(100) ? 9 : 0));
                    auto cs = mepoo::ChunkSettings::create(want, 8);
                    VH_CHECK(cs.has_value(), "settings", "valid chunk settings refused");
                    unsigned pool = np;
                    for (unsigned p = 0; p < np; ++p)
                        if (psize[p] >= want) { pool = p; break; }
                    uint64_t s = vs::now();
                    auto res = mm.getChunk(cs.value());
                    uint64_t e = vs::now();
                    if (log.size() < 2500) log += fmt(" %u:get(%llu)[%llu,%llu]=%d", t, (unsigned long long)want, (unsigned long long)s, (unsigned long long)e, !res.has_error());
                    if (res.has_error())
                    {
                        auto er = res.error();
                        if (pool == np) VH_CHECK(er == mepoo::MemoryManager::Error::NO_MEMPOOL_FOR_REQUESTED_CHUNK_SIZE, "error", "too large request gives the wrong error");
                        else
                        {
                            VH_CHECK(er == mepoo::MemoryManager::Error::MEMPOOL_OUT_OF_CHUNKS, "error", "exhausted pool gives the wrong error %d", int(er));
                            fails[pool].push_back({s, e});
                            count("exhausted");
                        }
                        continue;
                    }
                    VH_CHECK(pool < np, "too-large-granted", "a request of %llu was granted although no pool fits", (unsigned long long)want);
                    Item it{std::move(res.value()), tr.next(), pool, s, e, want};
                    auto* h = it.c.getChunkHeader();
                    uint64_t a = reinterpret_cast<uint64_t>(h);
                    VH_CHECK(h->chunkSize() == psize[pool] + sizeof(mepoo::ChunkHeader), "wrong-pool", "request of %llu served from chunks of %llu instead of %llu; %s", (unsigned long long)want,
                             (unsigned long long)h->chunkSize(), (unsigned long long)(psize[pool] + sizeof(mepoo::ChunkHeader)), log.c_str());
                    VH_CHECK(a >= uint64_t(base) && a + h->chunkSize() <= uint64_t(base) + chunkSize, "outside", "chunk outside the pool memory");
                    VH_CHECK(a % 8 == 0, "alignment", "chunk not aligned");
                    fill(it);
                    held[t].push_back(std::move(it));
                    count("allocations");
                }
                else if (k < 8)
                {
                    size_t at = tr.below(held[t].size());
                    Item it = std::move(held[t][at]);
                    held[t].erase(held[t].begin() + long(at));
                    verify(it);
                    uint64_t a = reinterpret_cast<uint64_t>(it.c.getChunkHeader());
                    Hold hd{a, it.ps, it.pe, vs::now(), 0};
                    it.c = mepoo::SharedChunk();
                    hd.fe = vs::now();
                    if (log.size() < 2500) log += fmt(" %u:free[%llu,%llu]", t, (unsigned long long)hd.fs, (unsigned long long)hd.fe);
                    holds[it.pool].push_back(hd);
                    count("frees");
                }
                else if (k == 8)
                { // copies share the chunk
                    size_t at = tr.below(held[t].size());
                    mepoo::SharedChunk c2(held[t][at].c), c3;
                    c3 = c2;
                    VH_CHECK(c3 == c2 && c2.getUserPayload() == held[t][at].c.getUserPayload(), "copy", "copied handle denotes another chunk");
                    c2 = mepoo::SharedChunk();
                    verify(held[t][at]);
                    mepoo::SharedChunk c4(std::move(c3));
                    c3 = std::move(c4);
                    verify(held[t][at]);
                }
                else
                { // hand over to whoever takes it
                    if (tr.chance(500) || exchange.empty())
                    {
                        exchange.push_back(std::move(held[t].back()));
                        held[t].pop_back();
                    }
                    else
                    {
                        held[t].push_back(std::move(exchange.front()));
                        exchange.pop_front();
                        verify(held[t].back());
                        count("handovers");
                    }
                }
            }
        };
        if (conc)
        {
            std::vector<std::function<void()>> bodies;
            for (unsigned t = 0; t < nt; ++t)
            {
                uint64_t ts = r.next();
                bodies.push_back([&, t, ts] { body(t, ts); });
            }
            vs::Options o;
            o.seed = r.next();
            auto res = vs::run(bodies, o);
            count("schedule_points", res.steps);
            if (res.switches > nt) distinct(mix(res.hash, std::hash<std::string>()(log)));
        }
        else
            body(0, r.next());
        // quiescent accounting
        std::vector<uint32_t> used(np, 0);
        std::vector<std::vector<Hold>> all = holds;
        for (auto& e : exchange) held[0].push_back(std::move(e));
        exchange.clear();
        for (auto& v : held)
            for (auto& it : v)
            {
                verify(it);
                ++used[it.pool];
                all[it.pool].push_back({uint64_t(it.c.getChunkHeader()), it.ps, it.pe, ~0ull, ~0ull});
            }
        for (unsigned p = 0; p < np; ++p)
        {
            auto inf = mm.getMemPoolInfo(p);
            VH_CHECK(inf.m_usedChunks == used[p], "used-count", "pool %u reports %u used chunks, %u are held; %s", p, inf.m_usedChunks, used[p], log.c_str());
            judgeHolds(all[p], fails[p], pcount[p], "memory pool", log);
            // minimum ever free: bounded by what was certainly and what was possibly in use at the same time
            uint64_t certain = 0, possible = 0;
            for (auto& x : all[p])
            {
                uint64_t c1 = 0, c2 = 0;
                for (auto& y : all[p])
                {
                    if (y.pe <= x.pe && y.fs > x.pe) ++c1;   // in use at the moment x was obtained
                    if (y.ps <= x.pe && y.fe > x.ps) ++c2;
                }
                certain = std::max(certain, c1);
                possible = std::max(possible, c2);
            }
            possible = std::min<uint64_t>(possible, pcount[p]);
            if (inf.m_minFreeChunks > pcount[p] - certain)
                finding("minfree-too-high", fmt("pool %u reports min free %u of %u although %llu chunks were certainly in use at once; %s", p, inf.m_minFreeChunks, pcount[p], (unsigned long long)certain, log.c_str()));
            VH_CHECK(inf.m_minFreeChunks >= pcount[p] - possible, "minfree-too-low", "pool %u reports min free %u of %u although at most %llu chunks were in use at once; %s", p, inf.m_minFreeChunks, pcount[p], (unsigned long long)possible, log.c_str());
        }
        // memory ranges of held chunks do not overlap
        std::vector<std::pair<uint64_t, uint64_t>> rg;
        for (auto& v : held)
            for (auto& it : v) rg.push_back({uint64_t(it.c.getChunkHeader()), uint64_t(it.c.getChunkHeader()) + it.c.getChunkHeader()->chunkSize()});
        std::sort(rg.begin(), rg.end());
        for (size_t i = 1; i < rg.size(); ++i) VH_CHECK(rg[i - 1].second <= rg[i].first, "overlap", "two held chunks overlap");
        held.clear();
        // everything can be obtained again
        for (unsigned p = 0; p < np; ++p)
        {
            VH_CHECK(mm.getMemPoolInfo(p).m_usedChunks == 0, "leak", "pool %u has %u used chunks after all were released; %s", p, mm.getMemPoolInfo(p).m_usedChunks, log.c_str());
            std::vector<mepoo::SharedChunk> v;
            auto cs = mepoo::ChunkSettings::create(psize[p], 8);
            for (uint32_t i = 0; i < pcount[p]; ++i)
            {
                auto c = mm.getChunk(cs.value());
                VH_CHECK(!c.has_error(), "lost-chunk", "pool %u delivers only %u of %u chunks; %s", p, i, pcount[p], log.c_str());
                v.push_back(std::move(c.value()));
            }
            VH_CHECK(mm.getChunk(cs.value()).has_error(), "extra-chunk", "pool %u delivers more chunks than configured", p);
            VH_CHECK(mm.getMemPoolInfo(p).m_minFreeChunks == 0, "minfree-not-zero", "pool %u was exhausted but min free is %u", p, mm.getMemPoolInfo(p).m_minFreeChunks);
        }
        count("histories");
        sample(fmt("memory manager with %u pools:", np) + log);
    }
    free(mgmt);
    free(mem);
}

int main(int argc, char** argv)
{
    init(argc, argv, "case = free list (capacity 1..5) or memory manager (1..4 pools of 1..4 chunks) used by 2-4 threads with random allocate/free/copy/hand-over under one controlled schedule, or a long sequential history; "
                     "non-trivial = more context switches than threads, distinct by decisions and history");
    log::Logger::init(log::LogLevel::Off);
    vs::setStuckHandler([](const std::string& w) { fail("stuck", w); });
    return runCases([](uint64_t s, uint64_t i) {
        if (i % 8 == 0) managerCase(s, false);
        else if (i % 2) loffliCase(s);
        else managerCase(s, true);
    });
}
