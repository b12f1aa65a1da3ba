// C16: chunk layout. Chunk settings, chunk headers placed on guarded memory of exactly the required size, the memory
// manager's choice of pools and the loans of real endpoints are compared with what the request demands.
#include "world.hpp"
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include <sanitizer/asan_interface.h>

using namespace vh;
using namespace vw;
using mepoo::ChunkHeader;
using mepoo::ChunkSettings;
namespace
{
Rng* R;
std::string g_trace;
#define CK(c, key, ...) VH_CHECK(c, key, "%s\n  history: %s", fmt(__VA_ARGS__).c_str(), g_trace.c_str())
void note(const std::string& s)
{
    if (g_trace.size() > 6000) g_trace.erase(0, 3000);
    g_trace += s;
    g_trace += ' ';
}
using u128 = unsigned __int128;
constexpr uint64_t HDR = sizeof(ChunkHeader);

struct Req
{
    uint64_t size{0};
    uint32_t align{8}, uhSize{0}, uhAlign{1};
    std::string str() const { return fmt("(%llu,a%u,uh%u,a%u)", (unsigned long long)size, align, uhSize, uhAlign); }
    uint64_t effAlign() const { return align == 0 ? 1 : align; }
    uint64_t effUhAlign() const { return uhAlign == 0 ? 1 : uhAlign; }
    bool pow2() const { return (effAlign() & (effAlign() - 1)) == 0 && (effUhAlign() & (effUhAlign() - 1)) == 0; }
    bool uhTooAligned() const { return effUhAlign() > alignof(ChunkHeader); }
    bool uhNotMultiple() const { return uhSize % effUhAlign() != 0; }
    bool valid() const { return pow2() && !uhTooAligned() && !uhNotMultiple(); }
    u128 least() const { return u128(HDR) + uhSize + size; }                          // cannot be less
    u128 most() const { return least() + (uhSize ? 16 : 0) + (uhSize || effAlign() > 8 ? effAlign() : 0); } // need not be more
};
uint64_t someSize(Rng& r, bool extreme)
{
    switch (r.below(extreme ? 10 : 7))
    {
    case 0: return 0;
    case 1: return r.below(9);
    case 2: case 3: return r.below(80);
    case 4: return r.below(600);
    case 5: return (uint64_t(1) << r.below(12)) + r.below(3) - 1;
    case 6: return r.below(64) * 8;
    case 7: return UINT64_MAX - r.below(300);
    case 8: return UINT64_MAX - (uint64_t(1) << r.below(34)) + r.below(200) - 100;
    default: return r.next() >> r.below(64);
    }
}
uint32_t someAlign(Rng& r, bool extreme)
{
    switch (r.below(extreme ? 8 : 5))
    {
    case 0: return 1;
    case 1: case 2: return 1u << r.below(6);
    case 3: return 1u << r.below(11);
    case 4: return r.chance(100) ? 0 : 8;
    case 5: return 1u << r.below(32);
    case 6: return uint32_t(r.below(70));
    default: return uint32_t(r.next() >> (32 + r.below(32)));
    }
}
Req someReq(Rng& r, bool extreme)
{
    Req q;
    q.size = someSize(r, extreme);
    q.align = someAlign(r, extreme);
    if (r.chance(600))
    {
        q.uhAlign = extreme ? someAlign(r, true) : (1u << r.below(4));
        uint64_t a = q.effUhAlign();
        q.uhSize = uint32_t(r.chance(900) ? r.range(1, 40) * a : r.below(100));
        if (extreme && r.chance(300)) q.uhSize = uint32_t(r.chance(500) ? 0u - uint32_t(r.below(200)) : r.next() >> r.below(32));
        if (extreme && r.chance(400)) q.uhSize = uint32_t(q.uhSize / a * a);
    }
    else if (extreme && r.chance(300)) q.uhAlign = someAlign(r, true);
    return q;
}
// what create() says, compared with what the request demands; returns true if granted
bool settings(const Req& q, optional<ChunkSettings>& out)
{
    auto res = ChunkSettings::create(q.size, q.align, q.uhSize, q.uhAlign);
    bool bad = !q.valid();
    // sizes around the largest representable number may be refused a little early
    constexpr u128 LIMIT = ~uint64_t(0);
    bool tooBig = q.least() > LIMIT;
    bool unclear = !tooBig && (q.most() + 64 > LIMIT || u128(HDR) + q.uhSize + (q.effAlign() > 8 ? q.effAlign() : 8) + 16 > u128(UINT32_MAX));
    count(bad ? "invalid_requests" : tooBig ? "oversized_requests" : unclear ? "borderline_requests" : "valid_requests");
    if (res.has_error())
    {
        auto e = res.error();
        CK(bad || tooBig || unclear, "refused-valid", "the valid request %s was refused (%d)", q.str().c_str(), int(e));
        bool fits = (e == ChunkSettings::Error::ALIGNMENT_NOT_POWER_OF_TWO && !q.pow2())
                    || (e == ChunkSettings::Error::USER_HEADER_ALIGNMENT_EXCEEDS_CHUNK_HEADER_ALIGNMENT && q.uhTooAligned())
                    || (e == ChunkSettings::Error::USER_HEADER_SIZE_NOT_MULTIPLE_OF_ITS_ALIGNMENT && q.uhNotMultiple())
                    || (e == ChunkSettings::Error::REQUIRED_CHUNK_SIZE_EXCEEDS_MAX_CHUNK_SIZE && (tooBig || unclear));
        CK(fits, "wrong-error", "%s is refused with the wrong error %d", q.str().c_str(), int(e));
        return false;
    }
    CK(!bad && !tooBig, "granted-invalid", "the invalid request %s was accepted", q.str().c_str());
    auto& s = res.value();
    CK(s.userPayloadSize() == q.size && s.userPayloadAlignment() == q.effAlign() && s.userHeaderSize() == q.uhSize && s.userHeaderAlignment() == q.effUhAlign(), "settings",
       "settings of %s report size %llu align %u header %u align %u", q.str().c_str(), (unsigned long long)s.userPayloadSize(), s.userPayloadAlignment(), s.userHeaderSize(), s.userHeaderAlignment());
    CK(s.requiredChunkSize() >= q.least() || (unclear && s.requiredChunkSize() >= q.size), "required-too-small", "%s requires only %llu bytes", q.str().c_str(), (unsigned long long)s.requiredChunkSize());
    CK(s.requiredChunkSize() <= q.most(), "required-too-large", "%s requires %llu bytes, %llu are enough for every placement", q.str().c_str(), (unsigned long long)s.requiredChunkSize(), (unsigned long long)q.most());
    out.emplace(s);
    return true;
}
uint64_t addr(const void* p) { return reinterpret_cast<uint64_t>(p); }

// the layout of a chunk: start address, its size, and what was asked for
void judge(ChunkHeader* h, uint64_t chunkSize, const Req& q)
{
    count("layouts");
    uint64_t b = addr(h), end = b + chunkSize;
    const ChunkHeader* ch = h;
    uint64_t p = addr(h->userPayload());
    CK(h->userPayload() == ch->userPayload() && h->userHeader() == ch->userHeader(), "accessors", "const and non-const accessors differ");
    CK(p % q.effAlign() == 0, "payload-alignment", "payload of %s lies at offset %llu of a chunk at %%%llu, not aligned", q.str().c_str(), (unsigned long long)(p - b), (unsigned long long)(b % 4096));
    CK(p >= b + HDR && p <= end && q.size <= end - p, "payload-outside", "payload of %s lies at [%llu, +%llu) of a chunk of %llu bytes", q.str().c_str(), (unsigned long long)(p - b), (unsigned long long)q.size, (unsigned long long)chunkSize);
    if (q.uhSize == 0)
        CK(h->userHeader() == nullptr, "user-header", "a chunk without user header has one");
    else
    {
        uint64_t u = addr(h->userHeader());
        CK(u != 0, "user-header", "user header of %s is missing", q.str().c_str());
        CK(u % q.effUhAlign() == 0, "user-header-alignment", "user header of %s at offset %llu is not aligned", q.str().c_str(), (unsigned long long)(u - b));
        CK(u >= b + HDR && u + q.uhSize <= p, "user-header-overlap", "user header of %s lies at [%llu, +%u), the payload at %llu", q.str().c_str(), (unsigned long long)(u - b), q.uhSize, (unsigned long long)(p - b));
        CK(ChunkHeader::fromUserHeader(h->userHeader()) == h && ChunkHeader::fromUserHeader(ch->userHeader()) == h, "round-trip", "the user header of %s does not lead back to its chunk", q.str().c_str());
    }
    CK(h->userPayloadSize() == q.size && h->userHeaderSize() == q.uhSize && h->userPayloadAlignment() == q.effAlign() && h->chunkSize() == chunkSize, "header-fields",
       "chunk of %s reports payload %llu aligned %u header %u chunk %llu (is %llu)", q.str().c_str(), (unsigned long long)h->userPayloadSize(), h->userPayloadAlignment(), h->userHeaderSize(), (unsigned long long)h->chunkSize(), (unsigned long long)chunkSize);
    CK(h->usedSizeOfChunk() >= p - b + q.size && h->usedSizeOfChunk() <= chunkSize, "used-size", "chunk of %s reports used size %llu of %llu, the payload ends at %llu", q.str().c_str(), (unsigned long long)h->usedSizeOfChunk(), (unsigned long long)chunkSize, (unsigned long long)(p - b + q.size));
    CK(ChunkHeader::fromUserPayload(h->userPayload()) == h && ChunkHeader::fromUserPayload(ch->userPayload()) == h, "round-trip", "the payload pointer of %s does not lead back to its chunk", q.str().c_str());
}
void writeAll(ChunkHeader* h, const Req& q, uint64_t id, bool headerFirst)
{
    if (headerFirst && q.uhSize) fill(h->userHeader(), q.uhSize, id * 2 + 1);
    if (q.size) fill(h->userPayload(), q.size, id * 2);
    if (!headerFirst && q.uhSize) fill(h->userHeader(), q.uhSize, id * 2 + 1);
}
void checkAll(ChunkHeader* h, uint64_t chunkSize, const Req& q, uint64_t id, const char* when)
{
    judge(h, chunkSize, q);
    count("content_checks");
    if (q.size) CK(mismatch(h->userPayload(), q.size, id * 2) < 0, "overlap", "%s: payload byte %lld of %s changed", when, (long long)mismatch(h->userPayload(), q.size, id * 2), q.str().c_str());
    if (q.uhSize) CK(mismatch(h->userHeader(), q.uhSize, id * 2 + 1) < 0, "overlap", "%s: user header byte %lld of %s changed", when, (long long)mismatch(h->userHeader(), q.uhSize, id * 2 + 1), q.str().c_str());
}

// address space without memory behind it (until touched) for the really large chunks
uint8_t* hugeArea(uint64_t& size)
{
    static uint64_t n = uint64_t(14) << 30;
    static uint8_t* a = static_cast<uint8_t*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (a == MAP_FAILED)
    {
        count("no_huge_area");
        size = 0;
        return nullptr;
    }
    size = n;
    return a;
}
void runHeader()
{
    Rng& r = *R;
    for (unsigned k = 0; k < 40; ++k)
    {
        bool extreme = r.chance(400);
        Req q = someReq(r, extreme);
        note(q.str());
        optional<ChunkSettings> s;
        if (!settings(q, s)) continue;
        uint64_t need = s->requiredChunkSize();
        if (need <= (1u << 17))
        {
            uint64_t cs = need + (r.chance(600) ? 0 : r.below(200));
            uint64_t off = r.below(r.chance(500) ? 16 : 600) * 8;
            // guarded on both sides: the chunk ends where the allocation ends, and what precedes is poisoned
            auto* raw = static_cast<uint8_t*>(malloc(off + cs));
            uint8_t garbage = uint8_t(r.next());
            memset(raw, garbage, off + cs);
            if (off) __asan_poison_memory_region(raw, off);
            auto* h = new (raw + off) ChunkHeader(cs, s.value());
            judge(h, cs, q);
            writeAll(h, q, k + 1, r.chance(500));
            checkAll(h, cs, q, k + 1, "after writing");
            h->~ChunkHeader();
            if (off) __asan_unpoison_memory_region(raw, off);
            free(raw);
            count("placements");
        }
        else
        {
            uint64_t n;
            auto* a = hugeArea(n);
            if (a && need < n - 8192 && r.chance(600))
            {
                uint64_t off = r.below(1000) * 8;
                note(fmt("huge@%llu", (unsigned long long)off));
                auto* h = new (a + off) ChunkHeader(need, s.value());
                judge(h, need, q);
                // only the borders are written: the last byte of the user header, the first and last of the payload
                auto* p = static_cast<uint8_t*>(h->userPayload());
                auto* u = static_cast<uint8_t*>(h->userHeader());
                if (q.uhSize) { u[0] = 0xa1; u[q.uhSize - 1] = 0xa1; }
                if (q.size) { p[0] = 0x5b; p[q.size - 1] = 0x5b; }
                judge(h, need, q);
                CK(!q.size || (p[0] == 0x5b && p[q.size - 1] == 0x5b), "overlap", "payload changed");
                h->~ChunkHeader();
                madvise(a, n, MADV_DONTNEED);
                count("huge_placements");
            }
        }
    }
}
std::vector<std::pair<uint64_t, uint32_t>> somePools(Rng& r)
{
    std::vector<std::pair<uint64_t, uint32_t>> v;
    unsigned n = unsigned(r.range(1, 6));
    for (unsigned i = 0; i < n; ++i) v.push_back({r.range(1, r.chance(700) ? 60 : 400) * 8, uint32_t(r.range(1, 5))});
    return v;
}
// the pool an allocation of this required size has to come from
struct PoolModel
{
    Pools& p;
    std::vector<uint32_t> used;
    explicit PoolModel(Pools& pools) : p(pools), used(pools.n(), 0) {}
    void check()
    {
        for (uint32_t i = 0; i < p.n(); ++i)
            CK(p.info(i).m_usedChunks == used[i], "accounting", "pool %u reports %u used chunks, %u are", i, p.info(i).m_usedChunks, used[i]);
    }
};
void runManager()
{
    Rng& r = *R;
    auto cfg = somePools(r);
    Pools pools(cfg);
    for (uint32_t i = 1; i < pools.n(); ++i) CK(pools.info(i).m_chunkSize > pools.info(i - 1).m_chunkSize, "pool-order", "pools are not sorted by size");
    std::map<uint64_t, uint32_t> want;
    for (auto& c : cfg) want[c.first] += c.second;
    CK(pools.n() == want.size(), "pool-config", "%zu different sizes configured, %u pools exist", want.size(), pools.n());
    uint32_t i = 0;
    for (auto& w : want)
    {
        CK(pools.info(i).m_chunkSize == w.first + HDR && pools.info(i).m_numChunks == w.second, "pool-config", "pool %u has %u chunks of %llu bytes, configured are %u with payload %llu", i, pools.info(i).m_numChunks, (unsigned long long)pools.info(i).m_chunkSize, w.second, (unsigned long long)w.first);
        note(fmt("pool[%u]=%llux%u", i, (unsigned long long)w.first, w.second));
        ++i;
    }
    PoolModel m(pools);
    struct Held { mepoo::SharedChunk c; Req q; uint32_t pool; uint64_t id; };
    std::vector<Held> held;
    uint64_t id = 1;
    for (unsigned k = 0; k < 60; ++k)
    {
        if (r.chance(600) || held.empty())
        {
            Req q = someReq(r, r.chance(100));
            if (r.chance(300)) // exactly what a pool was configured for
            {
                q = Req();
                q.size = pools.info(uint32_t(r.below(pools.n()))).m_chunkSize - HDR + r.below(3) - 1;
                q.align = 1u << r.below(4);
            }
            note(q.str());
            optional<ChunkSettings> s;
            if (!settings(q, s)) continue;
            uint32_t fit = pools.smallestFitting(s->requiredChunkSize());
            auto res = pools.mm->getChunk(s.value());
            count("requests");
            if (fit == pools.n())
            {
                CK(res.has_error(), "granted-oversized", "%s was granted though no pool is large enough", q.str().c_str());
                CK(res.error() == mepoo::MemoryManager::Error::NO_MEMPOOL_FOR_REQUESTED_CHUNK_SIZE, "wrong-error", "a request exceeding every pool is refused with %d", int(res.error()));
                count("refused_oversized");
            }
            else if (m.used[fit] == pools.info(fit).m_numChunks)
            {
                CK(res.has_error(), "granted-exhausted", "%s was granted though its pool %u is empty", q.str().c_str(), fit);
                CK(res.error() == mepoo::MemoryManager::Error::MEMPOOL_OUT_OF_CHUNKS, "wrong-error", "a request to an exhausted pool is refused with %d", int(res.error()));
                count("refused_exhausted");
            }
            else
            {
                CK(!res.has_error(), "refused", "%s was refused though pool %u has free chunks", q.str().c_str(), fit);
                Held h{res.value(), q, fit, id++};
                auto* ch = h.c.getChunkHeader();
                CK(pools.poolOf(ch) == fit, "wrong-pool", "%s came from pool %u instead of %u", q.str().c_str(), pools.poolOf(ch), fit);
                CK(h.c.getUserPayload() == ch->userPayload(), "accessors", "payload accessors differ");
                judge(ch, pools.info(fit).m_chunkSize, q);
                writeAll(ch, q, h.id, r.chance(500));
                ++m.used[fit];
                held.push_back(std::move(h));
                count("granted");
            }
        }
        else
        {
            uint64_t n = r.below(held.size());
            note("free");
            checkAll(held[n].c.getChunkHeader(), pools.info(held[n].pool).m_chunkSize, held[n].q, held[n].id, "before release");
            --m.used[held[n].pool];
            held.erase(held.begin() + long(n));
        }
        if (r.chance(200))
            for (auto& h : held) checkAll(h.c.getChunkHeader(), pools.info(h.pool).m_chunkSize, h.q, h.id, "while held");
        m.check();
    }
    for (auto& h : held) checkAll(h.c.getChunkHeader(), pools.info(h.pool).m_chunkSize, h.q, h.id, "at the end");
}
// loans of real endpoints, including the re-use of the last chunk
void useEndpoints(World& w, Pools& pools)
{
    Rng& r = *R;
    for (uint32_t i = 0; i < pools.n(); ++i) note(fmt("pool[%u]=%llux%u", i, (unsigned long long)pools.info(i).m_chunkSize - HDR, pools.info(i).m_numChunks));
    roudi::PortManager::PortConfigInfo ci;
    popo::PublisherOptions po;
    po.historyCapacity = r.below(3);
    popo::SubscriberOptions so;
    so.queueCapacity = r.range(1, 4);
    UPub pub(w.pm->acquirePublisherPortData(svc("l", "i", "e"), po, appName(1), pools.mm.get(), ci).value());
    USub sub(w.pm->acquireSubscriberPortData(svc("l", "i", "e"), so, appName(2), ci).value());
    UClient cli(w.pm->acquireClientPortData(svc("l", "i", "r"), {}, appName(1), pools.mm.get(), ci).value());
    UServer srv(w.pm->acquireServerPortData(svc("l", "i", "r"), {}, appName(2), pools.mm.get(), ci).value());
    w.discover();
    struct Loan { void* p; Req q; uint64_t id; uint64_t cs; };
    std::vector<Loan> loans;
    struct Sent { Req q; uint64_t id; };
    std::map<uint64_t, Sent> sent;
    uint64_t id = 1;
    auto granted = [&](void* p, const Req& q) {
        auto* h = ChunkHeader::fromUserPayload(p);
        uint32_t pool = pools.poolOf(h);
        uint64_t cs = pools.info(pool).m_chunkSize;
        CK((addr(h) - addr(pools.mem)) % 8 == 0, "round-trip", "the chunk header found is not aligned");
        judge(h, cs, q);
        return cs;
    };
    auto refused = [&](popo::AllocationError e, const Req& q, bool rpc) {
        auto s = ChunkSettings::create(q.size, q.align, q.uhSize, q.uhAlign);
        if (s.has_error())
        {
            CK(e == popo::AllocationError::INVALID_PARAMETER_FOR_USER_PAYLOAD_OR_USER_HEADER, "wrong-error", "an invalid request %s is refused with %d", q.str().c_str(), int(e));
            return;
        }
        uint32_t fit = pools.smallestFitting(s.value().requiredChunkSize());
        count("endpoint_refusals");
        if (!rpc && loans.size() >= MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY && e == popo::AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL) return; // with several reasons each is right
        if (fit == pools.n())
            CK(e == popo::AllocationError::NO_MEMPOOLS_AVAILABLE, "wrong-error", "a request exceeding every pool is refused with %d", int(e));
        else if (pools.info(fit).m_usedChunks == pools.info(fit).m_numChunks)
            CK(e == popo::AllocationError::RUNNING_OUT_OF_CHUNKS, "wrong-error", "a request to an exhausted pool is refused with %d", int(e));
        else
            CK(false, "refused", "%s is refused with %d though pool %u has free chunks", q.str().c_str(), int(e), fit);
    };
    for (unsigned k = 0; k < 40; ++k)
    {
        switch (r.below(6))
        {
        case 0: case 1: // loan
        {
            Req q = someReq(r, r.chance(150));
            note("loan" + q.str());
            optional<ChunkSettings> s;
            bool ok = settings(q, s);
            auto res = pub.loan(q.size, q.align, q.uhSize, q.uhAlign);
            count("loans");
            if (res.has_error()) { refused(res.error(), q, false); break; }
            CK(ok, "granted-invalid", "the invalid request %s was granted", q.str().c_str());
            uint64_t cs = granted(res.value(), q);
            loans.push_back({res.value(), q, id++, cs});
            writeAll(ChunkHeader::fromUserPayload(res.value()), q, loans.back().id, r.chance(500));
            break;
        }
        case 2: // publish or release a loan
            if (!loans.empty())
            {
                uint64_t n = r.below(loans.size());
                Loan l = loans[n];
                checkAll(ChunkHeader::fromUserPayload(l.p), l.cs, l.q, l.id, "before publishing");
                loans.erase(loans.begin() + long(n));
                if (r.chance(700))
                {
                    note("publish");
                    pub.publish(l.p);
                    auto* h = ChunkHeader::fromUserPayload(l.p);
                    sent[h->sequenceNumber()] = {l.q, l.id};
                }
                else
                {
                    note("release");
                    pub.release(l.p);
                }
            }
            break;
        case 3: // take
        {
            auto t = sub.take();
            if (t.has_error()) break;
            auto* h = const_cast<ChunkHeader*>(ChunkHeader::fromUserPayload(t.value()));
            uint64_t cs = pools.info(pools.poolOf(h)).m_chunkSize;
            auto it = sent.find(h->sequenceNumber());
            CK(it != sent.end(), "header-fields", "the received sample has the unknown sequence number %llu", (unsigned long long)h->sequenceNumber());
            CK(h->originId() == pub.getUid(), "header-fields", "the origin of the received sample is wrong");
            checkAll(h, cs, it->second.q, it->second.id, "at the subscriber");
            note("take");
            count("takes");
            sub.release(t.value());
            break;
        }
        default: // request with response
        {
            Req q;
            q.size = someSize(r, r.chance(100));
            q.align = someAlign(r, r.chance(100));
            q.uhSize = sizeof(popo::RequestHeader);
            q.uhAlign = alignof(popo::RequestHeader);
            note("request" + q.str());
            auto res = cli.loan(q.size, q.align);
            if (res.has_error()) { refused(res.error(), q, true); break; }
            granted(res.value(), q);
            uint64_t qid = id++;
            if (q.size) fill(res.value(), q.size, qid);
            auto* qh = popo::RequestHeader::fromPayload(res.value());
            CK(addr(qh) == addr(ChunkHeader::fromUserPayload(res.value())->userHeader()), "user-header", "the request header is not the user header of its chunk");
            qh->setSequenceId(int64_t(qid));
            CK(!cli.send(res.value()).has_error(), "request", "sending failed");
            auto t = srv.take();
            CK(!t.has_error(), "request", "the request did not arrive");
            granted(const_cast<void*>(t.value()), q);
            auto* gh = popo::RequestHeader::fromPayload(t.value());
            CK(gh->getSequenceId() == int64_t(qid), "overlap", "sequence id of the request changed");
            if (q.size) CK(mismatch(t.value(), q.size, qid) < 0, "overlap", "request payload changed");
            Req a;
            a.size = someSize(r, r.chance(100));
            a.align = someAlign(r, r.chance(100));
            a.uhSize = sizeof(popo::ResponseHeader);
            a.uhAlign = alignof(popo::ResponseHeader);
            note("response" + a.str());
            auto ar = srv.loan(gh, a.size, a.align);
            if (ar.has_error()) refused(ar.error(), a, true);
            else
            {
                granted(ar.value(), a);
                if (a.size) fill(ar.value(), a.size, qid + 1000);
                auto* ah = popo::ResponseHeader::fromPayload(ar.value());
                CK(addr(ah) == addr(ChunkHeader::fromUserPayload(ar.value())->userHeader()), "user-header", "the response header is not the user header of its chunk");
                ah->setServerError();
                CK(!srv.send(ar.value()).has_error(), "response", "sending failed");
                auto ct = cli.take();
                CK(!ct.has_error(), "response", "the response did not arrive");
                granted(const_cast<void*>(ct.value()), a);
                auto* rh = popo::ResponseHeader::fromPayload(ct.value());
                CK(rh->getSequenceId() == int64_t(qid) && rh->hasServerError(), "overlap", "the response header changed");
                if (a.size) CK(mismatch(ct.value(), a.size, qid + 1000) < 0, "overlap", "response payload changed");
                cli.releaseResponse(ct.value());
                count("responses");
            }
            srv.releaseRequest(t.value());
            count("requests");
        }
        }
        for (auto& l : loans) checkAll(ChunkHeader::fromUserPayload(l.p), l.cs, l.q, l.id, "while loaned");
    }
    for (auto& l : loans) pub.release(l.p);
}
void runEndpoints()
{
    auto& w = World::get();
    Pools pools(somePools(*R));
    useEndpoints(w, pools);
    w.discover();
    w.checkNoPorts("after the run");
    for (uint32_t i = 0; i < pools.n(); ++i) CK(pools.info(i).m_usedChunks == 0, "accounting", "pool %u reports used chunks after everything is gone", i);
}
} // namespace
int main(int argc, char** argv)
{
    init(argc, argv, "random payload and user header sizes and alignments (extremes of the types included) for chunk settings, chunk headers on guarded memory of exactly the required size, the memory manager, and the loans of publishers, clients and servers; distinct = different request sequences");
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    ctx().trace = &g_trace;
    return runCases([&](uint64_t seed, uint64_t) {
        Rng r(seed);
        R = &r;
        g_trace.clear();
        switch (r.below(4))
        {
        case 0: runManager(); count("runs_manager"); break;
        case 1:
            runEndpoints();
            count("runs_endpoints");
            break;
        default: runHeader(); count("runs_header"); break;
        }
        uint64_t h = 1469598103934665603ull;
        for (char ch : g_trace) h = (h ^ uint64_t(uint8_t(ch))) * 1099511628211ull;
        distinct(h);
        sample(g_trace);
    });
}
