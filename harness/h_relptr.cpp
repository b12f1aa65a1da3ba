// C17: relative pointers, the segment registry and relocatable pointers against a model, with segments that are mapped at
// several addresses at once (as in several processes).
#include "common.hpp"
#include "iox/detail/pointer_repository.hpp"
#include "iox/detail/relative_pointer_data.hpp"
#include "iox/logging.hpp"
#include "iox/relative_pointer.hpp"
#include "iox/relocatable_ptr.hpp"
#include <map>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
using namespace vh;
#define CK VH_CHECK

namespace
{
Rng* R;
std::string g_trace;
void tr(const std::string& s) { g_trace += s; }

constexpr uint64_t PAGE = 4096;
constexpr int NSEG = 5, NVIEW = 3;
struct Segment
{
    uint64_t size{0};
    uint8_t* view[NVIEW]{};
};
Segment g_seg[NSEG];
void mapAll()
{
    uint64_t sizes[NSEG] = {PAGE, PAGE, 2 * PAGE, 3 * PAGE, 16 * PAGE};
    // a reserved area in which views are placed directly next to each other (borders), others lie anywhere
    uint64_t area = 64 * PAGE;
    auto* base = static_cast<uint8_t*>(mmap(nullptr, area, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    uint64_t used = 0;
    for (int s = 0; s < NSEG; ++s)
    {
        int fd = memfd_create("iox_verif", 0);
        if (fd < 0 || ftruncate(fd, long(sizes[s])) != 0) { perror("memfd"); exit(3); }
        g_seg[s].size = sizes[s];
        for (int v = 0; v < NVIEW; ++v)
        {
            void* where = nullptr;
            int flags = MAP_SHARED;
            if (v == 0) { where = base + used; used += sizes[s]; flags |= MAP_FIXED; }
            void* p = mmap(where, sizes[s], PROT_READ | PROT_WRITE, flags, fd, 0);
            if (p == MAP_FAILED) { perror("mmap"); exit(3); }
            g_seg[s].view[v] = static_cast<uint8_t*>(p);
        }
        close(fd);
    }
}

using Rep = iox::PointerRepository<uint64_t, void*>;
struct Reg { uint8_t* base; uint64_t size; int seg; };

// ------------------------------------------------------------------------------- the registry alone (own instance, small capacity)
template <uint64_t CAP>
void runRepository()
{
    using Small = iox::PointerRepository<uint64_t, void*, CAP>;
    Small rep;
    std::map<uint64_t, Reg> m;
    size_t n = R->range(5, 60);
    auto overlap = [&](uint8_t* b, uint64_t s) {
        for (auto& e : m) if (b < e.second.base + e.second.size && e.second.base < b + s) return true;
        return false;
    };
    for (size_t i = 0; i < n; ++i)
    {
        uint64_t op = R->below(10);
        int sg = int(R->below(NSEG));
        uint64_t off = R->below(g_seg[sg].size / 64) * 64;
        uint8_t* b = g_seg[sg].view[0] + off;
        uint64_t size = R->chance(300) ? g_seg[sg].size - off : R->range(1, g_seg[sg].size - off);
        if (op < 3)
        {
            if (overlap(b, size)) continue;
            auto r = rep.registerPtr(b, size);
            uint64_t want = 0;
            for (uint64_t id = 1; id < CAP && want == 0; ++id) if (!m.count(id)) want = id;
            CK(r.has_value() == (want != 0), "register", "registering a segment %s with %zu of %llu ids in use", r.has_value() ? "succeeded" : "failed", m.size(), (unsigned long long)(CAP - 1));
            if (r.has_value())
            {
                CK(r.value() >= 1 && r.value() < CAP && !m.count(r.value()), "register", "id %llu was given to two segments", (unsigned long long)r.value());
                m[r.value()] = Reg{b, size, sg};
            }
            tr(fmt("reg(%d+%llu,%llu) ", sg, (unsigned long long)off, (unsigned long long)size));
        }
        else if (op < 5)
        {
            uint64_t id = R->chance(100) ? CAP + R->below(3) : R->range(1, CAP - 1);
            if (overlap(b, size)) continue;
            bool r = rep.registerPtrWithId(id, b, size);
            bool want = id < CAP && !m.count(id);
            CK(r == want, "register", "registering with the %s id %llu returned %d", id >= CAP ? "impossible" : m.count(id) ? "used" : "free", (unsigned long long)id, r);
            if (r) m[id] = Reg{b, size, sg};
            tr(fmt("regid(%llu,%d+%llu,%llu) ", (unsigned long long)id, sg, (unsigned long long)off, (unsigned long long)size));
        }
        else if (op < 7)
        {
            uint64_t id = R->below(CAP + 2);
            bool r = rep.unregisterPtr(id);
            CK(r == (m.count(id) != 0), "unregister", "unregistering id %llu returned %d", (unsigned long long)id, r);
            m.erase(id);
            tr(fmt("unreg(%llu) ", (unsigned long long)id));
        }
        else if (op == 7 && R->chance(200)) { rep.unregisterAll(); m.clear(); tr("unregAll "); }
        count("registrations");
        for (uint64_t id = 0; id < CAP + 2; ++id)
        {
            void* want = m.count(id) ? m[id].base : nullptr;
            CK(rep.getBasePtr(id) == want, "base", "base address of id %llu is %p instead of %p", (unsigned long long)id, rep.getBasePtr(id), want);
        }
        // borders of everything plus random addresses
        auto look = [&](uint8_t* p) {
            uint64_t want = Small::RAW_POINTER_BEHAVIOUR_ID;
            for (auto& e : m) if (p >= e.second.base && p < e.second.base + e.second.size) want = e.first;
            uint64_t got = rep.searchId(p);
            CK(got == want, "search", "address %p resolves to segment %llu instead of %llu (%zu segments registered)", static_cast<void*>(p), (unsigned long long)got, (unsigned long long)want, m.size());
            count("lookups");
        };
        for (auto& e : m) { look(e.second.base - 1); look(e.second.base); look(e.second.base + e.second.size - 1); look(e.second.base + e.second.size); }
        for (int k = 0; k < 4; ++k) { auto& s = g_seg[R->below(NSEG)]; look(s.view[R->below(NVIEW)] + R->below(s.size)); }
        look(reinterpret_cast<uint8_t*>(&i));
        look(reinterpret_cast<uint8_t*>(4096 * R->range(1, 100)));
    }
}

// ------------------------------------------------------------------------------- relative pointers in shared memory
struct Obj { uint64_t magic; uint64_t seg; uint64_t off; uint64_t pad; };
// what a stored pointer designates
struct Target { enum K { NUL, IN, RAW } k{NUL}; uint64_t id{0}; int seg{0}; uint64_t off{0}; void* raw{nullptr}; };

void runRelative()
{
    using RP = iox::RelativePointer<Obj>;
    iox::UntypedRelativePointer::unregisterAll();
    std::map<uint64_t, Reg> m; // id -> mapped view
    uint64_t idOf[NSEG] = {};
    static Obj local[4];
    // objects with recognisable content in every segment
    for (int s = 0; s < NSEG; ++s)
        for (uint64_t o = 0; o + sizeof(Obj) <= g_seg[s].size / 2; o += sizeof(Obj)) *reinterpret_cast<Obj*>(g_seg[s].view[0] + o) = Obj{0x0b9ec7, uint64_t(s), o, 0};
    // slots for the pointers in the second half of the segments
    struct Slot { int seg; uint64_t off; Target t; };
    std::vector<Slot> slots;
    auto attach = [&](int s, int v) {
        // a segment keeps its id for its life, as in the system where the daemon assigns it
        uint8_t* b = g_seg[s].view[v];
        bool allAttached = true;
        for (int k = 0; k < NSEG; ++k) if (idOf[k] != 0 && !m.count(idOf[k])) allAttached = false;
        if (idOf[s] == 0 && !allAttached)
        {
            // keep the ids of segments that are not mapped at the moment
            uint64_t id = 1;
            for (int k = 0; k < NSEG; ++k) id = std::max(id, idOf[k] + 1);
            idOf[s] = id;
        }
        if (idOf[s] == 0)
        {
            auto r = iox::UntypedRelativePointer::registerPtr(b, g_seg[s].size);
            CK(r.has_value(), "register", "could not register segment");
            CK(!m.count(*r), "register", "id %llu given twice", (unsigned long long)*r);
            idOf[s] = *r;
        }
        else CK(iox::UntypedRelativePointer::registerPtrWithId(iox::segment_id_t{idOf[s]}, b, g_seg[s].size), "register", "could not register segment %d again with its id %llu", s, (unsigned long long)idOf[s]);
        m[idOf[s]] = Reg{b, g_seg[s].size, s};
        tr(fmt("att(%d@%d) ", s, v));
    };
    auto detach = [&](int s) {
        CK(iox::UntypedRelativePointer::unregisterPtr(iox::segment_id_t{idOf[s]}), "unregister", "could not unregister segment %d", s);
        m.erase(idOf[s]);
        tr(fmt("det(%d) ", s));
    };
    auto attached = [&](int s) { return idOf[s] != 0 && m.count(idOf[s]) != 0; };
    for (int s = 0; s < NSEG; ++s) if (R->chance(800)) attach(s, int(R->below(NVIEW)));
    for (int s = 0; s < NSEG; ++s)
        for (int k = 0; k < 3; ++k) slots.push_back(Slot{s, g_seg[s].size / 2 + uint64_t(k) * 64, Target{}});
    auto at = [&](Slot& s) { return reinterpret_cast<RP*>(g_seg[s.seg].view[R->below(NVIEW)] + s.off); };
    for (auto& s : slots) new (at(s)) RP();
    auto address = [&](const Target& t) -> Obj* {
        if (t.k == Target::NUL) return nullptr;
        if (t.k == Target::RAW) return static_cast<Obj*>(t.raw);
        return reinterpret_cast<Obj*>(m[t.id].base + t.off);
    };
    auto judgeable = [&](const Target& t) { return t.k != Target::IN || m.count(t.id); };
    auto draw = [&]() {
        Target t;
        uint64_t c = R->below(10);
        if (c == 0) return t;
        if (c == 1) { t.k = Target::RAW; t.raw = &local[R->below(4)]; return t; }
        int s = int(R->below(NSEG));
        if (!attached(s)) return t;
        t.k = Target::IN;
        t.id = idOf[s];
        t.seg = s;
        uint64_t last = g_seg[s].size / 2 / sizeof(Obj) - 1;
        t.off = sizeof(Obj) * (R->chance(200) ? 0 : R->chance(200) ? last : R->below(last + 1));
        return t;
    };
    auto verify = [&](RP& p, const Target& t, const char* when) {
        if (!judgeable(t)) return;
        Obj* want = address(t);
        Obj* got = p.get();
        CK(got == want, "value", "%s: relative pointer gives %p instead of %p", when, static_cast<void*>(got), static_cast<void*>(want));
        CK(static_cast<bool>(p) == (want != nullptr) && (p == nullptr) == (want == nullptr) && (nullptr != p) == (want != nullptr) && p == static_cast<const Obj*>(want) && !(p != static_cast<const Obj*>(want)), "compare", "%s: comparison of a relative pointer is wrong", when);
        CK(p.computeRawPtr() == want, "value", "%s: computeRawPtr is wrong", when);
        if (want != nullptr)
        {
            CK(&*p == want && p.operator->() == want, "value", "%s: dereferencing gives another object", when);
            const Obj* other = want + 1;
            CK(!(p == other) && p != other && other != p, "compare", "%s: pointer equals a different address", when);
        }
        if (t.k == Target::IN)
        {
            CK(want->magic == 0x0b9ec7 && want->seg == uint64_t(t.seg) && want->off == t.off, "object", "%s: pointer designates object %llu/%llu instead of %d/%llu", when, (unsigned long long)want->seg, (unsigned long long)want->off, t.seg, (unsigned long long)t.off);
            CK(p.getId() == t.id && p.getOffset() == t.off && p.getBasePtr() == reinterpret_cast<Obj*>(m[t.id].base), "value", "%s: id %llu offset %llu instead of %llu %llu", when, (unsigned long long)p.getId(), (unsigned long long)p.getOffset(), (unsigned long long)t.id, (unsigned long long)t.off);
            CK(RP::getPtr(iox::segment_id_t{t.id}, t.off) == want && RP::getOffset(iox::segment_id_t{t.id}, want) == t.off && RP::searchId(want) == t.id, "value", "%s: static conversion is wrong", when);
        }
        count("dereferences");
    };
    size_t n = R->range(20, 120);
    for (size_t i = 0; i < n; ++i)
    {
        auto& a = slots[R->below(slots.size())];
        auto& b = slots[R->below(slots.size())];
        RP* pa = at(a);
        RP* pb = at(b);
        uint64_t op = R->below(13);
        tr(fmt("%llu ", (unsigned long long)op));
        switch (op)
        {
        case 0: case 1: { Target t = draw(); pa->~RP(); new (pa) RP(address(t)); a.t = t; break; }
        case 2: { Target t = draw(); *pa = address(t); a.t = t; break; }
        case 3:
        {
            Target t = draw();
            if (t.k != Target::IN) break;
            pa->~RP();
            new (pa) RP(address(t), iox::segment_id_t{t.id});
            a.t = t;
            break;
        }
        case 4:
        {
            Target t = draw();
            if (t.k != Target::IN) break;
            pa->~RP();
            new (pa) RP(t.off, iox::segment_id_t{t.id});
            a.t = t;
            break;
        }
        case 5: if (&a != &b) { pa->~RP(); new (pa) RP(*pb); a.t = b.t; } break;
        case 6: *pa = *pb; a.t = b.t; break;
        case 7: if (&a != &b) { pa->~RP(); new (pa) RP(std::move(*pb)); a.t = b.t; b.t = Target{}; } break;
        case 8: if (&a != &b) { *pa = std::move(*pb); a.t = b.t; b.t = Target{}; } break;
        case 9: { RP copy(*pa); verify(copy, a.t, "copy on the stack"); RP& self = *pa; *pa = self; break; }
        case 10: case 11:
        {
            int s = int(R->below(NSEG));
            if (attached(s)) { detach(s); if (R->chance(700)) attach(s, int(R->below(NVIEW))); }
            else attach(s, int(R->below(NVIEW)));
            count("mappings");
            break;
        }
        default: // a whole other process: everything mapped elsewhere, in another order
        {
            std::vector<int> known;
            for (int s = 0; s < NSEG; ++s) if (idOf[s] != 0) known.push_back(s);
            iox::UntypedRelativePointer::unregisterAll();
            m.clear();
            tr("all ");
            for (size_t k = known.size(); k > 1; --k) std::swap(known[k - 1], known[R->below(k)]);
            for (int s : known) if (R->chance(850)) attach(s, int(R->below(NVIEW)));
            count("mappings");
            break;
        }
        }
        for (auto& s : slots) verify(*at(s), s.t, fmt("operation %llu", (unsigned long long)op).c_str());
        // typed and untyped views of the same pointer
        Target t = draw();
        iox::UntypedRelativePointer u(static_cast<void*>(address(t)));
        CK(u.get() == address(t), "value", "untyped pointer gives %p instead of %p", u.get(), static_cast<void*>(address(t)));
        iox::UntypedRelativePointer moved(std::move(u));
        CK(moved.get() == address(t) && u.get() == nullptr, "value", "moving an untyped pointer");
        iox::RelativePointerData d;
        CK(d.isLogicalNullptr(), "data", "default data is not null");
        auto id = uint16_t(R->chance(300) ? 0xfffe - R->below(3) : R->below(0xffff));
        uint64_t off = R->chance(300) ? iox::RelativePointerData::MAX_VALID_OFFSET - R->below(3) : R->chance(500) ? R->next() & iox::RelativePointerData::OFFSET_RANGE : R->below(5);
        d = iox::RelativePointerData(id, off);
        bool valid = off != iox::RelativePointerData::NULL_POINTER_OFFSET;
        if (valid) CK(d.id() == id && d.offset() == off && !d.isLogicalNullptr(), "data", "packed pointer (%u, %llu) reads back as (%u, %llu)", id, (unsigned long long)off, d.id(), (unsigned long long)d.offset());
        d.reset();
        CK(d.isLogicalNullptr(), "data", "reset data is not null");
    }
    for (auto& s : slots) { at(s)->~RP(); }
    iox::UntypedRelativePointer::unregisterAll();
}

// ------------------------------------------------------------------------------- relocatable pointers
struct Host
{
    iox::relocatable_ptr<Host> self;
    iox::relocatable_ptr<uint64_t> p[4];
    uint64_t value[6];
    const char tail{'x'};
    iox::relocatable_ptr<const char> c;
    iox::relocatable_ptr<void> v;
};
// -1 null, otherwise index of the designated value
struct HostModel { bool self{false}; int p[4]{-1, -1, -1, -1}; int v{-1}; bool c{false}; uint64_t value[6]{}; };

void runRelocatable()
{
    constexpr int NH = 3;
    alignas(Host) static unsigned char raw[NH * 2][sizeof(Host) + 64];
    Host* h[NH];
    HostModel m[NH];
    int place[NH];
    for (int i = 0; i < NH; ++i)
    {
        place[i] = i * 2;
        memset(raw[place[i]], int(R->below(256)), sizeof raw[0]);
        h[i] = new (raw[place[i]]) Host();
        for (int k = 0; k < 6; ++k) m[i].value[k] = h[i]->value[k] = R->next();
    }
    size_t n = R->range(10, 80);
    for (size_t i = 0; i < n; ++i)
    {
        int x = int(R->below(NH)), a = int(R->below(4)), b = int(R->below(4)), t = int(R->below(7)) - 1;
        Host& H = *h[x];
        HostModel& M = m[x];
        uint64_t op = R->below(11);
        tr(fmt("%llu ", (unsigned long long)op));
        switch (op)
        {
        case 0: H.p[a] = t < 0 ? nullptr : &H.value[t]; M.p[a] = t; break;
        case 1: H.p[a] = H.p[b]; M.p[a] = M.p[b]; break;
        case 2: if (a != b) { H.p[a] = std::move(H.p[b]); M.p[a] = M.p[b]; M.p[b] = -1; } break;
        case 3: H.self = R->chance(800) ? &H : nullptr; M.self = H.self.get() != nullptr; break;
        case 4: H.v = t < 0 ? nullptr : static_cast<void*>(&H.value[t]); M.v = t; break;
        case 5: H.c = R->chance(800) ? &H.tail : nullptr; M.c = H.c.get() != nullptr; break;
        case 6:
        {
            // a copy elsewhere designates the same object
            iox::relocatable_ptr<uint64_t> local(H.p[a]);
            uint64_t* want = M.p[a] < 0 ? nullptr : &H.value[M.p[a]];
            CK(local.get() == want && local == H.p[a] && !(local != H.p[a]), "relocatable", "a copy designates %p instead of %p", static_cast<void*>(local.get()), static_cast<void*>(want));
            auto heap = std::make_unique<iox::relocatable_ptr<uint64_t>>(std::move(local));
            CK(heap->get() == want && local.get() == nullptr, "relocatable", "moving a pointer");
            H.p[b] = *heap;
            M.p[b] = M.p[a];
            break;
        }
        case 7: if (M.p[a] >= 0) { uint64_t w = R->next(); *H.p[a] = w; M.value[M.p[a]] = w; } break;
        case 8: case 9:
        {
            // relocate the whole object by memcpy
            int to = place[x] ^ 1;
            size_t shift = R->below(8) * 8;
            memcpy(raw[to] + shift, h[x], sizeof(Host));
            memset(raw[place[x]], int(R->below(256)), sizeof raw[0]);
            h[x] = reinterpret_cast<Host*>(raw[to] + shift);
            place[x] = to;
            count("relocations");
            break;
        }
        default: { auto& s = H.p[a]; H.p[a] = s; break; }
        }
        for (int k = 0; k < NH; ++k)
        {
            Host& K = *h[k];
            const Host& C = K;
            for (int q = 0; q < 4; ++q)
            {
                uint64_t* want = m[k].p[q] < 0 ? nullptr : &K.value[m[k].p[q]];
                CK(K.p[q].get() == want && C.p[q].get() == want && static_cast<uint64_t*>(K.p[q]) == want, "relocatable", "pointer designates %p instead of %p", static_cast<void*>(K.p[q].get()), static_cast<void*>(want));
                if (want) CK(*K.p[q] == m[k].value[m[k].p[q]] && *C.p[q] == *want && K.p[q].operator->() == want, "relocatable", "wrong value behind the pointer");
                for (int z = 0; z < 4; ++z) CK((K.p[q] == K.p[z]) == (m[k].p[q] == m[k].p[z]) && (K.p[q] != K.p[z]) == (m[k].p[q] != m[k].p[z]), "relocatable", "comparison of pointers is wrong");
                count("dereferences");
            }
            CK(K.self.get() == (m[k].self ? &K : nullptr), "relocatable", "pointer to the host itself is wrong");
            CK(K.v.get() == (m[k].v < 0 ? nullptr : static_cast<void*>(&K.value[m[k].v])), "relocatable", "void pointer is wrong");
            CK(K.c.get() == (m[k].c ? &K.tail : nullptr), "relocatable", "pointer to const is wrong");
            CK(memcmp(K.value, m[k].value, sizeof K.value) == 0, "relocatable", "values changed");
        }
    }
}
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "random histories of registering, unregistering and re-mapping memory segments with relative pointers stored inside them, and of objects with relocatable pointers moved by memcpy; distinct = different histories");
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    mapAll();
    ctx().trace = &g_trace;
    return runCases([&](uint64_t seed, uint64_t) {
        Rng r(seed);
        R = &r;
        g_trace.clear();
        switch (r.below(6))
        {
        case 0: runRepository<3>(); count("runs_repository"); break;
        case 1: runRepository<6>(); count("runs_repository"); break;
        case 2: runRelocatable(); count("runs_relocatable"); break;
        default: runRelative(); count("runs_relative"); break;
        }
        uint64_t h = 1469598103934665603ull;
        for (char ch : g_trace) h = (h ^ uint64_t(uint8_t(ch))) * 1099511628211ull;
        distinct(h);
        sample(g_trace);
    });
}
