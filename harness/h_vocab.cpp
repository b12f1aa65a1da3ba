// Vocabulary types against models (C19): random operation sequences over three objects of each kind, state comparison and
// life-time accounting after every operation, misuse probed in forked children.
#include "iox/expected.hpp"
#include "iox/function.hpp"
#include "iox/function_ref.hpp"
#include "iox/optional.hpp"
#include "iox/scope_guard.hpp"
#include "iox/unique_ptr.hpp"
#include "iox/variant.hpp"
#include "life.hpp"
#include <memory>

using namespace vh;
namespace
{
std::string g_trace;
void tr(const std::string& s)
{
    g_trace += s;
    if (g_trace.size() > 3000) g_trace.erase(0, 1500);
}
#define CK(cond, key, ...) VH_CHECK(cond, key, "%s %s; history: %s", kind, vh::fmt(__VA_ARGS__).c_str(), g_trace.substr(g_trace.size() > 900 ? g_trace.size() - 900 : 0).c_str())
Rng* R;
uint64_t g_val;
uint64_t val() { return R->chance(150) ? R->below(4) + 1 : ++g_val; }
const char* kind = "";

// a larger, over-aligned relative
struct alignas(64) LifeBig : Life
{
    uint64_t pad[5];
    LifeBig(uint64_t x = 0) : Life(x) { for (auto& p : pad) p = x * 7; }
    bool operator==(const LifeBig& o) const { return Life::operator==(o); }
    void checkPad() const
    {
        VH_CHECK((reinterpret_cast<uintptr_t>(this) & 63) == 0, "alignment", "%s holds a misaligned object", kind);
        if (v != MOVED) for (auto p : pad) VH_CHECK(p == v * 7, "torn", "%s holds a damaged object", kind);
    }
};
struct alignas(2) LifeSmall // different size, no conversion from the others
{
    uint16_t v;
    static int64_t& live() { static int64_t n = 0; return n; }
    LifeSmall(uint64_t x = 0) : v(uint16_t(x)) { ++live(); }
    LifeSmall(const LifeSmall& o) : v(o.v) { ++live(); }
    LifeSmall& operator=(const LifeSmall&) = default;
    ~LifeSmall() { --live(); }
    bool operator==(const LifeSmall& o) const { return v == o.v; }
};
int64_t alive() { return Life::live() + LifeSmall::live(); }

template <typename C>
struct Slot
{
    void* mem{nullptr};
    C* c{nullptr};
    template <typename... A>
    C& make(A&&... a)
    {
        mem = aligned_alloc(64, (sizeof(C) + 63) / 64 * 64);
        memset(mem, int(R->next() & 0xff), sizeof(C));
        c = new (mem) C(std::forward<A>(a)...);
        return *c;
    }
    void drop()
    {
        if (!c) return;
        C* t = c;
        c = nullptr;
        t->~C();
        free(mem);
    }
    ~Slot() { drop(); }
    C& operator*() { return *c; }
    C* operator->() { return c; }
};
uint64_t rd(const Life& l) { return uint64_t(l); }
uint64_t rd(const LifeBig& l) { l.checkPad(); return uint64_t(l); }
uint64_t rd(const LifeSmall& l) { return l.v; }
uint64_t rd(uint64_t l) { return l; }
uint64_t rd(uint8_t l) { return l; }
template <typename T> constexpr bool counted() { return !std::is_arithmetic<T>::value; }

// ---------------------------------------------------------------------------------------------- optional
template <typename T>
void runOptional()
{
    kind = "optional";
    using O = iox::optional<T>;
    using M = std::pair<bool, uint64_t>;
    int64_t live0 = alive();
    {
        Slot<O> o[3];
        M m[3];
        for (auto& x : o) x.make();
        auto norm = [](uint64_t x) { return rd(T(x)); };
        auto verify = [&](const char* op) {
            int64_t want = live0;
            for (int k = 0; k < 3; ++k)
            {
                const O& c = *o[k];
                CK(c.has_value() == m[k].first && bool(c) == m[k].first && (c == iox::nullopt) == !m[k].first && (iox::nullopt != c) == m[k].first && (c != iox::nullopt) == m[k].first && (iox::nullopt == c) == !m[k].first, "state", "object %d: has_value is %d after %s", k, c.has_value(), op);
                if (m[k].first) CK(rd(c.value()) == m[k].second && rd(*c) == m[k].second && c.operator->() == &c.value() && rd(**o[k]) == m[k].second && rd(o[k]->value()) == m[k].second, "value", "object %d holds %llu instead of %llu after %s", k, (unsigned long long)rd(c.value()), (unsigned long long)m[k].second, op);
                if (counted<T>() && m[k].first) ++want;
                for (int j = 0; j < 3; ++j) CK((*o[k] == *o[j]) == (m[k] == m[j]) && (*o[k] != *o[j]) == (m[k] != m[j]), "equality", "comparison of %d and %d is wrong after %s", k, j, op);
            }
            CK(alive() == want, "leak", "%lld values are alive instead of %lld after %s", (long long)(alive() - live0), (long long)(want - live0), op);
            count("state_checks");
        };
        size_t n = R->range(5, 50);
        for (size_t i = 0; i < n; ++i)
        {
            int a = int(R->below(3)), b = int(R->below(3));
            uint64_t x = val();
            uint64_t op = R->below(20);
            tr(fmt("o%llu(%d,%d,%llu) ", (unsigned long long)op, a, b, (unsigned long long)x));
            count("operations");
            O& A = *o[a];
            O& B = *o[b];
            switch (op)
            {
            case 0: A = B; m[a] = m[b]; break;
            case 1:
                A = std::move(B);
                if (a != b) { m[a] = m[b]; m[b] = M(); }
                break;
            case 2: { O t(A); if (a != b) { A = t; } break; }
            case 3: { O t(std::move(A)); CK(t.has_value() == m[a].first && (!m[a].first || rd(*t) == m[a].second), "value", "a moved object lost its value"); m[a] = M(); break; }
            case 4: A = T(x); m[a] = M(true, norm(x)); break;
            case 5: { const T t(x); A = t; m[a] = M(true, norm(x)); break; }
            case 6: CK(rd(A.emplace(x)) == norm(x), "value", "emplace returned another value"); m[a] = M(true, norm(x)); break;
            case 7: A.reset(); m[a] = M(); break;
            case 8: A = O(iox::nullopt); m[a] = M(); break;
            case 9: o[a].drop(); o[a].make(T(x)); m[a] = M(true, norm(x)); break;
            case 10: { const T t(x); o[a].drop(); o[a].make(t); m[a] = M(true, norm(x)); break; }
            case 11: o[a].drop(); o[a].make(iox::in_place, x); m[a] = M(true, norm(x)); break;
            case 12:
                if (a != b) { o[a].drop(); o[a].make(B); m[a] = m[b]; }
                break;
            case 13:
                if (a != b) { o[a].drop(); o[a].make(std::move(B)); m[a] = m[b]; m[b] = M(); }
                break;
            case 14: { o[a].drop(); o[a].make(iox::make_optional<T>(x)); m[a] = M(true, norm(x)); break; }
            case 15:
            {
                const O& c = A;
                CK(rd(c.value_or(T(x))) == (m[a].first ? m[a].second : norm(x)), "value_or", "value_or is wrong");
                if (R->chance(300))
                {
                    CK(rd(std::move(A).value_or(T(x))) == (m[a].first ? m[a].second : norm(x)), "value_or", "value_or && is wrong");
                    A.reset(); m[a] = M();
                }
                break;
            }
            case 16:
            {
                int called = 0, other = 0;
                uint64_t seen = 0;
                A.and_then([&](T& t) { ++called; seen = rd(t); t = T(x); }).or_else([&] { ++other; });
                CK(called == (m[a].first ? 1 : 0) && other == (m[a].first ? 0 : 1) && seen == (m[a].first ? m[a].second : 0), "and_then", "and_then ran %d, or_else %d times", called, other);
                if (m[a].first) m[a].second = norm(x);
                const O& c = A;
                called = other = 0;
                c.and_then([&](const T& t) { ++called; seen = rd(t); }).or_else([&] { ++other; });
                CK(called == (m[a].first ? 1 : 0) && other == (m[a].first ? 0 : 1) && (!called || seen == m[a].second), "and_then", "const and_then ran %d, or_else %d times", called, other);
                break;
            }
            case 17:
                if (m[a].first)
                {
                    T t(std::move(A).value());
                    CK(rd(t) == m[a].second, "value", "value() && yields another value");
                    A.reset();
                    m[a] = M();
                }
                break;
            case 18:
                if (m[a].first) CK(rd(A.expect("x")) == m[a].second, "value", "expect yields another value");
                else if (R->chance(60)) VH_TERMINATES(A.expect("boom"), "misuse", "optional::expect without a value");
                break;
            case 19:
                if (!m[a].first && R->chance(120))
                {
                    const O& c = A;
                    switch (R->below(4))
                    {
                    case 0: VH_TERMINATES(A.value(), "misuse", "optional::value() without a value"); break;
                    case 1: VH_TERMINATES(*c, "misuse", "optional::operator* without a value"); break;
                    case 2: VH_TERMINATES(A.operator->(), "misuse", "optional::operator-> without a value"); break;
                    default: VH_TERMINATES(std::move(A).value(), "misuse", "optional::value() && without a value"); break;
                    }
                }
                break;
            }
            verify(fmt("operation %llu", (unsigned long long)op).c_str());
        }
        sample(g_trace);
    }
    CK(alive() == live0, "leak", "%lld values are alive at the end", (long long)(alive() - live0));
}

// ---------------------------------------------------------------------------------------------- variant
void runVariant()
{
    kind = "variant";
    using V = iox::variant<uint8_t, Life, LifeBig, LifeSmall>;
    struct M
    {
        uint64_t idx{iox::INVALID_VARIANT_INDEX};
        uint64_t v{0};
        bool unspec{false}; // moved from: same alternative or none, value unspecified
        bool operator==(const M& o) const { return idx == o.idx && v == o.v; }
    };
    int64_t live0 = alive();
    {
        Slot<V> o[3];
        M m[3];
        for (auto& x : o) x.make();
        auto peek = [&](const V& c, uint64_t& v) {
            switch (c.index())
            {
            case 0: v = rd(*c.get<uint8_t>()); break;
            case 1: v = rd(*c.get<Life>()); break;
            case 2: v = rd(*c.get<LifeBig>()); break;
            case 3: v = rd(*c.get<LifeSmall>()); break;
            }
        };
        auto verify = [&](const std::string& op) {
            int64_t want = live0;
            for (int k = 0; k < 3; ++k)
            {
                V& c = *o[k];
                const V& cc = c;
                if (m[k].unspec)
                {
                    CK(c.index() == m[k].idx || c.index() == iox::INVALID_VARIANT_INDEX, "state", "moved-from object %d has alternative %llu", k, (unsigned long long)c.index());
                    if (c.index() != iox::INVALID_VARIANT_INDEX && c.index() != 0) ++want;
                    uint64_t v = 0;
                    peek(c, v);
                    continue;
                }
                uint64_t idx = m[k].idx;
                CK(c.index() == idx, "state", "object %d has alternative %llu instead of %llu after %s", k, (unsigned long long)c.index(), (unsigned long long)idx, op.c_str());
                CK(iox::holds_alternative<uint8_t>(c) == (idx == 0) && iox::holds_alternative<Life>(c) == (idx == 1) && iox::holds_alternative<LifeBig>(c) == (idx == 2) && iox::holds_alternative<LifeSmall>(c) == (idx == 3), "state", "holds_alternative of object %d is wrong", k);
                CK((c.get<uint8_t>() != nullptr) == (idx == 0) && (cc.get<Life>() != nullptr) == (idx == 1) && (c.get<LifeBig>() != nullptr) == (idx == 2) && (c.get_at_index<3>() != nullptr) == (idx == 3) && (c.get_at_index<1>() == c.get<Life>()) && (cc.get_at_index<2>() == cc.get<LifeBig>()) && cc.get_at_index<0>() == cc.get<uint8_t>(), "state", "get of object %d is wrong", k);
                Life dflt(5);
                CK(c.get_if<Life>(&dflt) == (idx == 1 ? c.get<Life>() : &dflt), "state", "get_if of object %d is wrong", k);
                uint64_t v = 0;
                peek(c, v);
                if (idx != iox::INVALID_VARIANT_INDEX) CK(v == m[k].v, "value", "object %d holds %llu instead of %llu after %s", k, (unsigned long long)v, (unsigned long long)m[k].v, op.c_str());
                if (idx != iox::INVALID_VARIANT_INDEX && idx != 0) ++want;
                for (int j = 0; j < 3; ++j)
                    if (!m[j].unspec) CK((c == *o[j]) == (m[k] == m[j]) && (c != *o[j]) == !(m[k] == m[j]), "equality", "comparison of %d and %d is wrong after %s", k, j, op.c_str());
            }
            CK(alive() == want, "leak", "%lld values are alive instead of %lld after %s", (long long)(alive() - live0), (long long)(want - live0), op.c_str());
            count("state_checks");
        };
        auto set = [&](int a, uint64_t idx, uint64_t x) { m[a] = M(); m[a].idx = idx; m[a].v = idx == 0 ? uint8_t(x) : idx == 3 ? uint16_t(x) : x; };
        size_t n = R->range(5, 50);
        for (size_t i = 0; i < n; ++i)
        {
            int a = int(R->below(3)), b = int(R->below(3));
            uint64_t x = val(), t = R->below(4), op = R->below(12);
            tr(fmt("v%llu(%d,%d,%llu,%llu) ", (unsigned long long)op, a, b, (unsigned long long)t, (unsigned long long)x));
            count("operations");
            V& A = *o[a];
            V& B = *o[b];
            switch (op)
            {
            case 0:
                switch (t)
                {
                case 0: A.emplace<uint8_t>(uint8_t(x)); break;
                case 1: A.emplace<Life>(x); break;
                case 2: A.emplace<LifeBig>(x); break;
                case 3: A.emplace<LifeSmall>(x); break;
                }
                set(a, t, x);
                break;
            case 1:
                switch (t)
                {
                case 0: A.emplace_at_index<0>(uint8_t(x)); break;
                case 1: A.emplace_at_index<1>(x); break;
                case 2: A.emplace_at_index<2>(x); break;
                case 3: A.emplace_at_index<3>(x); break;
                }
                set(a, t, x);
                break;
            case 2:
            {
                // assignment of a value: sets the value if this alternative (or none) is active, otherwise refused
                uint64_t before = A.index();
                bool was = m[a].unspec;
                if (was) { if (R->chance(500)) break; }
                switch (t)
                {
                case 0: A = uint8_t(x); break;
                case 1: A = Life(x); break;
                case 2: A = LifeBig(x); break;
                case 3: A = LifeSmall(x); break;
                }
                if (before == iox::INVALID_VARIANT_INDEX) count("assign_to_empty");
                if (before == t || before == iox::INVALID_VARIANT_INDEX) set(a, t, x);
                else count("refused_assignments");
                break;
            }
            case 3: if (m[b].unspec) break; A = B; m[a] = m[b]; break;
            case 4:
                if (m[b].unspec) break;
                A = std::move(B);
                if (a != b) { m[a] = m[b]; m[b].unspec = true; }
                break;
            case 5:
                if (a == b || m[b].unspec) break;
                o[a].drop(); o[a].make(B); m[a] = m[b];
                break;
            case 6:
                if (a == b || m[b].unspec) break;
                o[a].drop(); o[a].make(std::move(B)); m[a] = m[b]; m[b].unspec = true;
                break;
            case 7:
                o[a].drop();
                switch (t)
                {
                case 0: o[a].make(iox::in_place_index<0>(), uint8_t(x)); break;
                case 1: o[a].make(iox::in_place_index<1>(), x); break;
                case 2: o[a].make(iox::in_place_type<LifeBig>(), x); break;
                case 3: o[a].make(iox::in_place_type<LifeSmall>(), x); break;
                }
                set(a, t, x);
                break;
            case 8: o[a].drop(); o[a].make(); m[a] = M(); break;
            case 9:
                o[a].drop();
                switch (t)
                {
                case 0: o[a].make(uint8_t(x)); break;
                case 1: o[a].make(Life(x)); break;
                case 2: { const LifeBig l(x); o[a].make(l); break; }
                case 3: { LifeSmall l(x); o[a].make(l); break; }
                }
                set(a, t, x);
                break;
            case 10: { V tmp(A); if (!m[a].unspec) CK(tmp == A, "equality", "a copy differs from its source"); break; }
            case 11:
                if (!m[a].unspec && m[a].idx == 1) { *A.get<Life>() = Life(x); set(a, 1, x); }
                break;
            }
            verify(fmt("operation %llu", (unsigned long long)op));
        }
        sample(g_trace);
    }
    CK(alive() == live0, "leak", "%lld values are alive at the end", (long long)(alive() - live0));
}

// ---------------------------------------------------------------------------------------------- expected
template <typename T, typename E>
void runExpected()
{
    kind = "expected";
    using X = iox::expected<T, E>;
    struct M
    {
        bool ok{true};
        uint64_t v{0};
        bool unspec{false};
        bool operator==(const M& o) const { return ok == o.ok && v == o.v; }
    };
    int64_t live0 = alive();
    {
        Slot<X> o[3];
        M m[3];
        auto norm = [](bool ok, uint64_t x) { return ok ? rd(T(x)) : rd(E(x)); };
        auto create = [&](int a, bool ok, uint64_t x) {
            o[a].drop();
            m[a] = M();
            m[a].ok = ok;
            m[a].v = norm(ok, x);
            switch (R->below(4))
            {
            case 0: if (ok) o[a].make(iox::in_place, x); else o[a].make(iox::unexpect, x); break;
            case 1: if (ok) o[a].make(iox::ok(T(x))); else o[a].make(iox::err(E(x))); break;
            case 2: if (ok) o[a].make(iox::ok<T>(x)); else o[a].make(iox::err<E>(x)); break;
            default:
                if (ok) { const auto w = iox::ok(T(x)); o[a].make(w); }
                else { const auto w = iox::err(E(x)); o[a].make(w); }
            }
        };
        for (int k = 0; k < 3; ++k) create(k, R->chance(500), val());
        auto verify = [&](const std::string& op) {
            int64_t want = live0;
            for (int k = 0; k < 3; ++k)
            {
                X& c = *o[k];
                const X& cc = c;
                if (counted<T>() && counted<E>()) ++want;
                else if (cc.has_value() ? counted<T>() : counted<E>()) ++want;
                CK(cc.has_value() != cc.has_error() && bool(cc) == cc.has_value(), "state", "object %d has value and error (or none) after %s", k, op.c_str());
                if (m[k].unspec) continue;
                CK(cc.has_value() == m[k].ok, "state", "object %d: has_value is %d after %s", k, cc.has_value(), op.c_str());
                if (m[k].ok) CK(rd(cc.value()) == m[k].v && rd(c.value()) == m[k].v && rd(*cc) == m[k].v && rd(*c) == m[k].v && cc.operator->() == &cc.value(), "value", "object %d holds value %llu instead of %llu after %s", k, (unsigned long long)rd(cc.value()), (unsigned long long)m[k].v, op.c_str());
                else CK(rd(cc.error()) == m[k].v && rd(c.error()) == m[k].v, "value", "object %d holds error %llu instead of %llu after %s", k, (unsigned long long)rd(cc.error()), (unsigned long long)m[k].v, op.c_str());
                for (int j = 0; j < 3; ++j)
                    if (!m[j].unspec) CK((c == *o[j]) == (m[k] == m[j]) && (c != *o[j]) == !(m[k] == m[j]), "equality", "comparison of %d and %d is wrong after %s", k, j, op.c_str());
            }
            CK(alive() == want, "leak", "%lld values are alive instead of %lld after %s", (long long)(alive() - live0), (long long)(want - live0), op.c_str());
            count("state_checks");
        };
        size_t n = R->range(5, 40);
        for (size_t i = 0; i < n; ++i)
        {
            int a = int(R->below(3)), b = int(R->below(3));
            uint64_t x = val(), op = R->below(12);
            tr(fmt("e%llu(%d,%d,%llu) ", (unsigned long long)op, a, b, (unsigned long long)x));
            count("operations");
            switch (op)
            {
            case 0:
            case 1: create(a, R->chance(500), x); break;
            case 2: if (m[b].unspec) break; *o[a] = *o[b]; m[a] = m[b]; break;
            case 3:
                if (m[b].unspec) break;
                *o[a] = std::move(*o[b]);
                if (a != b) { m[a] = m[b]; m[b].unspec = true; }
                break;
            case 4: if (a == b || m[b].unspec) break; o[a].drop(); o[a].make(*o[b]); m[a] = m[b]; break;
            case 5: if (a == b || m[b].unspec) break; o[a].drop(); o[a].make(std::move(*o[b])); m[a] = m[b]; m[b].unspec = true; break;
            case 6:
            {
                if (m[a].unspec) break;
                int good = 0, bad = 0;
                uint64_t seen = 0;
                (*o[a]).and_then([&](T& t) { ++good; seen = rd(t); t = T(x); }).or_else([&](E& e) { ++bad; seen = rd(e); e = E(x); });
                CK(good == (m[a].ok ? 1 : 0) && bad == (m[a].ok ? 0 : 1) && seen == m[a].v, "and_then", "and_then ran %d times, or_else %d times", good, bad);
                m[a].v = norm(m[a].ok, x);
                break;
            }
            case 7:
                if (m[a].unspec) break;
                {
                    const X& c = *o[a];
                    CK(rd(c.value_or(T(x))) == (m[a].ok ? m[a].v : norm(true, x)), "value_or", "value_or is wrong");
                    auto opt = c.to_optional();
                    CK(opt.has_value() == m[a].ok && (!m[a].ok || rd(*opt) == m[a].v), "to_optional", "to_optional is wrong");
                    iox::expected<void, E> v = c;
                    CK(v.has_error() == !m[a].ok && (m[a].ok || rd(v.error()) == m[a].v), "to_void", "conversion to expected<void> is wrong");
                    iox::expected<void, E> v2(v), v3(iox::ok());
                    CK(v2 == v && (v3 == v) == m[a].ok, "equality", "comparison of expected<void> is wrong");
                    v3 = v;
                    CK(v3 == v && v3.has_error() == !m[a].ok, "equality", "assignment of expected<void> is wrong");
                    int good = 0, bad = 0;
                    v3.and_then([&] { ++good; }).or_else([&](E&) { ++bad; });
                    CK(good == (m[a].ok ? 1 : 0) && bad == (m[a].ok ? 0 : 1), "and_then", "expected<void>: and_then ran %d times, or_else %d times", good, bad);
                }
                break;
            case 8:
                if (m[a].unspec || !R->chance(80)) break;
                if (m[a].ok) VH_TERMINATES(o[a]->error(), "misuse", "expected::error() with a value");
                else if (R->chance(500)) VH_TERMINATES(o[a]->value(), "misuse", "expected::value() with an error");
                else VH_TERMINATES(o[a]->operator->(), "misuse", "expected::operator->() with an error");
                break;
            case 9:
                if (m[a].unspec) break;
                if (m[a].ok) { T t(std::move(*o[a]).value()); CK(rd(t) == m[a].v, "value", "value() && is wrong"); }
                else { E t(std::move(*o[a]).error()); CK(rd(t) == m[a].v, "value", "error() && is wrong"); }
                m[a].unspec = true;
                break;
            case 10:
                if (m[a].unspec) break;
                if (m[a].ok) CK(rd(o[a]->expect("x")) == m[a].v, "value", "expect is wrong");
                else if (R->chance(60)) VH_TERMINATES(o[a]->expect("boom"), "misuse", "expected::expect with an error");
                break;
            case 11:
                if (m[a].unspec || a == b) break;
                { X tmp(std::move(*o[a])); *o[a] = std::move(tmp); }
                break;
            }
            verify(fmt("operation %llu", (unsigned long long)op));
        }
        sample(g_trace);
    }
    CK(alive() == live0, "leak", "%lld values are alive at the end", (long long)(alive() - live0));
}

// ---------------------------------------------------------------------------------------------- function
uint64_t freeA(uint64_t x) { return x * 3 + 1; }
uint64_t freeB(uint64_t x) { return x * 5 + 2; }
struct Obj
{
    uint64_t k;
    uint64_t calls{0};
    uint64_t method(uint64_t x) { ++calls; return x + k; }
    uint64_t cmethod(uint64_t x) const { return x ^ k; }
};
template <size_t PAD, size_t AL>
struct Functor
{
    Life l;
    mutable uint64_t calls{0};
    alignas(AL) uint8_t pad[PAD];
    explicit Functor(uint64_t x) : l(x) { for (auto& p : pad) p = uint8_t(x); }
    uint64_t operator()(uint64_t x) const
    {
        VH_CHECK((reinterpret_cast<uintptr_t>(this) & (alignof(Functor) - 1)) == 0, "alignment", "the functor is stored misaligned");
        for (auto& p : pad) VH_CHECK(p == uint8_t(l.v), "torn", "the functor is damaged");
        ++calls;
        return uint64_t(l) * 1000003 + x * 7 + calls;
    }
};
void runFunction()
{
    kind = "function";
    using F = iox::function<uint64_t(uint64_t), 256>;
    struct M
    {
        int what{0}; // 0 free A, 1 free B, 2 functor, 3 method, 4 const method, -1 moved from
        uint64_t v{0};
        uint64_t calls{0};
        int obj{0};
    };
    int64_t live0 = alive();
    {
        Obj objs[2] = {{11}, {22}};
        uint64_t mcalls[2] = {0, 0};
        Slot<F> o[3];
        M m[3];
        auto create = [&](int a) {
            o[a].drop();
            m[a] = M();
            uint64_t x = val();
            m[a].v = x;
            switch (R->below(8))
            {
            case 0: m[a].what = 0; o[a].make(freeA); break;
            case 1: m[a].what = 1; o[a].make(freeB); break;
            case 2: m[a].what = 2; o[a].make(Functor<1, 1>(x)); break;
            case 3: m[a].what = 2; o[a].make(Functor<60, 8>(x)); break;
            case 4: m[a].what = 2; o[a].make(Functor<64, 64>(x)); break;
            case 5: m[a].what = 2; o[a].make(Functor<100, 32>(x)); break;
            case 6: m[a].what = 3; m[a].obj = int(R->below(2)); o[a].make(objs[m[a].obj], &Obj::method); break;
            default: m[a].what = 4; m[a].obj = int(R->below(2)); { const Obj& c = objs[m[a].obj]; o[a].make(c, &Obj::cmethod); } break;
            }
        };
        auto call = [&](int a, uint64_t x) {
            uint64_t want = 0;
            switch (m[a].what)
            {
            case 0: want = freeA(x); break;
            case 1: want = freeB(x); break;
            case 2: want = m[a].v * 1000003 + x * 7 + ++m[a].calls; break;
            case 3: want = x + objs[m[a].obj].k; ++mcalls[m[a].obj]; break;
            case 4: want = x ^ objs[m[a].obj].k; break;
            }
            const F& f = *o[a];
            uint64_t got = f(x);
            CK(got == want, "call", "call of object %d returned %llu instead of %llu", a, (unsigned long long)got, (unsigned long long)want);
            CK(objs[0].calls == mcalls[0] && objs[1].calls == mcalls[1], "call", "the method ran on another object or another number of times");
            count("calls");
        };
        for (int k = 0; k < 3; ++k) create(k);
        size_t n = R->range(5, 50);
        for (size_t i = 0; i < n; ++i)
        {
            int a = int(R->below(3)), b = int(R->below(3));
            uint64_t op = R->below(11);
            tr(fmt("f%llu(%d,%d) ", (unsigned long long)op, a, b));
            count("operations");
            bool ea = m[a].what < 0, eb = m[b].what < 0;
            switch (op)
            {
            case 0: create(a); break;
            case 1:
            case 2: if (!ea) call(a, val()); break;
            case 3: if (eb) break; *o[a] = *o[b]; m[a] = m[b]; break;
            case 4: if (eb) break; *o[a] = std::move(*o[b]); if (a != b) { m[a] = m[b]; m[b].what = -1; } break;
            case 5: if (eb || a == b) break; o[a].drop(); o[a].make(*o[b]); m[a] = m[b]; break;
            case 6: if (eb || a == b) break; o[a].drop(); o[a].make(std::move(*o[b])); m[a] = m[b]; m[b].what = -1; break;
            case 7: if (ea || eb) break; o[a]->swap(*o[b]); std::swap(m[a], m[b]); break;
            case 8: if (ea || eb) break; { using std::swap; swap(*o[a], *o[b]); std::swap(m[a], m[b]); } break;
            case 9: if (ea && R->chance(60)) VH_TERMINATES((*o[a])(1), "misuse", "call of a moved-from function"); break;
            case 10:
            {
                // function_ref to one of them and to plain callables
                if (ea) break;
                F& f = *o[a];
                iox::function_ref<uint64_t(uint64_t)> r(f);
                uint64_t x = val();
                M save = m[a];
                uint64_t want;
                switch (save.what)
                {
                case 0: want = freeA(x); break;
                case 1: want = freeB(x); break;
                case 2: want = m[a].v * 1000003 + x * 7 + ++m[a].calls; break;
                case 3: want = x + objs[save.obj].k; ++mcalls[save.obj]; break;
                default: want = x ^ objs[save.obj].k; break;
                }
                auto r2 = r;
                uint64_t got = r2(x);
                CK(got == want, "function_ref", "call through a reference returned %llu instead of %llu", (unsigned long long)got, (unsigned long long)want);
                uint64_t n2 = 0;
                auto lam = [&](uint64_t y) { ++n2; return y + 9; };
                iox::function_ref<uint64_t(uint64_t)> q(lam), fr(freeA);
                CK(q(x) == x + 9 && n2 == 1 && fr(x) == freeA(x), "function_ref", "call through a reference is wrong");
                q.swap(fr);
                CK(fr(x) == x + 9 && n2 == 2 && q(x) == freeA(x), "function_ref", "swap of references is wrong");
                iox::function_ref<uint64_t(uint64_t)> s(std::move(fr));
                CK(s(x) == x + 9 && n2 == 3, "function_ref", "moved reference is wrong");
                q = std::move(s);
                CK(q(x) == x + 9 && n2 == 4, "function_ref", "move-assigned reference is wrong");
                if (R->chance(20)) VH_TERMINATES(s(x), "misuse", "call of a moved-from function_ref");
                count("calls", 6);
                break;
            }
            }
            int64_t want = live0;
            for (auto& x : m) if (x.what == 2) ++want;
            CK(alive() == want, "leak", "%lld stored functors are alive instead of %lld after operation %llu", (long long)(alive() - live0), (long long)(want - live0), (unsigned long long)op);
            count("state_checks");
        }
        for (int k = 0; k < 3; ++k) if (m[k].what >= 0) call(k, 77);
        sample(g_trace);
    }
    CK(alive() == live0, "leak", "%lld functors are alive at the end", (long long)(alive() - live0));
}

// ---------------------------------------------------------------------------------------------- unique_ptr, ScopeGuard
void runOwner()
{
    kind = "unique_ptr/ScopeGuard";
    int64_t live0 = alive();
    {
        using P = iox::unique_ptr<Life>;
        std::vector<std::pair<Life*, int>> deleted, wantDeleted;
        Slot<P> o[3];
        struct M { uint64_t v{0}; int del{0}; bool own{false}; Life* p{nullptr}; bool movedDeleter{false}; };
        M m[3];
        auto create = [&](int a) {
            if (m[a].own) wantDeleted.push_back({m[a].p, m[a].del});
            o[a].drop();
            m[a] = M();
            m[a].v = val();
            m[a].del = int(R->below(1000));
            m[a].own = true;
            m[a].p = new Life(m[a].v);
            int d = m[a].del;
            o[a].make(m[a].p, [d, &deleted](Life* const l) { deleted.push_back({l, d}); delete l; });
        };
        for (int k = 0; k < 3; ++k) create(k);
        size_t n = R->range(5, 40);
        for (size_t i = 0; i < n; ++i)
        {
            int a = int(R->below(3)), b = int(R->below(3));
            uint64_t op = R->below(8);
            tr(fmt("u%llu(%d,%d) ", (unsigned long long)op, a, b));
            count("operations");
            switch (op)
            {
            case 0: create(a); break;
            case 1:
                if (!m[b].own || a == b) { if (a == b && m[b].own) { P& self = *o[a]; self = std::move(*o[a]); } break; }
                if (m[a].own) wantDeleted.push_back({m[a].p, m[a].del});
                *o[a] = std::move(*o[b]);
                m[a] = m[b];
                m[b] = M();
                break;
            case 2:
                if (!m[b].own || a == b) break;
                if (m[a].own) wantDeleted.push_back({m[a].p, m[a].del});
                o[a].drop();
                o[a].make(std::move(*o[b]));
                m[a] = m[b];
                m[b] = M();
                break;
            case 3:
                if (!m[a].own) break;
                {
                    Life* p = P::release(std::move(*o[a]));
                    CK(p == m[a].p, "release", "release returned another object");
                    delete p;
                    m[a] = M();
                }
                break;
            case 4:
                if (!m[a].own || !m[b].own) break;
                o[a]->swap(*o[b]);
                std::swap(m[a], m[b]);
                break;
            case 5: if (!m[a].own && R->chance(60)) VH_TERMINATES((*o[a])->v, "misuse", "dereferencing an empty unique_ptr"); break;
            case 6: if (R->chance(30)) VH_TERMINATES(P(nullptr, [](Life* const) {}), "misuse", "unique_ptr of nullptr"); break;
            case 7: CK((*o[a] == *o[b]) == (m[a].p == m[b].p) && (*o[a] != *o[b]) == (m[a].p != m[b].p), "equality", "comparison is wrong"); break;
            }
            CK(deleted == wantDeleted, "deleter", "deleters ran %zu times, expected %zu (or with another object or deleter)", deleted.size(), wantDeleted.size());
            int64_t want = live0;
            for (int k = 0; k < 3; ++k)
            {
                if (m[k].own) ++want;
                CK(o[k]->get() == m[k].p, "value", "object %d points to another object", k);
                if (m[k].own) CK(rd(*o[k]->get()) == m[k].v && (*o[k])->v == m[k].v, "value", "object %d has another value", k);
            }
            CK(alive() == want, "leak", "%lld objects are alive instead of %lld", (long long)(alive() - live0), (long long)(want - live0));
            count("state_checks");
        }
    }
    CK(alive() == live0, "leak", "%lld objects are alive at the end", (long long)(alive() - live0));
    {
        std::vector<uint64_t> ran, want;
        Slot<iox::ScopeGuard> o[3];
        uint64_t id[3] = {0, 0, 0}; // 0: nothing to clean up
        auto create = [&](int a) {
            if (id[a]) want.push_back(id[a]);
            o[a].drop();
            id[a] = ++g_val + 1000;
            uint64_t x = id[a];
            if (R->chance(500)) o[a].make([x, &ran] { ran.push_back(x); });
            else
            {
                int inits = 0;
                auto init = [&] { ++inits; };
                o[a].make(iox::function_ref<void()>(init), [x, l = Life(x), &ran] { ran.push_back(uint64_t(l)); });
                CK(inits == 1, "init", "the init function ran %d times", inits);
            }
        };
        for (int k = 0; k < 3; ++k) create(k);
        size_t n = R->range(3, 25);
        for (size_t i = 0; i < n; ++i)
        {
            int a = int(R->below(3)), b = int(R->below(3));
            uint64_t op = R->below(5);
            tr(fmt("g%llu(%d,%d) ", (unsigned long long)op, a, b));
            count("operations");
            switch (op)
            {
            case 0: create(a); break;
            case 1:
                if (a == b) { iox::ScopeGuard& self = *o[a]; self = std::move(*o[a]); break; }
                if (id[a]) want.push_back(id[a]);
                *o[a] = std::move(*o[b]);
                id[a] = id[b];
                id[b] = 0;
                break;
            case 2:
                if (a == b) break;
                if (id[a]) want.push_back(id[a]);
                o[a].drop();
                o[a].make(std::move(*o[b]));
                id[a] = id[b];
                id[b] = 0;
                break;
            case 3:
                if (!id[a]) break;
                {
                    auto f = iox::ScopeGuard::release(std::move(*o[a]));
                    CK(ran == want, "cleanup", "release ran the clean-up");
                    if (R->chance(500)) { f(); want.push_back(id[a]); }
                    id[a] = 0;
                }
                break;
            case 4: if (!id[a] && R->chance(50)) VH_TERMINATES(iox::ScopeGuard::release(std::move(*o[a])), "misuse", "release of an empty scope guard"); break;
            }
            CK(ran == want, "cleanup", "clean-ups ran %zu times, expected %zu, or in another order", ran.size(), want.size());
            count("state_checks");
        }
        for (int k = 0; k < 3; ++k) { o[k].drop(); if (id[k]) want.push_back(id[k]); }
        CK(ran == want, "cleanup", "clean-ups ran %zu times, expected %zu at the end", ran.size(), want.size());
    }
    CK(alive() == live0, "leak", "%lld captured objects are alive at the end", (long long)(alive() - live0));
    sample(g_trace);
}
} // namespace

int main(int argc, char** argv)
{
    init(argc, argv, "random operation sequences over three objects of one kind per case (optional, variant, expected, function and function_ref, unique_ptr and ScopeGuard) with life-time checked, over-aligned and trivial contents; distinct = different histories");
    iox::log::Logger::get();
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    ctx().trace = &g_trace;
    return runCases([&](uint64_t seed, uint64_t) {
        Rng r(seed);
        R = &r;
        g_val = 100;
        g_trace.clear();
        switch (r.below(10))
        {
        case 0: runOptional<Life>(); count("runs_optional"); break;
        case 1: if (r.chance(500)) runOptional<LifeBig>(); else runOptional<uint64_t>(); count("runs_optional"); break;
        case 2:
        case 3: runVariant(); count("runs_variant"); break;
        case 4: runExpected<Life, LifeBig>(); count("runs_expected"); break;
        case 5: if (r.chance(500)) runExpected<uint64_t, Life>(); else runExpected<LifeBig, uint64_t>(); count("runs_expected"); break;
        case 6:
        case 7: runFunction(); count("runs_function"); break;
        default: runOwner(); count("runs_owner"); break;
        }
        uint64_t h = 1;
        for (char c : g_trace) h = h * 31 + uint8_t(c);
        distinct(h);
    });
}
